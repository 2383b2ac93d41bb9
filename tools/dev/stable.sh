pgrep -f /opt/vcheck/endcheck.py > /dev/null && { echo "a vcheck is running: /repo must not change"; exit 1; }
# stable.sh ID... : build and run the stable tests with each planted change applied to /repo (undone afterwards)
for id in "$@"; do
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  bash /opt/vp/build.sh > /dev/shm/build.log 2>&1 || echo "$id build failed"
  bash /opt/vp/test.sh /dev/shm/out.json > /dev/shm/test.log 2>&1
  python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/dev/shm/out.json'))
print('$id', 'passed', o['passed'] if isinstance(o['passed'],int) else len(o['passed']), 'failed', o['failed'] if isinstance(o['failed'],int) else len(o['failed']))"
  git -C /repo checkout -q -- .
done
bash /opt/vp/build.sh > /dev/shm/build.log 2>&1
