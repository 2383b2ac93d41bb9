cd /verif
out=/dev/shm/out.$1
(time timeout 1500 python3 run.py "$@") > $out 2>&1
echo "violations $(grep -c ^VIOL $out)"
grep -v '^ *File\|\^\^\|^ *Traceback\|^real\|^sys\|^VIOL\|^$' $out | cut -c1-${W:-700} | head -${N:-24}; tail -4 $out | grep real
