"""plant.py ID PROPERTY SPEC.json - make /verif/seeded/ID from a list of edits and a demo, confirming everything.

SPEC: {"edits": [[file, old, new], ...], "needs": ..., "breaks": ..., "demo": python source, "checks": [..]}"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

name, prop, spec = sys.argv[1], sys.argv[2], sys.argv[3]
ns = {}
exec(open(spec).read(), ns)
dst = f"/verif/seeded/{name}"
root = tempfile.mkdtemp(prefix="plant-", dir="/dev/shm")
repo = os.path.join(root, "repo")
subprocess.run(["cp", "-a", "/repo", repo], check=True)
for file, old, new in ns["edits"]:
    p = os.path.join(repo, file)
    s = open(p, newline="").read()
    crlf = "\r\n" in s
    s = s.replace("\r\n", "\n")
    assert s.count(old) == 1, (file, s.count(old), old)
    s = s.replace(old, new)
    open(p, "w", newline="").write(s.replace("\n", "\r\n") if crlf else s)
os.makedirs(dst, exist_ok=True)
diff = subprocess.run(["git", "-C", repo, "diff", "--binary"], capture_output=True, check=True).stdout
open(os.path.join(dst, "patch.diff"), "wb").write(diff)
open(os.path.join(dst, "demo.py"), "w").write(ns["demo"].lstrip("\n"))
shutil.copy("/verif/tools/dev/plants/helper.py", os.path.join(dst, "helper.py"))
open(os.path.join(dst, "demo.sh"), "w").write('#!/bin/sh\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
os.chmod(os.path.join(dst, "demo.sh"), 0o755)
json.dump({"property": prop, "needs": ns["needs"], "what_it_breaks": ns["breaks"]},
          open(os.path.join(dst, "meta.json"), "w"), indent=1)
bad = []
demo = os.path.join(root, "d")
shutil.copytree(dst, demo)
for extra in ("patch.diff", "meta.json"):
    os.remove(os.path.join(demo, extra))
r = subprocess.run(["sh", demo + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
if r.returncode:
    bad.append("demo fails on the unchanged tree: " + r.stdout[-1500:] + r.stderr[-2500:])
r2 = subprocess.run(["sh", demo + "/demo.sh"], cwd=repo, capture_output=True, text=True)
if not r2.returncode:
    bad.append("demo passes with the change: " + r2.stdout[-300:])
else:
    print("demo with the change:", (r2.stdout.strip().splitlines() + r2.stderr.strip().splitlines())[-1][:300])
procs = []
for c in ns.get("checks", [prop]):
    r = subprocess.run(["python3", "/verif/run.py", c, "--tier", "quick"], capture_output=True, text=True,
                       env={**os.environ, "MCHECK_REPO": repo})
    lines = [l for l in r.stdout.splitlines() if l.strip()]
    msg = next((l for l in lines if l.startswith("  ")), "")
    print(f"{c}: rc={r.returncode} {msg[:200]}", "" if r.returncode in (0, 1) else r.stderr[-300:])
shutil.rmtree(root)
for b in bad:
    print("BAD", b)
