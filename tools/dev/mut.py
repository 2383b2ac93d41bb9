"""mut.py CHECK FILE OLD NEW [args] - run a check against a mutated copy of /repo"""
import os
import shutil
import subprocess
import sys
import tempfile

check, file, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix="mut-", dir="/dev/shm")
dst = os.path.join(d, "repo")
shutil.copytree(os.environ.get("MUT_BASE", "/repo"), dst, symlinks=True, ignore=shutil.ignore_patterns(".git", "build", "*.so", "__pycache__", "assets"))
p = os.path.join(dst, file)
s = open(p, newline="").read()
crlf = "\r\n" in s
s2 = s.replace("\r\n", "\n")
old, new = old.encode().decode("unicode_escape"), new.encode().decode("unicode_escape")
if s2.count(old) < 1:
    print("NOT FOUND")
    shutil.rmtree(d)
    sys.exit(3)
s2 = s2.replace(old, new, 1)
open(p, "w", newline="").write(s2.replace("\n", "\r\n") if crlf else s2)
r = subprocess.run(["python3", "/verif/run.py", check] + sys.argv[5:],
                   env={**os.environ, "MCHECK_REPO": dst}, capture_output=True, text=True)
out = r.stdout.strip().splitlines()
v = [l for l in out if l.startswith("VIOLATION")]
msg = next((l for l in out if l.startswith("  ")), "")
print(f"{check} rc={r.returncode} violations={len(v)} {msg[:200]} | {out[-1][:150] if out else r.stderr[-300:]}")
shutil.rmtree(d)
