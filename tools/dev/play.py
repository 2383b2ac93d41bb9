"""Run a script as a check would run (play.py SCRIPT ARGS)."""
import os
import runpy
import subprocess
import sys

sys.path.insert(0, "/verif")
from mcheck import env

if os.environ.get("MCHECK_CHILD") != "1":
    e = env.reexec_environment()
    e.update(MCHECK_CHILD="1", MCHECK_SCRATCH=env.scratch_root())
    sys.exit(subprocess.call([env.PYTHON, __file__] + sys.argv[1:], env=e, cwd=env.scratch_root()))
env._scratch = os.environ["MCHECK_SCRATCH"]
env.setup_imports()
sys.argv = sys.argv[1:]
runpy.run_path(sys.argv[0], run_name="__main__")
