#!/usr/bin/env python3
"""Entry point of every check: run.py <property> [--tier quick|thorough] [--replay FILE]."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mcheck import env


def _main():
    if os.environ.get("MCHECK_CHILD") != "1":
        import subprocess

        environment = env.reexec_environment()
        environment["MCHECK_CHILD"] = "1"
        environment["MCHECK_SCRATCH"] = env.scratch_root()
        code = subprocess.call([env.PYTHON, os.path.abspath(__file__)] + sys.argv[1:], env=environment,
                               cwd=env.scratch_root())
        return code
    env._scratch = os.environ["MCHECK_SCRATCH"]
    env.setup_imports()
    if sys.argv[1:] == ["--setup"]:
        env.build_extensions(env.ALL_EXTENSIONS)
        return 0
    import faulthandler

    faulthandler.enable()
    from mcheck import core

    return core.main(sys.argv[1:])


if __name__ == "__main__":
    sys.exit(_main())
