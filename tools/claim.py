#!/usr/bin/env python3
"""claim.py ID TECHNIQUE NOTE - record a claim and rewrite MANIFEST.json"""
import json
import os
import subprocess
import sys

here = os.path.dirname(os.path.abspath(__file__))
path = os.path.join(here, "claims.json")
claims = json.load(open(path))
claims[sys.argv[1]] = sys.argv[2:4]
with open(path, "w") as f:
    json.dump(dict(sorted(claims.items())), f, indent=1)
    f.write("\n")
subprocess.check_call([sys.executable, os.path.join(here, "gen_manifest.py")])
