#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the check modules that exist."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# property -> (technique, level note); the level is read from the module
NOTES = json.load(open(os.path.join(HERE, "tools", "claims.json")))
checks, missing = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    pid = json.loads(line)["id"]
    path = os.path.join(HERE, "mcheck", "checks", pid.lower() + ".py")
    if not os.path.exists(path) or pid not in NOTES:
        missing.append({"property": pid, "reason": "no check has been built for it (not a limit of the technique)"})
        continue
    level = (re.search(r'^LEVEL = "(\w+)"', open(path).read(), re.M) or [None, "model_checking"])[1]
    checks.append({
        "property": pid,
        "quick_cmd": f"python3 run.py {pid} --tier quick",
        "thorough_cmd": f"python3 run.py {pid} --tier thorough",
        "technique": NOTES[pid][0],
        "level": level,
        "level_note": NOTES[pid][1],
    })
manifest = {
    "version": 1,
    "setup_cmd": "python3 run.py --setup",
    "checks": checks,
    "not_applicable": missing,
    "notes": "All checks run the real code of /repo; no hooks in /repo are needed. Known findings: known_findings.txt.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
print([c["property"] for c in checks])
