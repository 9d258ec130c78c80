#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry of checks."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "engine"))
sys.dont_write_bytecode = True
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = {}
checks, na = [], []
for i in ids:
    try:
        P = props.get(i)
    except KeyError:
        na.append({"property": i, "reason": NA.get(i, "no check yet")})
        continue
    checks.append({"property": i, "quick_cmd": "python3 engine/check.py %s quick" % i, "thorough_cmd": "python3 engine/check.py %s thorough" % i,
                   "technique": P.technique, "level": P.level, "level_note": P.note})
m = {"version": 1,
     "setup_cmd": "python3 -c \"import sys; sys.path.insert(0, 'engine'); import build; build.tools(); build.fast()\"",
     "checks": checks, "not_applicable": na,
     "notes": "All checks are one static analyser (engine/) over rustc's MIR of /repo's current source, dumped by driver/. No code of /repo is executed by any check and no hooks are needed in /repo. VIOLATION lines name the function, file and path reported in the replay file."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
