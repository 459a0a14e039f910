#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl, harness/units.py and the notes below"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
from units import UNITS
from notes import TECH, NOTE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in UNITS:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "technique": TECH[i], "level": "exploration", "level_note": NOTE[i]})
    else:
        na.append({"property": i, "reason": "not built yet: planned, see DESIGN.md"})
m = {"version": 1, "setup_cmd": "python3 check.py --list", "checks": checks, "not_applicable": na,
     "notes": "Every check compiles its harness against /repo's working tree; the absent crypto3-multiprecision is stood in for by /verif/shim. No hooks in /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
