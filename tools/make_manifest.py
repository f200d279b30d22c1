#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from specs.py (claimed checks) and properties.jsonl."""
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from specs import SPECS, NOT_APPLICABLE  # noqa: E402

ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in SPECS:
        continue
    s = SPECS[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s quick" % i,
        "thorough_cmd": "python3 check.py %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": s.get("technique", "property-based testing: generated inputs against an independent oracle, "
                                        "under address and undefined-behaviour sanitizers"),
        "level": "exploration",
        "level_note": s.get("note", "Randomised search over the stated input space with shrinking and replay; no "
                                    "exhaustiveness is claimed.") + " Assumes: " + "; ".join(s.get("assumptions", [])),
    })
na = [{"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")} for i in ids if i not in SPECS]
m = {"version": 1, "setup_cmd": "python3 --version && g++ --version && ninja --version", "checks": checks,
     "not_applicable": na,
     "notes": "No hooks are compiled into /repo. Every check builds /repo's current working tree into /verif/_build."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
