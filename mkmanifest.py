#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
from checks import CHECKS, TECHNIQUE, NOTE, NOT_APPLICABLE
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        checks.append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                       "technique": TECHNIQUE.get(i, TECHNIQUE["*"]), "level": CHECKS[i].get("level", "exploration"),
                       "level_note": NOTE.get(i, NOTE["*"])})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks were added to /repo: the monitors observe the public API, the bytes on streams, and sanitizer reports. /repo has fix commits only."}
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
