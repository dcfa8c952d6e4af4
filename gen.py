#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and the rule table (run by hand after editing them)."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE
from sa.rules import RULES

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in PROPS:
        d = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
checks = []
for p in PROPS:
    r = RULES.get(p["id"])
    if not r:
        assert p["id"] in NOT_APPLICABLE, p["id"]
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
                   "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": "static analysis: " + r["technique"], "level": r["level"], "level_note": p["note"]})
man = {"version": 1, "setup_cmd": "python3 setup.py",
       "checks": checks,
       "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
       "notes": "No hooks: the analyses read /repo's sources as they are. KNOWN_FINDINGS.txt lists the recorded defects."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(NOT_APPLICABLE), "not applicable")
