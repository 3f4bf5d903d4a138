#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 run.py setup", "hooks": {"guard": "NEONAVIGATION_VF_HOOKS", "enable": "Checks that observe grid map accesses compile with -DNEONAVIGATION_VF_HOOKS.", "source_commits": ["8c9efee"]},
     "checks": [], "not_applicable": [],
     "notes": "Checks compile the working tree of /repo themselves; see DESIGN.md. python3 run.py replay <file> repeats a reported case."}
for p in props:
    if p not in CHECKS:
        m["not_applicable"].append({"property": p, "reason": "No check built yet."})
        continue
    c = CHECKS[p]
    m["checks"].append({"property": p, "quick_cmd": "python3 run.py %s quick" % p, "thorough_cmd": "python3 run.py %s thorough" % p,
                        "technique": c["technique"], "level": c.get("level", "exploration"), "level_note": c["level_note"]})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not claimed")
