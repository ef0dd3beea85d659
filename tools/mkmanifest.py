#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and plan.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from plan import PLAN
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        checks.append({
            "property": i,
            "quick_cmd": "python3 tools/check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + i,
            "technique": PLAN[i].get("technique", "TLA+ specification checked with TLC; TLC-generated cases and "
                                     "seeded sessions run on the code, their traces validated by TLC"),
            "level": "model_checking",
            "level_note": PLAN[i].get("note", "Exhaustive on the bounded instance of the specification; the code is "
                                      "held to the specification on every generated case and session, not on all inputs.")})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "bash build.sh", "checks": checks, "not_applicable": na,
     "notes": "TLA+/TLC. See DESIGN.md. Genuine defects found are fixed in /repo ('fix:' commits) or listed in known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
