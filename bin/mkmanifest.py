#!/usr/bin/env python3
"""Writes MANIFEST.json: one entry per check registered in checks.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
from notes import NOTES
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bin/setup.sh", "checks": [], "not_applicable": []}
for p in props:
    if p in checks.CHECKS:
        m["checks"].append({"property": p, "quick_cmd": "python3 bin/check.py %s" % p, "thorough_cmd": "python3 bin/check.py %s --tier thorough" % p,
                            "evidence_file": "evidence/%s.json" % p,
                            "technique": "TLA+ specification: TLC model checking, scenarios generated by TLC, TLC trace validation of the real code",
                            "level": "model_checking", "level_note": NOTES.get(p, NOTES["default"])})
    else:
        m["not_applicable"].append({"property": p, "reason": "check not built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
