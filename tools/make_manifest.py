#!/usr/bin/env python3
"""writes MANIFEST.json from harness/targets.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
from targets import RUNS, LEVEL_NOTES
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in RUNS:
        n = LEVEL_NOTES.get(i, {})
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": n.get("technique", "property-based testing: random generation with shrinking against a reference model"),
                       "level": "exploration",
                       "level_note": n.get("note", "seeded random search; holds on the cases generated, not proved beyond them")})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 harness/build.py p_expr", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
