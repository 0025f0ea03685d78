#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ specification model checked with TLC; "
REPLAY = T + "TLC-generated behaviours replayed into the real code, recordings validated against the specification"
C = {}
exec(open(os.path.join(V, "lib", "claims.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in C:
        tech, note = C[i]
        man["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "env VERIF_TIER=thorough python3 check.py " + i,
                              "technique": tech, "level": "model_checking", "level_note": note})
    else:
        man["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
