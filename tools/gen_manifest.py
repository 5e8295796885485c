#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and cppvc/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/cppvc", V]
import props as P
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for i in ids:
    if i in P.PROPS:
        c = P.PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                            "evidence_file": "evidence/%s.json" % i, "technique": c.get("technique", P.TECH), "level": c.get("level", "proof"),
                            "level_note": c.get("note", P.NOTE)})
    else:
        m["not_applicable"].append({"property": i, "reason": P.NA.get(i, "not built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
