#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from harness/map.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = json.load(open(V + "/harness/map.json"))
ps = [json.loads(l) for l in open(V + "/properties.jsonl")]
NOTE = json.load(open(V + "/tools/notes.json"))
checks, na = [], []
for p in ps:
    i = p["id"]
    if i in m:
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 /verif/check.py " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 /verif/check.py " + i,
                       "technique": NOTE.get(i, {}).get("technique", "property-based testing with shrinking against an explicit oracle"),
                       "level": "exploration", "level_note": NOTE.get(i, {}).get("note", "random search; no proof")})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
