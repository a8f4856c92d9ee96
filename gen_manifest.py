#!/usr/bin/env python3
import json, os
from units import PROPS, LEVEL
H = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NA = {}
if os.path.exists(os.path.join(H, "not_applicable.json")):
    NA = json.load(open(os.path.join(H, "not_applicable.json")))
m = {"version": 1, "setup_cmd": "python3 check.py --build",
     "checks": [], "not_applicable": [],
     "notes": "See DESIGN.md. Checks build their harnesses from /repo's working tree into /verif/build (git-ignored)."}
for p in props:
    i = p["id"]
    if i in PROPS:
        q = PROPS[i]
        m["checks"].append({
            "property": i, "quick_cmd": f"VERIF_TIER=quick python3 check.py {i}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
            "evidence_file": f"evidence/{i}.json", "technique": q["technique"],
            "level": q.get("level", LEVEL), "level_note": q["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check under construction")})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
