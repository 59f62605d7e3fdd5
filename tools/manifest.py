#!/usr/bin/env python3
"""Generates /verif/MANIFEST.json from properties.jsonl and the table of claimed checks."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
claims = json.load(open(os.path.join(here, "claims.json")))
na = json.load(open(os.path.join(here, "na.json")))
m = {"version": 1, "setup_cmd": "./run.sh build", "checks": [], "not_applicable": [],
     "notes": "All checks are static analyses of /repo's current source by /verif/checker (go/types + go/ssa); no hooks in /repo are needed."}
for p in props:
    i = p["id"]
    if i in claims:
        c = claims[i]
        m["checks"].append({"property": i, "quick_cmd": f"./run.sh {i}", "thorough_cmd": f"./run.sh {i} thorough",
                            "technique": c["technique"], "level": "other", "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": na.get(i, "no check built yet")})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not claimed")
