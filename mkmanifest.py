#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and the table below.
import json, sys, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
claims = json.load(open(os.path.join(here, "claims.json")))
checks, na = [], []
for p in props:
    c = claims.get(p["id"])
    if c is None:
        na.append({"property": p["id"], "reason": "the check for this property is not built yet"})
        continue
    checks.append({"property": p["id"], "quick_cmd": "./run.sh " + p["id"], "thorough_cmd": "env VERIF_TIER=thorough ./run.sh " + p["id"],
                   "technique": c["technique"], "level": c.get("level", "exploration"), "level_note": c["note"]})
m = {"version": 1, "setup_cmd": "./run.sh setup", "checks": checks, "not_applicable": na,
     "notes": "Every check builds the commands and its drivers from /repo's working tree into a scratch directory; see DESIGN.md."}
if claims.get("_hooks"):
    m["hooks"] = claims["_hooks"]
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
