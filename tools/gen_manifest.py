#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the claimed checks below."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
claimed = json.load(open(os.path.join(here, "claimed.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in claimed:
        c = claimed[i]
        checks.append({"property": i, "quick_cmd": f"/verif/run.sh {i} quick", "thorough_cmd": f"/verif/run.sh {i} thorough",
                       "technique": c["technique"], "level": c.get("level", "exploration"), "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": "the check for this property is not built yet (work in progress)"})
m = {"version": 1, "setup_cmd": "/verif/build.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed")
