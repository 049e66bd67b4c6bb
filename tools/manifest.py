#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
CHECKS = {}
exec(open(os.path.join(here, "tools", "checks.py")).read())
m = {
    "version": 1,
    "setup_cmd": "./check.sh build",
    "checks": [],
    "not_applicable": [],
    "notes": "No hooks in /repo: everything is observed through the built `typical` and the code it generates.",
}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": c["technique"],
            "level": c.get("level", "model_checking"),
            "level_note": c["note"],
        })
    else:
        m["not_applicable"].append({"property": i, "reason": "not built yet"})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
