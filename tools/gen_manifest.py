#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. Run in /verif."""
import json, os, subprocess
CHECKS = {}
exec(open(os.path.join(os.path.dirname(__file__), "checks.py")).read())
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
m = {"version": 1, "setup_cmd": "./check.sh setup", "hooks": HOOKS, "checks": [], "not_applicable": [], "notes": NOTES}
for i in ids:
    if i in CHECKS:
        t, n = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": t, "level": "model_checking", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
