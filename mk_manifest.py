#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the list below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
T = json.load(open(here + "/techniques.json"))
m = {"version": 1, "setup_cmd": "bash /verif/run.sh setup",
     "checks": [], "not_applicable": []}
for i in ids:
    if i in T and "technique" in T[i]:
        m["checks"].append({"property": i, "quick_cmd": f"bash /verif/run.sh check {i} quick",
            "thorough_cmd": f"bash /verif/run.sh check {i} thorough",
            "technique": T[i]["technique"], "level": "exploration", "level_note": T[i]["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": T.get(i, {}).get("reason", "check under construction")})
m["notes"] = "No hooks: every monitor observes public behaviour. See DESIGN.md."
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
