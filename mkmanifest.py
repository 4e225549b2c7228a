"""Regenerates MANIFEST.json from properties.jsonl and the checks that exist."""
import importlib.util
import json
import os
import re

here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(x) for x in open(os.path.join(here, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(here, "levels.json")))
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(here, "checks", pid.lower() + ".py")) and pid in NOTES:
        n = NOTES[pid]
        checks.append({
            "property": pid,
            "quick_cmd": f"./run.sh {pid}",
            "thorough_cmd": f"./run.sh {pid} --thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": n["technique"],
            "level": "model_checking",
            "level_note": n["note"],
        })
    else:
        na.append({"property": pid, "reason": "check under construction; not claimed yet"})
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "TLA+ specifications in spec/, checked with TLC and bound to the real "
             "code by recorded and model-generated traces; see DESIGN.md. No hooks in /repo.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
