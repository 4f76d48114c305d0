#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and notes.py."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS
from notes import NOTES, NOT_APPLICABLE
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
with open(root + "/properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
checks = []
for p in PROPS:
    if p["id"] in NOTES:
        technique, note = NOTES[p["id"]]
        checks.append(dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough",
            technique=technique, level="model_checking", level_note=note))
na = [dict(property=p["id"], reason=NOT_APPLICABLE.get(p["id"], "check under construction; not claimed yet")) for p in PROPS if p["id"] not in NOTES]
m = dict(version=1, setup_cmd="./check.sh build",
    hooks=dict(guard="none", enable="no hooks: every property is observed through ftml's public API", source_commits=[]),
    checks=checks, not_applicable=na,
    notes="All checks run on the real implementation, rebuilt from /repo by check.sh; see DESIGN.md.")
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
