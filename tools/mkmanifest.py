#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the properties the harness has."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(os.path.join(here, "tools", "checks.json")))
checks, missing = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i not in notes:
        missing.append({"property": i, "reason": "check under construction"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i} quick",
        "thorough_cmd": f"./check.sh {i} thorough",
        "technique": notes[i]["technique"],
        "level": "exploration",
        "level_note": notes[i]["note"],
    })
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": missing}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
