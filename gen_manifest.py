#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run by hand after adding a check)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
T = "exhaustive bounded exploration of the real code against an executable model"
NOTES = {}
exec(open(os.path.join(here, "manifest_notes.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOTES:
        tech, note = NOTES[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick",
                       "thorough_cmd": f"./check.sh {i} thorough", "technique": tech,
                       "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks drive the public API of the unmodified crates."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
