#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py (one source, so the two stay in step)"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NOTES, NOT_APPLICABLE  # noqa: E402

with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
    for p in PROPS:
        row = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(row["title"]) <= 80, row["title"]
        fh.write(json.dumps(row) + "\n")

checks, na = [], list(NOT_APPLICABLE)
for p in PROPS:
    i = p["id"]
    if os.path.isfile(os.path.join(ROOT, "harness", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": p["technique"], "level": p.get("level", "model_checking"),
                       "level_note": p["level_note"]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
man = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na, "notes": NOTES}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
    json.dump(man, fh, indent=1)
    fh.write("\n")
