#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, HERE)
from checks import CHECKS

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
doc = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    c = CHECKS.get(p["id"])
    if c is None:
        doc["not_applicable"].append({"property": p["id"], "reason": "its check is not built yet"})
        continue
    doc["checks"].append({
        "property": p["id"], "quick_cmd": "./run.py " + p["id"], "thorough_cmd": "./run.py " + p["id"],
        "technique": c["technique"], "level": c.get("level", "exploration"), "level_note": c["note"],
    })
json.dump(doc, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
