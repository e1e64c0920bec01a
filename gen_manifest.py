#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the unit table of vx.py"""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
import sys; sys.path.insert(0, V)
import vx
checks = []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)["id"]
    c = {"property": p, "quick_cmd": f"python3 check.py {p} --tier quick", "thorough_cmd": f"python3 check.py {p} --tier thorough",
         "technique": vx.technique(p), "level": vx.level(p), "level_note": vx.note(p)}
    if vx.level(p) == "proof":
        c["theorems"] = vx.theorems(p)
    checks.append(c)
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [],
           "notes": "No hooks: /repo carries only fix: commits. See DESIGN.md."}, open(V + "/MANIFEST.json", "w"), indent=1)
