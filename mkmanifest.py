#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the check modules present in checks/."""
import importlib, json, os, sys
sys.path.insert(0, "/verif")
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(f"/verif/checks/{pid.lower()}.py"):
        m = importlib.import_module(f"checks.{pid.lower()}")
        checks.append(dict(property=pid, quick_cmd=f"./check {pid} --tier quick",
                           thorough_cmd=f"./check {pid} --tier thorough",
                           technique=m.TECHNIQUE, level=m.LEVEL, level_note=m.LEVEL_NOTE))
    else:
        na.append(dict(property=pid, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), open("/verif/MANIFEST.json", "w"), indent=1)
