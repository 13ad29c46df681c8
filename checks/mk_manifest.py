#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py (run by hand after adding a check)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 checks/build.py",
    "checks": [
        {"property": p, "quick_cmd": f"python3 checks/run.py {p}", "thorough_cmd": f"python3 checks/run.py {p} --thorough",
         "technique": CHECKS[p]["technique"], "level": CHECKS[p]["level"], "level_note": CHECKS[p]["note"]}
        for p in props if p in CHECKS],
    "not_applicable": [{"property": p, "reason": "the check is not built yet"} for p in props if p not in CHECKS],
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
