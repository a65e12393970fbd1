#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from tools/table.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from table import CHECKS
ROOT = os.path.dirname(HERE)
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = {}
if os.path.exists(os.path.join(HERE, "na.json")):
    NA = json.load(open(os.path.join(HERE, "na.json")))
m = {
    "version": 1,
    "setup_cmd": "python3 /verif/check.py --build",
    "hooks": {
        "guard": "none",
        "enable": "No hooks in /repo: the harness interposes libc symbols and protects mapped pages from outside; "
                  "checks build /repo as it is (path dependency), with its own cargo features where a check needs them.",
        "source_commits": [],
    },
    "checks": [
        {"property": c, "quick_cmd": f"python3 /verif/check.py {c}",
         "thorough_cmd": f"python3 /verif/check.py {c} --thorough", "technique": CHECKS[c]["technique"],
         "level": CHECKS[c]["level"], "level_note": CHECKS[c]["note"], "evidence_file": f"evidence/{c}.json"}
        for c in props if c in CHECKS],
    "not_applicable": [{"property": p, "reason": NA.get(p, "its check is still being built")} for p in props if p not in CHECKS],
    "notes": "Runtime monitoring of the real crate; see DESIGN.md. Exit 2 = inconclusive, 3 = machinery failure.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
