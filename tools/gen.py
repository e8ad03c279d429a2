#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS
root = os.path.dirname(here)
PROPS.sort(key=lambda p: p["id"])
with open(root + "/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}}) + "\n")
checks = [{"property": p["id"], "quick_cmd": "VERIF_TIER=quick python3-vt vf/check_%s.py" % p["id"],
           "thorough_cmd": "VERIF_TIER=thorough python3-vt vf/check_%s.py" % p["id"],
           "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in PROPS if p["claimed"]]
na = [{"property": p["id"], "reason": p["reason"]} for p in PROPS if not p["claimed"]]
json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na},
          open(root + "/MANIFEST.json", "w"), indent=1)
