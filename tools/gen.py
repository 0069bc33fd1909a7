#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
sys.path.insert(0, H)
from props import PROPS, NOT_APPLICABLE, NOTES
import glob
ALL, PROPS = PROPS, [p for p in PROPS if glob.glob(os.path.join(V, "checks", p["id"].lower() + "_*.py"))]
for p in ALL:
    if p not in PROPS: print("no check yet:", p["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p.get("observe", ["public call boundary (arguments and returned values)"]),
                        "hook_needed": None}}) + "\n")
checks = []
for p in PROPS:
    checks.append({"property": p["id"], "quick_cmd": f"bash check.sh {p['id']}",
                   "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {p['id']}",
                   "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
           "not_applicable": NOT_APPLICABLE, "notes": NOTES},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
