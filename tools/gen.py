#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props_data.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from props_data import P, NA, NOTES  # noqa: E402

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P + NA:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")
        assert len(p["title"]) <= 80, p["title"]
m = {
    "version": 1,
    "setup_cmd": "python3 -c 'import ast, json'",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "python3 check.py %s quick" % p["id"],
        "thorough_cmd": "python3 check.py %s thorough" % p["id"],
        "technique": p["technique"],
        "level": "other",
        "level_note": p["note"],
    } for p in P],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
    "notes": NOTES,
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "claimed,", len(NA), "not applicable")
