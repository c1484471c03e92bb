#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/data.py."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + "/tools")
from data import PROPERTIES, NOT_APPLICABLE, NOTES
with open(R + "/properties.jsonl", "w") as f:
    for p in PROPERTIES:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p.get("over", ["inputs"]), "text": p["quant"]},
             "why_tests_cant": p["tests"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": None}}
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [{"property": a, "reason": b} for a, b in NOT_APPLICABLE], "notes": NOTES}
for p in PROPERTIES:
    if p.get("na"):
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        continue
    m["checks"].append({"property": p["id"], "quick_cmd": f"./check {p['id']} quick", "thorough_cmd": f"./check {p['id']} thorough",
                        "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
open(R + "/MANIFEST.json", "a").write("\n")
