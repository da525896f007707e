#!/usr/bin/env python3
"""Rewrites properties.jsonl and MANIFEST.json from the tables below (run after editing them)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from proptable import PROPS, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(f"{V}/properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["q"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
checks = [{"property": p["id"], "quick_cmd": f"node run.mjs {p['id']}", "thorough_cmd": f"node run.mjs {p['id']} --tier thorough",
    "technique": p["technique"], "level": "other", "level_note": p["note"]} for p in PROPS if p["id"] not in NA]
m = {"version": 1, "setup_cmd": "node --version", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "Static analysis only: every check re-reads /repo's TypeScript source; nothing in /repo is executed. No hooks."}
with open(f"{V}/MANIFEST.json", "w") as f: json.dump(m, f, indent=1); f.write("\n")
import jsonschema
for l in open(f"{V}/properties.jsonl"): jsonschema.validate(json.loads(l), json.load(open("/root/.vp/PROPERTIES.schema.json")))
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
ids = [p["id"] for p in PROPS]; assert len(set(ids)) == len(ids)
print(len(checks), "checks", len(NA), "n/a")
