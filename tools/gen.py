#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the records in tools/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS, NA
root = os.path.join(os.path.dirname(__file__), "..")
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        rec = {"id": p["id"], "title": p["title"], "statement": p["statement"],
               "quantifier": {"over": p["over"], "text": p["quant"]},
               "why_tests_cant": p["why"],
               "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
        f.write(json.dumps(rec) + "\n")
checks = []
for p in PROPS:
    if p["id"] in NA:
        continue
    checks.append({"property": p["id"], "quick_cmd": "./check.sh " + p["id"], "thorough_cmd": "./check.sh " + p["id"],
                   "technique": p["technique"], "level": "other", "level_note": p["note"]})
man = {"version": 1, "setup_cmd": "cd checker && GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local go build -o ../bin/ichk .",
       "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
       "notes": "All checks are one static analyser (checker/), run per property on /repo's current source; nothing of /repo is executed. No hooks in /repo."}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties,", len(checks), "checks")
import design
if os.path.isdir(os.path.join(root, "seeded")):
    design.write()
