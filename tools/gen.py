#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from data.py and props.py"""
import json, os, sys

sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from data import CHECKS, NOT_APPLICABLE
from props import PROPS

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        if p["id"] not in CHECKS and p["id"] not in NOT_APPLICABLE:
            continue
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({k: v for k, v in p.items() if k not in ("technique", "note")}) + "\n")

checks = []
for p in PROPS:
    c = CHECKS.get(p["id"])
    if not c:
        continue
    checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"],
                       thorough_cmd="python3 check.py %s thorough" % p["id"], technique=p["technique"],
                       level=c["level"], level_note=p["note"]))
man = dict(version=1, setup_cmd="python3 check.py --setup", hooks=dict(guard="verif", enable="go build -tags verif", source_commits=[]),
           checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()])
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", "missing:", [k for k in CHECKS if k not in {p["id"] for p in PROPS}])
