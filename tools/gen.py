#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(HERE, "tools"))
from props import PROPS
from sa.checks import CHECKS

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))
        if p.get("state"): d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]]
        if p.get("observe"): d["anchors"]["observe_at"] = p["observe"]
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for p in PROPS:
    if p.get("na"):
        na.append(dict(property=p["id"], reason=p["na"])); continue
    assert p["id"] in CHECKS, p["id"]
    cmd = "python3 -m sa.run " + p["id"]
    checks.append(dict(property=p["id"], quick_cmd=cmd, thorough_cmd=cmd + " --tier thorough", technique=p["tech"],
                       level=CHECKS[p["id"]].get("level", "other"), level_note=p["note"]))
for i in CHECKS: assert any(p["id"] == i for p in PROPS), i
json.dump(dict(version=1, setup_cmd="python3 -m sa.setup", checks=checks, not_applicable=na), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
