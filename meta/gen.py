#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from meta/props.py"""
import os, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from meta.props import PROPS, NOTES
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                         "hook_needed": None}}
        if p.get("observe"):
            d["anchors"]["observe_at"] = p["observe"]
        assert len(d["title"]) <= 80, d["title"]
        for x in p["files"]:
            assert os.path.exists("/repo/" + x), x
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "python3 -c \"from sa import extract; extract.build_tool()\"", "checks": [],
     "not_applicable": [], "notes": NOTES}
for p in PROPS:
    if p.get("na"):
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        continue
    m["checks"].append({"property": p["id"], "quick_cmd": "python3 sa/run.py %s" % p["id"],
                        "thorough_cmd": "python3 sa/run.py %s --tier thorough" % p["id"],
                        "technique": p["technique"], "level": "other", "level_note": p["note"]})
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
