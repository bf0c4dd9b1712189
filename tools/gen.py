#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from props import P, NA, TECH, NOTE
root = os.path.dirname(here)
with open(root + "/properties.jsonl", "w") as f:
    for p in P:
        o = {
            "id": p["id"], "title": p["title"], "statement": p["st"],
            "quantifier": {"over": p.get("over", ["inputs"]), "text": p["q"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                "observe_at": p["obs"], "hook_needed": None,
            },
        }
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(o, ensure_ascii=False) + "\n")
na = {i for i, _ in NA}
m = {
    "version": 1,
    "setup_cmd": "bin/setup.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "bin/check.sh %s quick" % p["id"],
        "thorough_cmd": "bin/check.sh %s thorough" % p["id"],
        "technique": TECH,
        "level": "model_checking",
        "level_note": (p["note"] + " " + NOTE),
    } for p in P if p["id"] not in na],
    "not_applicable": [{"property": i, "reason": r} for i, r in NA],
    "notes": "No hooks in /repo: harnesses live in /verif/harness as a module that replaces github.com/go-ego/gse by /repo.",
}
with open(root + "/MANIFEST.json", "w") as f:
    json.dump(m, f, ensure_ascii=False, indent=1)
    f.write("\n")
import re
for p in P:
    n = len(re.findall(r"[.](?:\s|$)", p["st"]))
    assert n <= 3, (p["id"], n)
