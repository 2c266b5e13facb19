#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props_src.py"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
import props_src

props = sorted(props_src.P, key=lambda p: p["id"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [
                {"name": n, "where": w} for n, w in p["mechanism"]]},
        }) + "\n")
checks, na = [], []
for p in props:
    path = os.path.join(HERE, "checks", p["id"].lower() + ".py")
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
    elif not os.path.exists(path):
        na.append({"property": p["id"], "reason": "check not built yet"})
    else:
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3-vt run.py %s --tier quick" % p["id"],
            "thorough_cmd": "python3-vt run.py %s --tier thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["technique"] or
            "property-based testing (Hypothesis) against an oracle",
            "level": "exploration",
            "level_note": p["note"] or
            "Generated-input search; shows no absence of violations.",
        })
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "python3-vt selftest.py",
        "checks": checks,
        "not_applicable": na,
        "notes": "Pure Python: checks import pyslet from /repo's working "
                 "tree (compiled afresh from source in each run); no hooks "
                 "are needed.",
    }, f, indent=1)
print(len(props), "properties", len(checks), "checks")
