#!/usr/bin/env python3-vt
"""setup_cmd: nothing to build; checks that the tools the checks rely on are
present and that the properties file and manifest are well formed."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
import hypothesis      # noqa

ids = set()
with open(os.path.join(HERE, "properties.jsonl")) as f:
    for line in f:
        ids.add(json.loads(line)["id"])
with open(os.path.join(HERE, "MANIFEST.json")) as f:
    m = json.load(f)
claimed = set(c["property"] for c in m["checks"])
na = set(n["property"] for n in m["not_applicable"])
assert claimed | na == ids and not (claimed & na)
for c in claimed:
    assert os.path.exists(os.path.join(HERE, "checks", c.lower() + ".py"))
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
print("setup ok: hypothesis %s, %d checks" % (
    hypothesis.__version__, len(claimed)))
