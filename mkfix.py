#!/usr/bin/env python3
"""development helper: adds 'fixed' lines to known_findings.json for the fix
commits in /repo which it does not list yet.  usage: mkfix.py PID [hash...]"""
import json, os, subprocess, sys
path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "known_findings.json")
kf = json.load(open(path)) if os.path.exists(path) else {"findings": [], "fixed": []}
have = " ".join(kf["fixed"])
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
for line in log:
    h, s = line.split(" ", 1)
    if s.startswith("fix:") and h not in have and (len(sys.argv) < 3 or h in sys.argv[2:]):
        kf["fixed"].append("fixed: property=%s %s %s" % (sys.argv[1], h, s[5:]))
json.dump(kf, open(path, "w"), indent=1)
