#!/usr/bin/env python3
"""Development helper.  usage: mkbug.py SPEC.py
SPEC defines ID, PROPERTY, EDITS=[(file, old, new)], DEMO (python source),
NEEDS, BREAKS.  Builds a scratch copy, makes patch.diff, confirms the demo
passes on /repo and fails on the copy, then writes /verif/seeded/ID, and runs
the property's quick check against the copy."""
import json, os, shutil, subprocess, sys, tempfile
V = "/verif"
SH = ('#!/bin/sh\nexport PYTHONDONTWRITEBYTECODE=1\n'
      'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')


def main(spec_path, check=True):
    for chunk in open(spec_path).read().split("\n#####\n"):
        if chunk.strip():
            one(chunk, check)


def one(src, check):
    s = {}
    exec(src, s)
    tmp = tempfile.mkdtemp(prefix="bug-")
    try:
        subprocess.check_call("git -C /repo archive HEAD | tar x -C %s" % tmp,
                              shell=True)
        subprocess.check_call(["git", "-C", tmp, "init", "-q"])
        subprocess.check_call(["git", "-C", tmp, "add", "-A"])
        subprocess.check_call(["git", "-C", tmp, "-c", "user.name=x", "-c",
                               "user.email=x@x", "commit", "-qm", "x"])
        for fn, old, new in s["EDITS"]:
            p = os.path.join(tmp, fn)
            t = open(p).read()
            if t.count(old) != 1:
                print(s["ID"], "EDIT NOT UNIQUE", t.count(old), repr(old))
                return
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.check_output(["git", "-C", tmp, "diff", "-U12"], text=True)
        d = os.path.join(V, "seeded", s["ID"])
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(
            "import os\nimport sys\nsys.path.insert(0, os.getcwd())\n" +
            s["DEMO"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(SH)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"],
                   "what_it_breaks": s["BREAKS"]},
                  open(d + "/meta.json", "w"), indent=1)
        a = subprocess.run([d + "/demo.sh"], cwd="/repo", capture_output=True,
                           text=True)
        b = subprocess.run([d + "/demo.sh"], cwd=tmp, capture_output=True,
                           text=True)
        print(s["ID"], "demo clean", a.returncode, "bug", b.returncode,
              (a.stderr.strip().splitlines() or [""])[-1][:200], "||",
              (b.stderr.strip().splitlines() or [""])[-1][:200])
        # tests which import the changed modules
        if s.get("TESTS"):
            def failing(root):
                r = subprocess.run(
                    ["/opt/venv/bin/python", "-m", "pytest", "-q"] +
                    ["-p", "no:cacheprovider"] +
                    ["unittests/" + t for t in s["TESTS"]], cwd=root,
                    env=dict(os.environ, TZ="UTC", LANG="C.UTF-8",
                             PYTHONPATH=root, PYTHONHASHSEED="0",
                             PYTHONDONTWRITEBYTECODE="1"),
                    capture_output=True, text=True)
                return (r.stdout.strip().splitlines()[-1],
                        set(x.split(" - ")[0] for x in r.stdout.splitlines()
                            if x.startswith("FAILED")))
            x, y = failing("/repo"), failing(tmp)
            print("   tests:", y[0], "NEWLY FAILING %s" % sorted(y[1] - x[1])
                  if y[1] - x[1] else "ok")
        if check:
            r = subprocess.run(["python3-vt", V + "/run.py", s["PROPERTY"],
                                "--seed", "1", "--repo", tmp],
                               capture_output=True, text=True)
            print("   check exit", r.returncode,
                  "|".join(r.stdout.strip().splitlines()[:4])[:400],
                  r.stderr[-300:])
    finally:
        shutil.rmtree(tmp)


main(sys.argv[1], "--nocheck" not in sys.argv)
