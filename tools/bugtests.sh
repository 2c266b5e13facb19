#!/bin/bash
# development helper: runs the repository's stable tests on a scratch copy with
# each planted bug named (all of them by default), and says which pass
cd /verif/seeded
for id in ${@:-*}; do
  d=/tmp/bt-$id; rm -rf "$d"; cp -a /repo "$d"
  if ! git -C "$d" apply "/verif/seeded/$id/patch.diff"; then echo "$id DOES NOT APPLY"; rm -rf "$d"; continue; fi
  sed "s#cd /repo#cd $d#" /opt/vp/test.sh > "$d/.t.sh"
  bash "$d/.t.sh" "$d/.out.json" > /dev/null 2>&1
  python3 - "$id" "$d/.out.json" "$d" <<'PY'
import json, subprocess, sys
id, out, d = sys.argv[1:]
p = set(json.load(open(out)).get("passed", []))
bad = sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - p)
# removed lines must be the original repository's
diff = subprocess.run(["git", "-C", d, "diff", "-U0"], capture_output=True, text=True).stdout
fn = None
own = []
for l in diff.splitlines():
    if l.startswith("--- a/"): fn = l[6:]
    elif l.startswith("-") and not l.startswith("---"):
        base = subprocess.run(["git", "-C", d, "show", "3ec6732:" + fn], capture_output=True, text=True).stdout.splitlines()
        if l[1:] not in base: own.append(l)
print(id, "FAILS %s" % bad[:4] if bad else "tests ok", "OWN LINES %s" % own if own else "")
PY
  rm -rf "$d"
done
