"""tools/mkseed.py <seed-id> <property> <<< python source defining edits: list[(file, old, new)], needs, breaks, demo
Creates /verif/seeded/<id>/ from the edits (applied to /repo, diffed and reverted)."""
import json
import os
import subprocess
import sys

sid, prop = sys.argv[1:3]
ns = {}
exec(sys.stdin.read(), ns)
assert not subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain"]).strip(), "repo dirty"
d = f"/verif/seeded/{sid}"
os.makedirs(d, exist_ok=True)
try:
    for f, old, new in ns["edits"]:
        p = f"/repo/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", "/repo", "diff"])
    open(f"{d}/patch.diff", "wb").write(diff)
finally:
    subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
open(f"{d}/demo.py", "w").write(ns["demo"])
open(f"{d}/demo.sh", "w").write('''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 LANG=C.UTF-8
unset PKM_HOME PYTHONPATH
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
export XDG_DATA_HOME="$W/data" TMPDIR="$W"
timeout 200 /opt/venv/bin/python "$(dirname "$0")/demo.py" "$W"
rc=$?
[ $rc -eq 0 ] || exit 1
''')
json.dump({"property": prop, "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
