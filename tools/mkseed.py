"""mkseed.py FILE: FILE defines SEEDS = [dict(id, property, needs, breaks, edits=[(path, old, new)], demo=python source)];
writes seeded/<id>/ (patch.diff against /repo's HEAD, demo.sh, demo.py, meta.json)."""
import json
import os
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = """#!/bin/bash
# run in /repo after the build; exit 0 when the behaviour is right
D=$(dirname "$(realpath "$0")")
export HOME=/root CIRCLECI=1 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1
export PYTHONPATH=/repo:/opt/minorminer-venv/lib/python3.12/site-packages
exec timeout 280 /usr/bin/python3 "$D/demo.py"
"""
PRE = """import os, sys, tempfile
_tmp = tempfile.TemporaryDirectory()
os.environ["XDG_DATA_HOME"] = _tmp.name


def check(ok, *msg):
    if not ok:
        print("WRONG:", *msg)
        sys.exit(1)


"""


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for s in ns["SEEDS"]:
        if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]:
            continue
        with tempfile.TemporaryDirectory() as d:
            subprocess.check_call(["git", "clone", "-q", "/repo", d + "/r"])
            for path, old, new in s["edits"]:
                p = os.path.join(d, "r", path)
                t = open(p).read()
                assert t.count(old) == 1, (s["id"], path, t.count(old), old)
                open(p, "w").write(t.replace(old, new))
            diff = subprocess.check_output(["git", "-C", d + "/r", "diff"], text=True)
        out = os.path.join(V, "seeded", s["id"])
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.sh", "w").write(SH)
        os.chmod(out + "/demo.sh", 0o755)
        open(out + "/demo.py", "w").write(PRE + s["demo"].strip() + "\nprint('fine')\n")
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(out + "/meta.json", "w"), indent=1)
        print(s["id"])


main()
