"""Write /verif/seeded/<id>/ from tools/plants.py; confirm each in a scratch copy of /repo (tests pass, demo fails)."""
import json
import os
import subprocess
import sys
import tempfile
import textwrap

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
PRE = """
import copy, logging, sys
logging.disable(logging.CRITICAL)
def check(ok, what=""):
    if not ok:
        print("FAILED", what)
        sys.exit(1)
def close(a, b):
    return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))
"""
DEMO = """#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
export OCELOT_OUTPUT="$(mktemp -d)"
/opt/venv/bin/python "$here/demo.py"
rc=$?
rm -rf "$OCELOT_OUTPUT"
exit $rc
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def main():
    from plants import PLANTS
    ids = sys.argv[1:]
    scratch = tempfile.mkdtemp(prefix="plant")
    wt = os.path.join(scratch, "repo")
    sh(["cp", "-a", "/repo", wt])
    try:
        for p in PLANTS:
            if ids and p["id"] not in ids:
                continue
            d = os.path.join(HERE, "seeded", p["id"])
            edits = p.get("edits") or [(p["file"], p["old"], p["new"])]
            sh(["git", "-C", wt, "checkout", "--", "."])
            bad = None
            for f, old, new in edits:
                path = os.path.join(wt, f)
                s = open(path).read()
                old, new = textwrap.dedent(old).strip("\n") if p.get("dedent") else old, new
                if s.count(old) != 1:
                    bad = "%d matches in %s" % (s.count(old), f)
                    break
                open(path, "w").write(s.replace(old, new))
            if bad:
                print(p["id"], "BAD EDIT", bad)
                continue
            diff = sh(["git", "-C", wt, "diff"]).stdout
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            open(os.path.join(d, "demo.sh"), "w").write(DEMO)
            open(os.path.join(d, "demo.py"), "w").write(PRE + textwrap.dedent(p["demo"]))
            json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]},
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
            r1 = sh(["bash", os.path.join(d, "demo.sh")], cwd=wt)
            t = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=wt,
                   env=dict(os.environ, PYTHONPATH=wt, PYTHONDONTWRITEBYTECODE="1"))
            t2 = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-o", "norecursedirs=venv",
                     "tests/manual"], cwd=wt, env=dict(os.environ, PYTHONPATH=wt, PYTHONDONTWRITEBYTECODE="1"))
            sh(["git", "-C", wt, "checkout", "--", "."])
            r0 = sh(["bash", os.path.join(d, "demo.sh")], cwd=wt)
            tests = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-200:]
            good = r0.returncode == 0 and r1.returncode != 0 and "FAILED" in r1.stdout
            print(p["id"], p["property"], "ok" if good else "BAD clean=%d patched=%d\n%s\n%s" % (
                r0.returncode, r1.returncode, (r0.stdout + r0.stderr)[-600:], (r1.stdout + r1.stderr)[-600:]), "|", tests, "|", t2.stdout.strip().splitlines()[-1], flush=True)
    finally:
        sh(["rm", "-rf", scratch])


main()
