"""Apply each planted change to a scratch copy of /repo in turn and run the check of its property on it."""
import json
import os
import subprocess
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RES = os.path.join(HERE, "tools", "seeded_results.json")


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def main():
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, "seeded")))
    rows = json.load(open(RES)) if os.path.exists(RES) else {}
    assert not sh(["git", "-C", "/repo", "status", "--porcelain", "-uno"]).stdout
    scratch = tempfile.mkdtemp(prefix="seeded")
    try:
        repo = os.path.join(scratch, "repo")
        sh(["cp", "-a", "/repo", repo])
        run(ids, rows, repo)
    finally:
        shutil.rmtree(scratch)


def run(ids, rows, repo):
    for sid in ids:
        d = os.path.join(HERE, "seeded", sid)
        meta = json.load(open(os.path.join(d, "meta.json")))
        try:
            r = sh(["git", "-C", repo, "apply", os.path.join(d, "patch.diff")])
            if r.returncode:
                print(sid, "DOES NOT APPLY", r.stderr)
                continue
            demo = sh(["bash", os.path.join(d, "demo.sh")], cwd=repo).returncode
            r = sh([sys.executable, "check.py", meta["property"]], cwd=HERE, env=dict(os.environ, OCELOT_REPO=repo))
        finally:
            sh(["git", "-C", repo, "checkout", "--", "."])
        clean = sh(["bash", os.path.join(d, "demo.sh")], cwd=repo).returncode
        lines = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
        ok = r.returncode == 1 and any("property=%s " % meta["property"] in x for x in lines)
        rows[sid] = meta["property"] if ok else "missed (exit %d)" % r.returncode
        print(sid, meta["property"], "caught" if ok else "MISSED exit %d %s" % (r.returncode, r.stdout[-300:]),
              "demo clean=%d patched=%d" % (clean, demo), "" if not clean and demo else "BAD DEMO", flush=True)
        json.dump(rows, open(RES, "w"), indent=1, sort_keys=True)


main()
