"""Decide one property by symbolic execution of the code in /repo.

    check.py C01 [--tier quick|thorough] [--replay FILE] [--case N] [-v]

Exit 0: every assertion was discharged on every explored path.
Exit 1: a counterexample was found and reproduced on the unpatched code.
Exit 2: the check could not answer.
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

ENV = dict(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore",
           OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")

if any(os.environ.get(k) != v for k, v in ENV.items()) or os.path.realpath(sys.executable) != os.path.realpath(PY) \
        or sys.prefix != "/opt/venv":
    os.environ.update(ENV)
    os.execv(PY, [PY] + sys.argv)

sys.path.insert(0, HERE)
REPO = os.environ.get("OCELOT_REPO", "/repo")  # development only: the registered commands check /repo
sys.path.insert(0, REPO)


class Replayer:
    def __init__(self, prop, scratch):
        self.prop, self.scratch, self.p = prop, scratch, None

    def ask(self, case, inputs, strict=None):
        if self.p is None:
            env = dict(os.environ, PYTHONPATH=HERE + ":" + REPO, OCELOT_OUTPUT=self.scratch)
            self.p = subprocess.Popen([PY, "-m", "symx.replay", self.prop], cwd=HERE, env=env,
                                      stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        try:
            self.p.stdin.write(json.dumps(dict(case=case, inputs=inputs, strict=strict)) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except BrokenPipeError:
            line = ""
        if not line:
            self.close()
            return dict(status="dead", failures=[], observed=[], checked=0)
        return json.loads(line)

    def close(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None


MODULE = None


def _task(args):
    ci, case, prefixes, seed, budget, timeout_ms, samples, profile = args
    from symx.explore import explore
    h = MODULE.HARNESSES[case["h"]]
    sys.stdout = open(os.devnull, "w")
    try:
        return ci, bool(case.get("eager")), explore(h, case, prefixes, seed, budget, timeout_ms, samples, profile)
    finally:
        sys.stdout = sys.__stdout__


def same_observation(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same_observation(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same_observation(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= 1e-5 * (1 + abs(a) + abs(b))
    return a == b


def main():
    global MODULE
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--selftest", action="store_true", help="are the interpreter, z3 and ocelot there?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--case", type=int)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("-v", action="store_true")
    opts = ap.parse_args()
    if opts.selftest:
        sys.path.append(VT)
        import z3
        import ocelot
        x = z3.Real("x")
        s = z3.Solver()
        s.add(x * x == 2)
        assert s.check() == z3.sat
        print("z3 %s, ocelot from %s" % (z3.get_version_string(), ocelot.__file__))
        return 0
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    prop = opts.prop
    scratch = tempfile.mkdtemp(prefix="ocelot-verif-")
    os.environ["OCELOT_OUTPUT"] = scratch
    rp = Replayer(prop, scratch)
    try:
        if opts.replay:
            with open(opts.replay) as f:
                r = json.load(f)
            res = rp.ask(r["case"], r["inputs"], r["label"] if r.get("strict") else None)
            print(json.dumps(res, indent=1))
            return 1 if res["status"] in ("fail", "exception") else 0
        return run(prop, opts, seed, t0, scratch, rp)
    finally:
        rp.close()
        shutil.rmtree(scratch, ignore_errors=True)


def load_known(prop):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["known"] if k["property"] == prop]


def run(prop, opts, seed, t0, scratch, rp):
    global MODULE
    sys.path.append(VT)
    from symx import patches
    patches.install_math()
    import numpy  # noqa
    patches.install_numpy()
    MODULE = importlib.import_module("harness.%s" % prop.lower())
    patches.install_ocelot_builtins()
    patches.silence_logging()
    if hasattr(MODULE, "symbolic_setup"):
        MODULE.symbolic_setup()
    import ocelot
    assert os.path.realpath(ocelot.__file__).startswith(REPO + "/"), ocelot.__file__

    tier = opts.tier
    cases = MODULE.cases(tier)
    for i, c in enumerate(cases):
        c["i"] = i
    if opts.case is not None:
        cases = [cases[opts.case]]
    timeout_ms = getattr(MODULE, "TIMEOUT_MS", 10000)
    deadline = t0 + (780 if tier == "quick" else getattr(MODULE, "THOROUGH_S", 3600))
    known = load_known(prop)

    total, labels, functions, samples, notes = {}, {}, set(), [], []
    candidates = []
    cut = False
    per_case = {}
    violation = None
    replays = 0
    spurious = []
    seen_findings = {}
    known_hit = {}
    ctx = mp.get_context("fork")
    queue = [(ci, [[]], True) for ci in range(len(cases))]
    inflight = []
    pool = ctx.Pool(opts.jobs)
    n_sample_cases = max(1, 60 // max(1, len(cases)))
    try:
        while queue or inflight:
            while queue and len(inflight) < opts.jobs * 2:
                ci, prefixes, first = queue.pop(0)
                inflight.append(pool.apply_async(_task, ((ci, cases[ci], prefixes, seed, 1.0 if first else 4.0,
                                                          timeout_ms, n_sample_cases if first else 0, first),)))
            done = [r for r in inflight if r.ready()]
            if not done:
                time.sleep(0.005)
                if time.time() > deadline:
                    cut = True
                    break
                continue
            for r in done:
                inflight.remove(r)
                ci, was_eager, res = r.get()
                if was_eager != bool(cases[ci].get("eager")):
                    continue
                if res["eager"]:
                    cases[ci] = dict(cases[ci], eager=True)
                    queue = [q for q in queue if q[0] != ci] + [(ci, [[]], True)]
                    continue
                for k, v in res["stats"].items():
                    total[k] = total.get(k, 0) + v
                pc = per_case.setdefault(ci, 0)
                per_case[ci] = pc + res["stats"]["paths"]
                for k, v in res["labels"].items():
                    labels[k] = labels.get(k, 0) + v
                functions.update(res["functions"])
                samples.extend((ci, s) for s in res["samples"])
                notes.extend(res["notes"])
                for f in res["findings"]:
                    key = (f["kind"], f["label"])
                    n = seen_findings.get(key, 0)
                    if n >= 25 or violation:
                        continue
                    seen_findings[key] = n + 1
                    v = judge(rp, cases[ci], f)
                    replays += 1
                    if v is None:
                        spurious.append((cases[ci], f))
                        continue
                    k = match_known(known, v)
                    if k is not None:
                        known_hit[k["id"]] = k
                        seen_findings[key] = n
                        continue
                    violation = (cases[ci], f, v)
                left = res["left"]
                if left:
                    n = max(1, min(len(left), opts.jobs * 2))
                    for j in range(n):
                        chunk = left[j::n]
                        if chunk:
                            queue.append((ci, chunk, False))
            if violation:
                break
            if time.time() > deadline:
                cut = True
                break
    finally:
        pool.terminate()
        pool.join()

    # validate the symbolic semantics: replay sampled path models
    mismatches = []
    validated = 0
    if not violation:
        for ci, s in samples:
            if validated >= 60:
                break
            res = rp.ask(cases[ci], s["inputs"])
            if res["status"] in ("fail", "exception"):
                f = dict(kind="sample", label=(res["failures"] or [["exception"]])[0][0], inputs=s["inputs"],
                         info=res.get("info", ""))
                k = match_known(known, res)
                if k is None:
                    violation = (cases[ci], f, res)
                    break
                known_hit[k["id"]] = k
                continue
            if res["status"] == "ok":
                if not s["uf"] and not same_observation(s["observed"], res["observed"]):
                    mismatches.append((cases[ci], s, res["observed"]))
                else:
                    validated += 1

    expected = set(getattr(MODULE, "LABELS", []))
    missing = sorted(expected - set(labels)) if opts.case is None else []
    decided = total.get("paths", 0) - total.get("inconclusive", 0)
    wall = time.time() - t0
    info = getattr(MODULE, "INFO", {})
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=total.get("paths", 0),
            transitions=total.get("decisions", 0),
            traces_validated_against_impl=validated,
            samples=[dict(case=cases[ci], inputs=s["inputs"], assertions=s["labels"]) for ci, s in samples[:4]],
            exhaustive=bool(not cut and not violation and not total.get("inconclusive") and not total.get("concretised")),
            cases=len(cases),
            solver_queries=total.get("queries", 0),
            solver_seconds=round(total.get("solver_s", 0.0), 3),
            assertions_discharged=total.get("discharged", 0),
            assertions_decided_without_solver=total.get("trivial", 0),
            assertions_by_label=labels,
            paths_inconclusive=total.get("inconclusive", 0),
            paths_cut_by_assumption=total.get("aborted", 0),
            solver_unknown=total.get("unknown", 0),
            values_concretised=total.get("concretised", 0),
            counterexamples_replayed=replays,
            counterexamples_not_reproduced=len(spurious),
            functions_encoded=sorted(functions),
            bounds=info.get("bounds", ""),
            outside_the_claim=info.get("outside", ""),
            meaning="states = feasible execution paths of the real code, transitions = symbolic branch decisions",
        ),
        assumptions=list(info.get("assumptions", [])) + [
            "amounts are exact reals (floats are compared with relative tolerance 1e-6 on replay)"],
        wall_s=round(wall, 2), violations=1 if violation else 0)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)

    print("%s %s: %d paths, %d decisions, %d queries (%.1f s solver), %d assertions discharged, "
          "%d inconclusive, %d concretised, %d unknown, %d traces validated, %.1f s%s" % (
              prop, tier, total.get("paths", 0), total.get("decisions", 0), total.get("queries", 0),
              total.get("solver_s", 0), total.get("discharged", 0), total.get("inconclusive", 0),
              total.get("concretised", 0), total.get("unknown", 0), validated, wall,
              (" TRUNCATED" if cut else "") + (", %d NOT REPRODUCED" % len(spurious) if spurious else "")))
    if opts.v:
        for ci in sorted(per_case, key=per_case.get, reverse=True)[:40]:
            print("   paths", per_case[ci], cases[ci])
        print("   labels", labels)
        for n in sorted(set(notes)):
            print("   note", n)
        for m in mismatches[:3]:
            print("   MISMATCH", m[0], m[1]["inputs"], "\n     sym ", m[1]["observed"], "\n     real", m[2])
        for c, f in spurious[:3]:
            print("   SPURIOUS", c, f["kind"], f["label"], f["info"][-800:], f["inputs"])
    for k in known:
        # the listed defect is reported whenever its region is part of the claim
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if violation:
        case, f, res = violation
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", "%s-%s.json" % (prop, "".join(
            ch if ch.isalnum() else "_" for ch in f["label"])[:60]))
        with open(path, "w") as fh:
            json.dump(dict(property=prop, case=case, inputs=f["inputs"], label=f["label"], kind=f["kind"], strict=bool(f.get("strict")),
                           result=res, how="python check.py %s --replay %s" % (prop, path)), fh, indent=1)
        print("  case %s\n  %s %s\n  %s" % (case, f["kind"], f["label"],
                                            res["failures"] or res.get("info", "")))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if spurious and any(f["kind"] == "check" for _, f in spurious):
        for c, f in spurious[:3]:
            print("counterexample not reproduced: %s %s %s" % (c, f["label"], f["inputs"]))
    if decided <= 0 or missing:
        print("nothing decided or assertions never reached: %s" % missing)
        return 2
    if spurious and decided <= len(spurious):
        return 2
    if mismatches:
        print("symbolic semantics disagree with the real code on %d sampled paths" % len(mismatches))
        if os.environ.get("VERIF_STRICT"):
            return 2
    return 0


def judge(rp, case, f):
    """Replay a candidate; the result when it reproduces, else None."""
    res = rp.ask(case, f["inputs"], f["label"] if f.get("strict") else None)
    return res if res["status"] in ("fail", "exception") else None


def match_known(known, res):
    labs = {x[0] for x in res["failures"]}
    for k in known:
        if k.get("label") and labs == {k["label"]}:
            return k
    return None


if __name__ == "__main__":
    sys.exit(main())
