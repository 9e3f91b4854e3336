"""Exhaustive path exploration of one harness case."""
import os
import sys
import time
import traceback

import z3

from . import engine as E
from .source import SymSource

REPO = os.environ.get("OCELOT_REPO", "/repo") + "/"


def _profiler(store):
    def prof(frame, event, arg):
        if event == "call":
            co = frame.f_code
            fn = co.co_filename
            if fn.startswith(REPO + "ocelot"):
                store.add("%s:%s" % (fn[len(REPO):], co.co_qualname))
    return prof


def _evaluate(v, model):
    if isinstance(v, E.SymNum):
        return float(E.z3_to_fraction(z3.simplify(model.eval(v.term, model_completion=True))))
    if isinstance(v, E.SymBool):
        return z3.is_true(model.eval(v.t, model_completion=True))
    if isinstance(v, E.SymStr):
        return v.options[model.eval(v.v, model_completion=True).as_long()]
    if isinstance(v, dict):
        return {str(k): _evaluate(x, model) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [_evaluate(x, model) for x in v]
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v
    return str(v)


def explore(harness, case, prefixes, seed, budget, timeout_ms, want_samples=0, profile=False,
            max_findings=12):
    """Explore the subtrees rooted at ``prefixes`` for at most ``budget`` seconds.

    Returns what is left to explore, so that the caller can distribute it."""
    eng = E.Engine(seed, timeout_ms)
    E.ENGINE = eng
    work = list(prefixes)
    findings, samples, functions = [], [], set()
    notes = []
    t_end = time.time() + budget
    nfun = 0
    first = True
    eager = False
    while work and (first or time.time() < t_end) and len(findings) < max_findings:
        first = False
        prefix = work.pop()
        eng.start(list(prefix))
        src = SymSource(eng, case)
        eng.stats["paths"] += 1
        exc = None
        status = "done"
        watch = profile and nfun < 3 or nfun % 16 == 5
        if watch:
            sys.setprofile(_profiler(functions))
        try:
            harness(src)
        except E.PathAbort:
            status = "abort"
        except E.Inconclusive as err:
            status = "inconclusive"
            notes.append("inconclusive: %s" % err)
        except z3.Z3Exception as err:
            status = "inconclusive"
            notes.append("z3: %s" % err)
        except Exception as err:
            if "SymStr" in str(err) and not case.get("eager"):
                # a C function that needs a real string: split all strings when they are made
                eager = True
                break
            status = "exception"
            exc = err
            tb = traceback.format_exc(limit=-6)
        finally:
            if watch:
                sys.setprofile(None)
        work.extend(eng.queued)
        if status == "abort":
            eng.stats["paths"] -= 1
            eng.stats["aborted"] = eng.stats.get("aborted", 0) + 1
            continue
        nfun += 1
        try:
            if status == "inconclusive":
                eng.stats["inconclusive"] += 1
                continue
            # is the path condition satisfiable at all?
            eng.ensure_model()
            found = eng.finish()
            if status == "exception":
                info = "%s: %s" % (type(exc).__name__, exc)
                for a in eng.nice_models():
                    findings.append(E.Finding("exception", type(exc).__name__, a, info + "\n" + tb).as_dict())
                eng.stats["exceptions"] = eng.stats.get("exceptions", 0) + 1
            findings.extend(f.as_dict() for f in found)
            if eng.incomplete:
                eng.stats["incomplete_paths"] = eng.stats.get("incomplete_paths", 0) + 1
                notes.extend(eng.incomplete[:2])
            elif not found and status == "done" and len(samples) < want_samples:
                models = []
                s = eng.nice_models(limit=1)
                if s:
                    # evaluate observations under exactly this assignment
                    sol = z3.Solver()
                    sol.set("timeout", 3000)
                    for a in eng.solver.assertions():
                        sol.add(a)
                    for name, (kind, t) in eng.inputs.items():
                        val = s[0][name]
                        if kind == "bool":
                            sol.add(t == val)
                        elif kind == "int":
                            sol.add(t == val)
                        else:
                            sol.add(t == z3.Q(*val))
                    if sol.check() == z3.sat:
                        m = sol.model()
                        samples.append(dict(inputs=s[0], uf=eng.has_uf,
                                            labels=sorted({p[0] for p in eng.pending} | set(eng.trivial)),
                                            observed=[[l, _evaluate(v, m)] for l, v in eng.observed]))
        except E.PathAbort:
            eng.stats["paths"] -= 1
            eng.stats["aborted"] = eng.stats.get("aborted", 0) + 1
        except (E.Inconclusive, z3.Z3Exception) as err:
            eng.stats["inconclusive"] += 1
            notes.append("inconclusive: %s" % err)
    E.ENGINE = None
    if eager:
        work, findings, samples = [], [], []
    return dict(left=work, findings=findings, samples=samples, stats=dict(eng.stats),
                labels=eng.labels, functions=sorted(functions), notes=notes[:5], eager=eager)
