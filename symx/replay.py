"""Replay harness inputs concretely against the unpatched code.

Run as ``python -m symx.replay PROPERTY``; reads JSON lines {case, inputs}
on stdin and answers with JSON lines."""
import importlib
import json
import os
import sys
import traceback


def run_one(module, case, inputs, strict=None):
    from .source import ConcreteSource, AssumptionFailed
    src = ConcreteSource(case, inputs, strict)
    harness = module.HARNESSES[case["h"]]
    try:
        harness(src)
    except AssumptionFailed:
        return dict(status="assumption", failures=src.failures, observed=[], checked=src.checked)
    except Exception as err:
        return dict(status="exception", error=type(err).__name__,
                    info="%s: %s\n%s" % (type(err).__name__, err, traceback.format_exc(limit=-8)),
                    failures=src.failures, observed=[], checked=src.checked)
    return dict(status="fail" if src.failures else "ok", failures=src.failures, checked=src.checked,
                observed=[[l, jsonable(v)] for l, v in src.observed])


def jsonable(v):
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, (str, bool)) or v is None:
        return v
    try:
        return float(v)
    except (TypeError, ValueError):
        return str(v)


def serve(prop):
    out = os.fdopen(os.dup(1), "w")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    module = importlib.import_module("harness.%s" % prop.lower())
    import logging
    logging.getLogger("ocelot").disabled = True
    for line in sys.stdin:
        req = json.loads(line)
        res = run_one(module, req["case"], req["inputs"], req.get("strict"))
        out.write(json.dumps(res) + "\n")
        out.flush()


if __name__ == "__main__":
    serve(sys.argv[1])
