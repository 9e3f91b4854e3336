"""C07: rescaling an exchange rescales its uncertainty distribution with it."""
import math

from harness.gen import exchange, uncertainty, prop, snapshot, scaled
from ocelot.errors import UnsupportedDistribution
from ocelot.transformations.uncertainty import scale_exchange, get_uncertainty_class, remove_exchange_uncertainty

INFO = dict(
    bounds="one exchange of each distribution, with every combination of its optional fields; amount, factor and "
           "distribution parameters are arbitrary reals up to 1e12 (any sign; zero factor included); chains of two factors",
    outside="lognormal distributions on zero amounts (removed by the repair step); sampling with stats_arrays",
    assumptions=["the distribution is consistent with the amount (what the repair step of C08 produces)"])
LABELS = ["scaled", "distribution of the scaled quantity", "scaling composes", "unknown distribution rejected",
          "identity", "uncertainty removed"]

KINDS = [None, "lognormal", "normal", "triangular", "uniform", "undefined"]


def make(S, kind, zero_ok=False):
    a = S.real("a")
    e = exchange(S, "x", "from technosphere", amount=a)
    e["properties"] = [prop("price", S.real("price"))]
    e["production volume"] = {"amount": S.real("pv")}
    e["formula"] = "a * b"
    if kind is None:
        how = S.choice("none", ["absent", "empty", "typeless"])
        if how == "empty":
            e["uncertainty"] = {}
        elif how == "typeless":
            e["uncertainty"] = {"comment": "nothing known"}
        return e
    if kind == "normal":
        v, vp = S.pos("v", 100), S.pos("vp", 100)
        e["uncertainty"] = {"type": "normal", "mean": a, "variance": v, "variance with pedigree uncertainty": vp}
        drop = S.choice("drop", [(), ("variance",), ("mean",), ("variance with pedigree uncertainty",)])
        for k in drop:
            del e["uncertainty"][k]
    else:
        e["uncertainty"] = uncertainty(S, "u", kind, a)
        if kind == "lognormal" and S.bool("noflag"):
            del e["uncertainty"]["negative"]
            S.assume(a > 0)
    if S.bool("extra"):
        e["uncertainty"]["pedigree matrix"] = {"reliability": 3}
        e["pedigree matrix"] = {"reliability": 3}
    return e


def expected_of(S, e, f):
    x = scaled(S, dict(e, uncertainty=dict(e["uncertainty"])) if e.get("uncertainty") else e, f)
    return x


def reference(S, e, f):
    """Reference result of multiplying the exchange by f."""
    e = snapshot(e)
    u = e.get("uncertainty")
    if u and u.get("type") == "normal":
        full = dict(u)
        for k, d in (("mean", e["amount"]), ("variance", 1), ("variance with pedigree uncertainty", 1)):
            full.setdefault(k, d)
        out = scaled(S, dict(e, uncertainty=full), f)
        for k in set(full) - set(u):
            out.get("uncertainty", {}).pop(k, None)
        return out
    if u and u.get("type") == "lognormal" and "negative" not in u and not bool(f < 0):
        out = scaled(S, dict(e, uncertainty=dict(u, negative=False)), f)
        out.get("uncertainty", {}).pop("negative", None)
        return out
    if u and u.get("type") == "lognormal":
        u.setdefault("negative", False)
    return scaled(S, e, f)


def once(S):
    e = make(S, S.case["kind"])
    f = S.real("f")
    want = reference(S, e, f)
    out = scale_exchange(e, f)
    S.check("scaled", out is e)
    S.same("scaled", e, want)
    if S.case["kind"] in ("lognormal", "normal", "triangular", "uniform") and bool(f == 0):
        S.check("uncertainty removed", "uncertainty" not in e)
    S.observe("amount", e["amount"])


def twice(S):
    e = make(S, S.case["kind"])
    e2 = snapshot(e)
    f, g = S.real("f", -10 ** 6, 10 ** 6), S.real("g", -10 ** 6, 10 ** 6)
    S.assume(f * g != 0)
    scale_exchange(scale_exchange(e, f), g)
    scale_exchange(e2, f * g)
    u, v = e.get("uncertainty"), e2.get("uncertainty")
    if u and "negative" in u or v and "negative" in v:
        S.iff("scaling composes", bool(u.pop("negative", False)), bool(v.pop("negative", False)))
    S.same("scaling composes", e, e2)


def stats(S):
    """What is handed to stats_arrays is the distribution of factor * X."""
    kind = S.case["kind"]
    e = exchange(S, "x", "from technosphere", amount=S.real("a"))
    if kind is not None:
        e["uncertainty"] = uncertainty(S, "u", kind, e["amount"])
    f = S.nonzero("f")
    a, u = e["amount"], snapshot(e.get("uncertainty"))
    scale_exchange(e, f)
    sa = get_uncertainty_class(e).to_stats_arrays(e)
    L = "distribution of the scaled quantity"
    ids = {None: 1, "undefined": 0, "lognormal": 2, "normal": 3, "uniform": 4, "triangular": 5}
    S.check(L, sa["uncertainty type"] == ids[kind])
    S.eq(L, sa["amount"], a * f)
    if kind in (None, "undefined", "triangular"):
        S.eq(L, sa["loc"], a * f)
    if kind == "lognormal":
        S.iff(L, sa["negative"], a * f < 0)
        S.eq(L, sa["loc"], math.log(abs(a * f)))
        S.eq(L, sa["scale"] * sa["scale"], u["variance with pedigree uncertainty"])
        S.check(L, sa["scale"] > 0)
    if kind == "normal":
        S.eq(L, sa["loc"], a * f)
        S.eq(L, sa["scale"] * sa["scale"], u["variance with pedigree uncertainty"] * f * f)
        S.check(L, sa["scale"] > 0)
    if kind in ("triangular", "uniform"):
        lo, hi = u["minimum"] * f, u["maximum"] * f
        S.eq(L, sa["minimum"], S.ite(f > 0, lo, hi))
        S.eq(L, sa["maximum"], S.ite(f > 0, hi, lo))
        S.check(L, sa["minimum"] <= sa["maximum"])


def unknown(S):
    e = exchange(S, "x", "from technosphere")
    e["uncertainty"] = {"type": S.choice("t", ["beta", "gamma", "binomial", "erlang"]), "minimum": 1.0, "maximum": 2.0}
    f = S.real("f")
    before = snapshot(e)
    try:
        scale_exchange(e, f)
        raised = False
    except UnsupportedDistribution:
        raised = True
    S.iff("unknown distribution rejected", raised, f != 1)
    S.same("unknown distribution rejected", e, before)


def removal(S):
    e = make(S, S.choice("k", KINDS))
    before = snapshot(e)
    out = remove_exchange_uncertainty(e)
    before.pop("uncertainty", None)
    S.check("uncertainty removed", out is e)
    S.same("uncertainty removed", e, before)
    if bool(S.bool("again")):
        S.same("uncertainty removed", remove_exchange_uncertainty(e), before)


def identity(S):
    e = make(S, S.choice("k", KINDS))
    before = snapshot(e)
    scale_exchange(e, 1)
    S.same("identity", e, before)


HARNESSES = dict(once=once, twice=twice, stats=stats, unknown=unknown, removal=removal, identity=identity)


def cases(tier):
    return ([dict(h="once", kind=k) for k in KINDS] + [dict(h="twice", kind=k) for k in KINDS] +
            [dict(h="stats", kind=k) for k in KINDS] + [dict(h="unknown"), dict(h="removal"), dict(h="identity")])
