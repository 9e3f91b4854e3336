"""C08: repairing uncertainty makes every distribution valid and consistent with its amount."""
import math

from harness.gen import exchange, prop, dataset, snapshot
from harness.c09 import PEDIGREE
from harness.c30 import ds as activity, inp, market, out as made
from ocelot.configuration import consequential_config, cutoff_config, cutoff_config_ecoinvent_row
from ocelot.errors import UnsupportedDistribution
from ocelot.transformations.uncertainty import get_uncertainty_class
from ocelot.transformations.parameterization.uncertainty import repair_all_uncertainty_distributions

INFO = dict(
    bounds="every distribution with arbitrary real parameters up to 1e12 (inconsistent ones included), with and without "
           "a pedigree matrix (in the distribution or next to it), attached to an exchange, a production volume, a property or a parameter; datasets with up "
           "to 7 uncertain objects; a database of four activities that goes through each system model",
    outside="amounts of uniform distributions that are closer than 1e-4 (relative) to the midpoint without being the "
            "midpoint; two pedigree matrices for one amount",
    assumptions=["normal and lognormal distributions have a variance with pedigree uncertainty, triangular and uniform "
                 "ones a minimum and a maximum (what the extractor delivers)"])
LABELS = ["amount kept", "lognormal", "normal", "triangular", "uniform", "undefined", "impossible uniform rejected",
          "unknown distribution rejected", "everything repaired", "nothing else changes"]


def pedigree(S):
    """As extraction delivers it, or with the other name of its last indicator."""
    full = {"reliability": 2, "completeness": 5, "temporal correlation": 3, "geographical correlation": 1}
    return S.choice("pm", [None, {}, {"reliability": 4}, dict(full, **{S.choice("last", [
        "further technology correlation", "further technological correlation"]): 5})])


def ped_var(pm):
    return sum(PEDIGREE[k][v - 1] for k, v in (pm or {}).items())


def make(S, p, kind):
    a = S.real(p + ".a")
    o = {"amount": a, "name": p, "id": "id-" + p}
    if kind in ("lognormal", "normal"):
        o["uncertainty"] = {"type": kind, "mean": S.real(p + ".m"), "variance": S.real(p + ".v"),
                            "variance with pedigree uncertainty": S.real(p + ".vp", 0, 100)}
        if kind == "lognormal":
            o["uncertainty"]["mu"] = S.real(p + ".mu")
            # left from an earlier repair, when the amount was another one
            flag = S.choice(p + ".flag", [None, True, False])
            if flag is not None:
                o["uncertainty"]["negative"] = flag
    elif kind in ("triangular", "uniform"):
        o["uncertainty"] = {"type": kind, "minimum": S.real(p + ".lo", -10 ** 6, 10 ** 6),
                            "maximum": S.real(p + ".hi", -10 ** 6, 10 ** 6)}
        S.assume(abs(a) <= 10 ** 6)
        if kind == "triangular":
            o["uncertainty"]["mode"] = S.real(p + ".m")
        if kind == "uniform":
            mid = (o["uncertainty"]["minimum"] + o["uncertainty"]["maximum"]) / 2
            # the code accepts amounts within numerical noise of the midpoint
            S.assume(S.any_of([a == mid, abs(a - mid) > abs(mid) * 0.0001 + 0.0001]))
    elif kind == "undefined":
        o["uncertainty"] = {"type": "undefined", "minimum": S.real(p + ".lo"), "maximum": S.real(p + ".hi"),
                            "standard deviation 95%": S.real(p + ".sd")}
    return o


def check_repaired(S, label, old, new, pm=None):
    """``new`` is what repairing ``old`` should give."""
    a = old["amount"]
    S.eq("amount kept", new["amount"], a)
    S.same("nothing else changes", {k: v for k, v in new.items() if k not in ("amount", "uncertainty")},
           {k: v for k, v in old.items() if k not in ("amount", "uncertainty")})
    u = old.get("uncertainty")
    if not u:
        S.same(label, new, old)
        return
    kind = u["type"]
    if kind == "undefined":
        S.same(label, new, old)
    elif kind == "lognormal":
        vp = u["variance with pedigree uncertainty"]
        if bool(a == 0) or bool(vp == 0):
            S.check(label, "uncertainty" not in new)
            return
        pv = ped_var(pm)
        v = vp - pv
        if bool(v > math.e):
            v, vp = 0.25, 0.25 + pv
        elif bool(v >= 1):
            v = math.log(v)
            vp = v + pv
        S.same(label, new.get("uncertainty"), dict(u, mean=abs(a), mu=math.log(abs(a)), negative=bool(a < 0), variance=v,
                                                   **{"variance with pedigree uncertainty": vp}))
    elif kind == "normal":
        if bool(u["variance with pedigree uncertainty"] == 0):
            S.check(label, "uncertainty" not in new)
        else:
            S.same(label, new.get("uncertainty"), dict(u, mean=a))
    else:
        lo = S.ite(u["minimum"] < u["maximum"], u["minimum"], u["maximum"])
        hi = S.ite(u["minimum"] < u["maximum"], u["maximum"], u["minimum"])
        if bool(a < lo) or bool(a > hi) or bool(lo == hi):
            S.check(label, "uncertainty" not in new)     # an impossible uniform is rejected before this point
            return
        want = dict(u, minimum=lo, maximum=hi)
        if kind == "triangular" or not bool(a * 2 == lo + hi):
            want["type"], want["mode"] = "triangular", a
        S.same(label, new.get("uncertainty"), want)


def impossible(S, o):
    """A uniform distribution that does not contain its amount."""
    u = o.get("uncertainty") or {}
    if u.get("type") != "uniform":
        return False
    return S.any_of([S.all_of([o["amount"] < u["minimum"], o["amount"] < u["maximum"]]),
                     S.all_of([o["amount"] > u["minimum"], o["amount"] > u["maximum"]])])


def single(S):
    kind = S.case["kind"]
    o = make(S, "x", kind)
    pm = None
    if kind in ("lognormal", "normal"):
        pm = pedigree(S)
        if pm is not None:
            (o["uncertainty"] if S.bool("inside") else o)["pedigree matrix"] = pm
    if S.bool("bare") and kind in ("lognormal", "normal", "triangular"):
        for k in ("mean", "mu", "variance", "mode"):
            o["uncertainty"].pop(k, None)
    where = S.choice("where", ["exc", "pv", "prop", "par"])
    ds = place(S, dataset("d", []), o, where, 0)
    before = snapshot(o)
    bad = impossible(S, o)
    try:
        out = repair_all_uncertainty_distributions([ds])
        raised = False
    except ValueError:
        raised = True
    S.iff("impossible uniform rejected", raised, bad)
    if raised:
        return
    S.check("everything repaired", len(out) == 1 and out[0] is ds)
    check_repaired(S, kind or "undefined", before, o, pm)
    S.observe("u", {k: v for k, v in (o.get("uncertainty") or {}).items() if k not in ("pedigree matrix", "mu")})


def place(S, ds, o, where, i):
    if where == "exc":
        o.update(type="from technosphere", unit="kg")
        ds["exchanges"].append(o)
    elif where == "par":
        ds["parameters"].append(o)
    else:
        e = exchange(S, "host%d" % i, "reference product", amount=1.0)
        if where == "pv":
            e["production volume"] = o
        else:
            e["properties"] = [prop("price", 2.0), o, prop("dry mass", 3.0)]
        ds["exchanges"].append(e)
    return ds


def many(S):
    """Every object of every dataset is repaired; the rest is untouched."""
    objs, dss = [], [dataset("d0", []), dataset("d1", [])]
    for i, (kind, where) in enumerate(S.case["spec"]):
        o = make(S, "o%d" % i, kind)
        objs.append(o)
        place(S, dss[(i // 2) % 2], o, where, i)
        if kind == "uniform":
            S.assume(S.all_of([o["amount"] >= o["uncertainty"]["minimum"], o["amount"] <= o["uncertainty"]["maximum"]]))
        if kind in ("lognormal", "normal"):
            S.assume(o["uncertainty"]["variance with pedigree uncertainty"] < 1)
    dss[0]["exchanges"].append(dict(exchange(S, "plain", "to environment"), uncertainty={}))
    if S.case.get("noparams"):
        for ds in dss:
            if not ds["parameters"]:
                del ds["parameters"]
    before = snapshot(objs)
    whole = snapshot(dss)
    out = repair_all_uncertainty_distributions(dss)
    S.check("everything repaired", len(out) == len(dss) and all(a is b for a, b in zip(out, dss)))
    for old, new in zip(before, objs):
        check_repaired(S, "everything repaired", old, new)
    names = {o["id"] for o in objs}

    def strip(x):
        if isinstance(x, dict):
            if x.get("id") in names:
                return x["id"]
            return {k: strip(v) for k, v in x.items()}
        if isinstance(x, list):
            return [strip(v) for v in x]
        return x
    S.same("nothing else changes", strip(snapshot(dss)), strip(whole))


def rejected(S):
    o = dict(make(S, "x", "triangular"))
    o["uncertainty"]["type"] = S.choice("t", ["beta", "gamma", "binomial"])
    ds = place(S, dataset("d", []), o, "exc", 0)
    try:
        get_uncertainty_class(o)
        raised = False
    except UnsupportedDistribution:
        raised = True
    S.check("unknown distribution rejected", raised)
    try:
        repair_all_uncertainty_distributions([ds])
        raised = False
    except UnsupportedDistribution:
        raised = True
    S.check("unknown distribution rejected", raised)


def configured(S):
    """The system models repair uncertainties, too."""
    config = dict(cutoff=cutoff_config, row=cutoff_config_ecoinvent_row, consequential=consequential_config)[S.case["config"]]
    a, lo, hi = S.real("a"), S.real("lo"), S.real("hi")
    S.assume(S.all_of([lo < hi, lo <= a, a <= hi]))
    f = inp(S, "f", "steel", amount=a, uncertainty={"type": "triangular", "minimum": hi, "maximum": lo, "pedigree matrix": {}})
    g = inp(S, "g", "steel", amount=-2.0, uncertainty={
        "type": "lognormal", "mean": 3.0, "mu": 4.0, "variance": 0.5, "variance with pedigree uncertainty": 0.5, "negative": False,
        "pedigree matrix": {}})
    e = made(S, "e", "power", amount=1.0, pv=5.0)
    e["uncertainty"] = {"type": "uniform", "minimum": 1.0, "maximum": 1.0, "pedigree matrix": {}}
    db = [activity("plant", [e, f, g]), market(S, "power"), market(S, "steel"),
          activity("mill", [made(S, "s", "steel", amount=1.0, pv=3.0)])]
    final = config(db[::-1] if S.bool("rev") else db)
    ds = [d for d in final if d["name"] == "plant"][0]
    now = {x["id"]: x for x in ds["exchanges"]}
    L = "everything repaired"
    S.eq("amount kept", now["id-f"]["amount"], a)
    S.eq(L, now["id-f"]["uncertainty"]["minimum"], lo)
    S.eq(L, now["id-f"]["uncertainty"]["maximum"], hi)
    S.check(L, now["id-g"]["uncertainty"].get("negative") is True)
    S.eq(L, now["id-g"]["uncertainty"]["mean"], 2)
    S.check(L, "minimum" not in now["id-e"].get("uncertainty", {}))


HARNESSES = dict(configured=configured, single=single, many=many, rejected=rejected)


def cases(tier):
    out = [dict(h="single", kind=k) for k in ("lognormal", "normal", "triangular", "uniform", "undefined", None)]
    out += [dict(h="rejected"),
            dict(h="many", spec=[("lognormal", "exc"), ("normal", "pv"), ("triangular", "prop"), ("uniform", "par"),
                                 ("undefined", "exc")]),
            dict(h="many", spec=[("triangular", "par"), ("lognormal", "prop"), ("normal", "exc"), ("uniform", "pv")]),
            dict(h="many", spec=[("lognormal", "prop"), ("lognormal", "pv"), ("triangular", "exc"), ("normal", "prop")],
                 noparams=True)]
    out += [dict(h="configured", config=c) for c in ("cutoff", "row", "consequential")]
    if tier == "thorough":
        import itertools
        ks = ["lognormal", "normal", "triangular", "uniform"]
        for a, b, w in itertools.product(ks, ks, ["exc", "pv", "prop", "par"]):
            out.append(dict(h="many", spec=[(a, w), (b, "exc"), (a, "par")]))
    return out
