"""C01: economic (and true value) allocation partitions the burdens of an
activity over its allocatable products in proportion to revenue."""
from harness.gen import (exchange, with_uncertainty, prop, dataset, snapshot, check_single_output, check_apart)
from ocelot.errors import InvalidExchange
from ocelot.transformations.cutoff.economic import economic_allocation

INFO = dict(
    bounds="1 to 6 allocatable products (any mix of products with and without a true value relation up to 3), "
           "0 to 5 other exchanges of every type, every uncertainty distribution, optional formulas, production "
           "volumes and further properties; amounts, prices and true values are arbitrary reals up to 1e12",
    outside="more than 6 products; products whose revenue (or true value) sums to zero; products with amount zero",
    assumptions=["product amounts are positive, and exactly one or at least 1e-6 away from one",
                 "prices are not negative and do not all vanish; true values are not negative, or have any sign and a sum of at least 0.125 in absolute value",
                 "uncertainty dictionaries are consistent with the amount, as after the repair step"])
LABELS = ["number of datasets", "single-output dataset", "burden share", "burden conserved", "input untouched",
          "rejected", "independent datasets"]

TYPES = {"t": "from technosphere", "e": "to environment", "f": "from environment", "w": "waste", "r": "recyclable"}


def other(S, i, code):
    """code: a type letter, optionally followed by the uncertainty kind."""
    p = "x%d" % i
    kind = code[1:] or None
    if code[0] in "wr":
        e = exchange(S, p, "byproduct", **{"byproduct classification": TYPES[code[0]]})
        e["production volume"] = {"amount": S.real(p + ".pv", 0)}
    else:
        e = exchange(S, p, TYPES[code[0]])
    if i == 0:
        e["formula"] = "a * b"
        e["properties"] = [prop("price", S.real(p + ".price")), prop("dry mass", 2.0)]
    return with_uncertainty(S, p, e, kind)


def activity(S):
    c = S.case
    prods, rel, revenue = [], [], []
    use = c.get("use", True)
    for i in range(c["np"]):
        p = "p%d" % i
        rp = i < c.get("nrp", 1)
        e = exchange(S, p, "reference product" if rp else "byproduct", amount=S.produced(p))
        if not rp:
            e["byproduct classification"] = "allocatable product"
        elif c.get("fields"):
            e["byproduct classification"] = "allocatable product"
        price = S.real(p + ".price", 0)
        if c.get("pospr", True):
            S.assume(price > 0)
        e["properties"] = [prop("price", price)]
        t = None
        if c["tv"] >> i & 1:
            if c.get("anytv"):
                t = S.nonzero(p + ".tv")
            else:
                t = S.real(p + ".tv", 0)
                if c.get("pospr", True):
                    S.assume(t > 0)
            e["properties"].append(prop("true value relation", t))
            if not use:
                t = None
        if c.get("fields"):
            e["production volume"] = {"amount": S.real(p + ".pv", 0)}
            e["formula"], e["variable"] = "c + 1", "v%d" % i
            e["properties"] = [prop(n, S.real(p + "." + n)) for n in ("wet mass", "dry mass", "water content")] + e["properties"]
            e["uncertainty"] = {"type": "undefined", "minimum": S.real(p + ".u"), "maximum": 3.0}
        rel.append(t)
        revenue.append(price * e["amount"])
        prods.append(e)
    if not c.get("pospr", True):
        S.assume(sum(revenue) > 0)
        if any(t is not None for t in rel):
            S.assume(sum(t for t in rel if t is not None) > 0)
    if c.get("anytv"):
        S.assume(abs(sum(t * e["amount"] for t, e in zip(rel, prods) if t is not None)) >= 0.125)
    others = [other(S, i, t) for i, t in enumerate(c["others"])]
    if c.get("mixed"):
        excs = others[:1] + prods[1:] + others[1:] + prods[:1]
    else:
        excs = prods + others
    return dataset("a", excs, **{"allocation method": "economic"}), rel, revenue


def econ(S):
    c = S.case
    ds, rel, revenue = activity(S)
    prods = [e for e in ds["exchanges"] if e["id"].startswith("id-p")]
    others = [e for e in ds["exchanges"] if e["id"].startswith("id-x")]
    index = {e["id"]: int(e["id"][4:]) for e in prods}
    before = snapshot(ds)
    out = economic_allocation(ds) if c.get("use", True) else economic_allocation(ds, use_true_value=False)
    S.same("input untouched", ds, before)
    S.check("number of datasets", len(out) == c["np"], len(out))
    check_apart(S, "independent datasets", ds, *out)
    total = sum(revenue)
    tv = [i for i, t in enumerate(rel) if t is not None]
    tv_sum = sum(rel[i] * prods_by(prods, i)["amount"] for i in tv)
    tv_rev = sum(revenue[i] for i in tv)
    acc = [0 for _ in others]
    for o, product in zip(out, prods):
        k = index[product["id"]]
        rps = [e["id"] for e in o["exchanges"] if e["type"] == "reference product"]
        S.check("number of datasets", rps == [product["id"]], rps)
        if rel[k] is None:
            share = revenue[k] / total
            share_n, share_d = revenue[k], total
        else:
            share = (rel[k] * product["amount"] * tv_rev) / (tv_sum * total)
            share_n, share_d = rel[k] * product["amount"] * tv_rev, tv_sum * total
        check_single_output(S, "single-output dataset", o, ds, product, share)
        for j, x in enumerate(others):
            got = [e for e in o["exchanges"] if e["id"] == x["id"]]
            a = got[0]["amount"]
            S.eq("burden share", a * product["amount"] * share_d, x["amount"] * share_n)
            acc[j] = acc[j] + a * product["amount"]
    for j, x in enumerate(others):
        S.eq("burden conserved", acc[j], x["amount"])
    S.observe("out", [[e["amount"] for e in o["exchanges"]] for o in out])


def prods_by(prods, i):
    return [e for e in prods if e["id"] == "id-p%d" % i][0]


def reject(S):
    """Missing or negative prices and negative product amounts are refused."""
    ds_prods, bad = [], []
    for i in range(2):
        p = "p%d" % i
        e = exchange(S, p, "reference product" if i == 0 else "byproduct", amount=S.nonzero(p))
        S.assume(S.any_of([e["amount"] == 1, abs(abs(e["amount"]) - 1) >= 1e-6]))
        if i:
            e["byproduct classification"] = "allocatable product"
        price = S.nonzero(p + ".price")
        if S.bool(p + ".priced"):
            e["properties"] = [prop("price", price)]
            bad.append(S.any_of([price < 0, e["amount"] < 0]))
        else:
            bad.append(True)
        ds_prods.append(e)
    ds = dataset("a", ds_prods + [exchange(S, "x0", "from technosphere")])
    try:
        economic_allocation(ds)
        raised = False
    except InvalidExchange:
        raised = True
    S.iff("rejected", raised, S.any_of(bad))


HARNESSES = {"econ": econ, "reject": reject}


def cases(tier):
    out = []
    for n in (1, 2):
        for tv in range(2 ** n):
            out.append(dict(h="econ", np=n, tv=tv, others="tew"))
    for tv in (0, 1, 2, 4, 3, 5, 6, 7):
        out.append(dict(h="econ", np=3, tv=tv, others="t", mixed=True))
    for o in ("fr", ["tlognormal", "enormal"], ["etriangular", "tuniform"], ["tundefined", "wlognormal", "e"], ""):
        out.append(dict(h="econ", np=2, tv=0, others=o, fields=True, nrp=2 if o == "" else 1))
    out.append(dict(h="econ", np=2, tv=2, others=["tlognormal", "e"], mixed=True, fields=True))
    out.append(dict(h="econ", np=2, tv=0, others="te", pospr=False))
    out.append(dict(h="econ", np=2, tv=3, others="te", pospr=False))
    out.append(dict(h="econ", np=2, tv=3, others="te", use=False))
    out.append(dict(h="econ", np=3, tv=5, others="e", use=False))
    out.append(dict(h="econ", np=4 if tier == "quick" else 6, tv=0, others="t", pospr=True))
    out.append(dict(h="econ", np=2, tv=1, others="tefwt"))
    out.append(dict(h="econ", np=2, tv=3, others="te", anytv=True))
    out.append(dict(h="econ", np=3, tv=5, others="t", anytv=True, mixed=True))
    out.append(dict(h="reject"))
    if tier == "thorough":
        for tv in range(16):
            out.append(dict(h="econ", np=4, tv=tv, others="te"))
        for k in ("lognormal", "normal", "triangular", "uniform", "undefined"):
            out.append(dict(h="econ", np=3, tv=3, others=["t" + k, "e" + k, "w" + k], fields=True))
    return out
