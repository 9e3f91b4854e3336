"""C04: waste treatment and recycling activities."""
from harness.gen import (exchange, with_uncertainty, prop, dataset, snapshot, away_from_one, check_waste,
                         check_economic, recycled, check_apart)
from ocelot.errors import InvalidExchange
from ocelot.transformations.cutoff.wastes import recycling_allocation, waste_treatment_allocation

INFO = dict(
    bounds="up to 3 allocatable byproducts (5 for waste treatment) and up to 4 other exchanges; every uncertainty "
           "distribution on the treated flow and on the inputs; arbitrary real amounts, prices, true values up to 1e12",
    outside="more exchanges; several reference products",
    assumptions=["product amounts are one or at least 1e-6 away from one in absolute value",
                 "byproducts of recycling have positive prices and amounts (see C01 for the others)"])
LABELS = ["waste treatment", "input untouched", "recycling", "refused", "treated flow becomes an input",
          "byproducts of waste treatment are free", "independent datasets"]


def build(S, cls, rp_amount):
    c = S.case
    rp = exchange(S, "rp", "reference product", amount=rp_amount)
    if cls:
        rp["byproduct classification"] = cls
    rp["production volume"] = {"amount": S.real("rp.pv", 0)}
    if c.get("rpu"):
        with_uncertainty(S, "rp", rp, c["rpu"])
    if c.get("fields"):
        rp["formula"], rp["variable"] = "-1 * q", "rpv"
        rp["properties"] = [prop("price", S.real("rp.price"))]
    byp = []
    for i in range(c["nb"]):
        p = "b%d" % i
        amount = away_from_one(S, S.nonzero(p)) if c.get("anysign") else S.produced(p)
        e = exchange(S, p, "byproduct", amount=amount, name=rp["name"] if i == c.get("same") else None)
        e["byproduct classification"] = "allocatable product"
        e["properties"] = [prop("price", S.pos(p + ".price"))]
        e["production volume"] = {"amount": S.real(p + ".pv", 0)}
        if c.get("tv", 0) >> i & 1:
            e["properties"].append(prop("true value relation", S.pos(p + ".tv")))
        if c.get("fields"):
            e["formula"] = "2 * q"
            e["uncertainty"] = {"type": "undefined", "minimum": S.real(p + ".u"), "maximum": 1.0}
        byp.append(e)
    rest = []
    for i, code in enumerate(c["others"]):
        p = "x%d" % i
        t = {"t": "from technosphere", "e": "to environment", "f": "from environment"}.get(code[0], "byproduct")
        e = exchange(S, p, t)
        if t == "byproduct":
            e["byproduct classification"] = {"w": "waste", "r": "recyclable"}[code[0]]
        rest.append(with_uncertainty(S, p, e, code[1:] or None))
    k = c.get("pos", 0)
    excs = (byp + rest)
    return dataset("treatment of x", excs[:k] + [rp] + excs[k:], authors=[{"name": "someone"}],
                   parameters=[{"name": "q", "variable": "q", "id": "q", "amount": S.real("q")}])


def waste(S):
    amount = away_from_one(S, -S.pos("rp"))
    ds = build(S, "waste", amount)
    before = snapshot(ds)
    out = waste_treatment_allocation(ds)
    S.same("input untouched", ds, before)
    check_waste(S, "waste treatment", out, ds)
    check_apart(S, "independent datasets", ds, *out)
    for o in out[1:]:
        S.check("byproducts of waste treatment are free", len(o["exchanges"]) == 1)
    S.observe("out", [[e["amount"] for e in o["exchanges"]] for o in out])


def recycling(S):
    amount = away_from_one(S, -S.pos("rp"))
    ds = build(S, S.case["cls"], amount)
    before = snapshot(ds)
    out = recycling_allocation(ds)
    ref = recycled(S, before)
    check_economic(S, "recycling", out, ref)
    check_apart(S, "independent datasets", ds, *out)
    total = 0
    for o in out:
        got = [e for e in o["exchanges"] if e["id"] == "id-rp"]
        S.check("treated flow becomes an input", len(got) == 1 and got[0]["type"] == "from technosphere")
        S.check("treated flow becomes an input", got[0]["amount"] > 0)
        prod = [e for e in o["exchanges"] if e["type"] == "reference product"]
        src = [e for e in before["exchanges"] if e["id"] == prod[0]["id"]]
        total = total + got[0]["amount"] * src[0]["amount"]
    S.eq("treated flow becomes an input", total, -amount)
    S.observe("out", [[e["amount"] for e in o["exchanges"]] for o in out])


def refuse(S):
    amount = S.nonzero("rp")
    away_from_one(S, amount)
    cls = S.choice("cls", ["waste", "recyclable", "allocatable product", None])
    fn = S.choice("fn", ["waste", "recycling"])
    S.case["nb"] = S.choice("nb", [0, 1])
    ds = build(S, cls, amount)
    before = snapshot(ds)
    try:
        (waste_treatment_allocation if fn == "waste" else recycling_allocation)(ds)
        raised = False
    except InvalidExchange:
        raised = True
    bad = amount > 0
    if fn == "waste" and cls != "waste" or fn == "recycling" and S.case["nb"] == 0:
        bad = True
    S.iff("refused", raised, bad)
    if raised:
        S.same("input untouched", ds, before)


HARNESSES = {"waste": waste, "recycling": recycling, "refuse": refuse}


def cases(tier):
    out = []
    for nb in (0, 1, 2, 3):
        out.append(dict(h="waste", nb=nb, others="tewr", pos=nb % 2, fields=nb % 2 == 1))
    out.append(dict(h="waste", nb=5, others="t", pos=3, same=1))
    out.append(dict(h="waste", nb=1, others="tefwrt"))
    out.append(dict(h="waste", nb=2, others="tw", pos=1, anysign=True))
    for k in ("lognormal", "normal", "triangular", "uniform", "undefined"):
        out.append(dict(h="waste", nb=1, others=["t" + k, "e"], rpu=k))
        # both at once is too hard for the solver for the logarithms of lognormal distributions
        out += [dict(h="recycling", nb=1, others=["t" + a], rpu=b, cls="recyclable") for a, b in
                ((("", k), (k, None)) if k == "lognormal" else ((k, k),))]
    for nb, tv in ((1, 0), (1, 1), (2, 0), (2, 2), (2, 3), (3, 0)):
        out.append(dict(h="recycling", nb=nb, tv=tv, others="tw" if nb < 3 else "e",
                        cls="recyclable" if nb % 2 else "allocatable product", pos=nb % 3, fields=nb == 2))
    out.append(dict(h="recycling", nb=1, others="tefwr", cls=None, same=0))
    out.append(dict(h="refuse", others="t"))
    if tier == "thorough":
        for k in ("lognormal", "normal", "triangular", "uniform", "undefined"):
            out.append(dict(h="recycling", nb=2, tv=1, others=["t" + k, "w" + k], rpu=k, cls="recyclable", fields=True))
            out.append(dict(h="waste", nb=3, others=["t" + k, "w" + k, "e" + k], rpu=k, fields=True))
        out.append(dict(h="recycling", nb=3, tv=5, others="tew", cls="recyclable"))
        out.append(dict(h="recycling", nb=4, tv=0, others="te", cls="recyclable"))
    return out
