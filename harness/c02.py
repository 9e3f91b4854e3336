"""C02: turning an activity into a single-output one, and normalising it."""
from harness.gen import (exchange, with_uncertainty, prop, dataset, snapshot, check_single_output, check_exchanges,
                         scaled, dropped, by_id, check_apart)
from ocelot.errors import ZeroProduction, InvalidMultioutputDataset
from ocelot.transformations.cutoff.utils import apply_allocation_factors
from ocelot.transformations.utils import (choose_reference_product_exchange, normalize_reference_production_amount,
                                          get_single_reference_product, label_reference_product)

INFO = dict(
    bounds="up to 4 allocatable products and up to 6 other exchanges of every type and uncertainty distribution; "
           "amounts and allocation factors are arbitrary reals up to 1e12 (negative and zero included)",
    outside="product exchanges that are equal field by field; normal and lognormal uncertainty on zero amounts",
    assumptions=["production amounts are exactly one or at least 1e-6 away from one in absolute value",
                 "exchange ids are distinct"])
LABELS = ["single-output dataset", "input untouched", "zero production rejected", "normalised", "product label",
          "multi-output rejected", "one dataset per factor", "independent datasets"]


def production(S, p):
    x = S.nonzero(p)
    S.assume(S.any_of([abs(x) == 1, abs(abs(x) - 1) >= 1e-6]))
    return x


def others(S, spec):
    out = []
    for i, code in enumerate(spec):
        p = "x%d" % i
        t, kind = {"t": "from technosphere", "e": "to environment", "f": "from environment",
                   "w": "byproduct", "r": "byproduct", "d": "dropped product"}[code[0]], code[1:] or None
        e = exchange(S, p, t)
        if code[0] == "w":
            e["byproduct classification"] = "waste"
        if code[0] == "r":
            e["byproduct classification"] = "recyclable"
        if i % 2 == 0:
            e["formula"], e["variable"] = "3 * q", "r%d" % i
            e["properties"] = [prop("price", S.real(p + ".price"))]
        if i == 1:
            e["activity link"] = "some-id"
            e["production volume"] = {"amount": S.real(p + ".pv")}
        out.append(with_uncertainty(S, p, e, kind))
    return out


def choose(S):
    c = S.case
    prods = []
    for i, k in enumerate(c["prods"]):
        p = "p%d" % i
        amount = production(S, p) if i == c["pick"] else S.real(p)
        e = exchange(S, p, "reference product" if k in "rW" else "byproduct", amount=amount,
                     name="product" if c.get("same") else None)
        if k != "r":
            e["byproduct classification"] = "waste" if k == "W" else "allocatable product"
        if i % 2 == 0:
            e["formula"], e["variable"] = "7", "v%d" % i
            e["production volume"] = {"amount": S.real(p + ".pv"), "variable": "w%d" % i, "formula": "1 + 1"}
            e["uncertainty"] = {"type": "undefined", "minimum": S.real(p + ".u"), "maximum": 3.0}
            e["properties"] = [prop("price", S.real(p + ".price"), variable="z")]
        prods.append(e)
    rest = others(S, c["others"])
    excs = rest[:1] + prods + rest[1:]
    ds = dataset("a", excs, parameters=[{"name": "foo", "amount": S.real("par"), "variable": "q"}])
    before = snapshot(ds)
    f = S.real("f") if c["f"] is None else c["f"]
    product = prods[c["pick"]]
    if c.get("via") == "factors":
        out = apply_allocation_factors(ds, [(f, product)])
        S.check("one dataset per factor", len(out) == 1)
        out = out[0]
    elif c["f"] == 1:
        out = choose_reference_product_exchange(ds, product)
    else:
        out = choose_reference_product_exchange(ds, product, f)
    S.same("input untouched", ds, before)
    check_single_output(S, "single-output dataset", out, ds, product, f)
    check_apart(S, "independent datasets", ds, out)
    S.observe("out", [e["amount"] for e in out["exchanges"]])


def zero(S):
    """A zero production amount is never silently accepted."""
    amount = S.real("p")
    S.assume(S.any_of([amount == 0, abs(amount) >= 1e-6]))
    e = exchange(S, "p", "reference product", amount=amount)
    ds = dataset("a", [e, exchange(S, "x", "from technosphere")])
    fn = S.choice("fn", ["choose", "normalise"])
    try:
        if fn == "choose":
            choose_reference_product_exchange(ds, e, S.real("f"))
        else:
            normalize_reference_production_amount(ds)
        raised = False
    except ZeroProduction:
        raised = True
    S.iff("zero production rejected", raised, amount == 0)


def normalise(S):
    c = S.case
    amount = production(S, "p")
    rp = exchange(S, "p", "reference product", amount=amount)
    rp["production volume"] = {"amount": S.real("pv")}
    if c.get("kind"):
        with_uncertainty(S, "p", rp, c["kind"])
    rest = others(S, c["others"])
    k = c.get("pos", 0)
    ds = dataset("a", rest[:k] + [rp] + rest[k:])
    before = snapshot(ds)
    out = normalize_reference_production_amount(ds) if c.get("log") is None else \
        normalize_reference_production_amount(ds, log=c["log"])
    S.check("normalised", isinstance(out, list) and len(out) == 1)
    f = 1 / abs(amount)
    check_exchanges(S, "normalised", out[0]["exchanges"], [scaled(S, e, f) for e in before["exchanges"]])
    S.eq("normalised", abs(by_id(out[0]["exchanges"])["id-p"]["amount"]), 1)
    S.same("normalised", {a: b for a, b in out[0].items() if a != "exchanges"},
           {a: b for a, b in before.items() if a != "exchanges"})
    S.observe("out", [e["amount"] for e in out[0]["exchanges"]])


def label(S):
    n = S.case["n"]
    data = []
    for d in range(2):
        excs = []
        for i in range(n):
            t = S.choice("t%d.%d" % (d, i), ["reference product", "byproduct", "from technosphere"])
            e = exchange(S, "e%d.%d" % (d, i), t, name="flow %d" % i)
            if t == "byproduct":
                e["byproduct classification"] = "waste"
            excs.append(e)
        data.append(dataset("d%d" % d, excs))
    before = snapshot(data)
    counts = [sum(e["type"] == "reference product" for e in d["exchanges"]) for d in data]
    try:
        out = label_reference_product(data)
    except InvalidMultioutputDataset:
        S.check("multi-output rejected", [x for x in counts if x != 1][0] > 1, counts)
        return
    except ValueError:
        S.check("multi-output rejected", [x for x in counts if x != 1][0] == 0, counts)
        return
    S.check("multi-output rejected", counts == [1, 1], counts)
    S.check("product label", len(out) == 2)
    for o, b in zip(out, before):
        name = [e["name"] for e in b["exchanges"] if e["type"] == "reference product"]
        b["reference product"] = name[0] if len(name) == 1 else None
        S.same("product label", o, b)
        S.check("product label", get_single_reference_product(o)["name"] == name[0])


HARNESSES = {"choose": choose, "zero": zero, "normalise": normalise, "label": label}


def cases(tier):
    out = []
    for prods in ("r", "rb", "rrb", "bW", "rbbb"):
        for pick in range(len(prods)):
            out.append(dict(h="choose", prods=prods, pick=pick, others="tewrf", f=None))
    out.append(dict(h="choose", prods="rb", pick=1, others="te", f=1))
    out.append(dict(h="choose", prods="rb", pick=0, others="td", f=1))
    out.append(dict(h="choose", prods="rbrb", pick=1, others="t", f=None, same=True))
    out.append(dict(h="choose", prods="rb", pick=0, others="tewfdr", f=None, via="factors"))
    for k in ("lognormal", "normal", "triangular", "uniform", "undefined"):
        out.append(dict(h="choose", prods="rb", pick=1, others=["t" + k, "w" + k], f=None))
        out.append(dict(h="normalise", others=["t" + k, "e" + k], pos=1))
        out.append(dict(h="normalise", others="e", kind=k))
    out.append(dict(h="normalise", others="tewfdrtt", pos=3))
    out.append(dict(h="normalise", others="tet", pos=1, log=False))
    out.append(dict(h="normalise", others="", log=True))
    out.append(dict(h="zero"))
    out.append(dict(h="label", n=3))
    if tier == "thorough":
        for a in ("lognormal", "normal", "triangular", "uniform", "undefined"):
            for b in ("lognormal", "normal", "triangular", "uniform", "undefined"):
                out.append(dict(h="choose", prods="rbW", pick=0, others=["t" + a, "w" + b, "e"], f=None))
                out.append(dict(h="normalise", others=["t" + a, "e" + b, "r"], pos=2))
    return out
