"""C05: subdivision of combined production."""
from harness.gen import (exchange, prop, dataset, snapshot, away_from_one, dropped, check_dataset, single_output,
                         economic_shares, recycled, chosen, is_product, check_apart)
from copy import deepcopy
from ocelot.errors import InvalidExchange
from ocelot.transformations.cutoff.combined import (combined_production, combined_production_with_byproducts,
                                                    combined_production_without_products, merge_byproducts)

INFO = dict(
    bounds="2 to 4 reference products (up to 3 with byproducts), up to 2 byproducts and 2 inputs whose amounts are "
           "symbolic linear functions of the products' variables; merging of up to 4 datasets; arbitrary reals up to 1e12",
    outside="non-linear parameterisation (see C12 for recalculation itself)",
    assumptions=["every reference product carries a variable", "amounts and coefficients of products are positive",
                 "product amounts are one or at least 1e-6 away from one"])
LABELS = ["subdivision", "input untouched", "with byproducts", "without products", "number of datasets", "merge",
          "merge refused", "independent datasets"]


def build(S, rps, byp, inputs, sign=1):
    """Returns (dataset, {variable: amount}, {id: coefficients})."""
    c = S.case
    excs, amounts, coef, pars = [], {}, {}, []
    for i, cls in enumerate(rps):
        p = "r%d" % i
        a = away_from_one(S, sign * S.pos(p))
        if i in c.get("zero", ()):
            a = 0.0
        e = exchange(S, p, "reference product", amount=a, variable="v%d" % i)
        if cls:
            e["byproduct classification"] = cls
        e["production volume"] = {"amount": S.real(p + ".pv", 0)}
        e["properties"] = [prop("price", S.pos(p + ".price"))]
        if c.get("fields"):
            e["formula"] = "0.5 + 0.5"
            e["uncertainty"] = {"type": "undefined", "minimum": S.real(p + ".u"), "maximum": 1.0}
        amounts["v%d" % i] = a
        excs.append(e)

    def formula(p, positive):
        cs = {}
        for v in amounts:
            k = "k_%s_%s" % (p, v)
            cs[v] = S.pos(k) if positive else S.real(k)
            pars.append({"name": k, "id": k, "variable": k, "amount": sign * cs[v] if positive else cs[v], "unit": "kg"})
        coef["id-" + p] = cs
        return " + ".join("k_%s_%s * %s" % (p, v, v) for v in amounts)
    for i, cls in enumerate(byp):
        p = "b%d" % i
        e = exchange(S, p, "byproduct", formula=formula(p, cls == "allocatable product"))
        e["byproduct classification"] = cls
        e["properties"] = [prop("price", S.pos(p + ".price"))]
        e["production volume"] = {"amount": S.real(p + ".pv", 0)}
        excs.append(e)
    for i, t in enumerate(inputs):
        p = "x%d" % i
        excs.insert(i if c.get("mixed") else len(excs), exchange(S, p, t, formula=formula(p, False)))
    excs.append(exchange(S, "fix", "to environment"))
    return dataset("a", excs, parameters=pars), amounts, coef


def subdivide(S, ds, amounts, coef):
    """Reference: the subdivided datasets."""
    out = []
    for rp in ds["exchanges"]:
        if rp["type"] != "reference product" or bool(rp["amount"] == 0):
            continue
        new = deepcopy({k: v for k, v in ds.items() if k != "exchanges"})
        new["exchanges"] = []
        v = rp["variable"]
        for e in ds["exchanges"]:
            if e is rp:
                e = deepcopy(e)
                e.pop("formula", None)
                e.pop("uncertainty", None)
            elif e["type"] == "reference product":
                e = dropped(e)
            else:
                e = deepcopy(e)
                if e["id"] in coef:
                    par = {p["variable"]: p["amount"] for p in ds["parameters"]}
                    e["amount"] = par["k_%s_%s" % (e["id"][3:], v)] * amounts[v]
            new["exchanges"].append(e)
        out.append(new)
    return out


def plain(S):
    c = S.case
    ds, amounts, coef = build(S, c["rps"], c["byp"], c["inputs"])
    before = snapshot(ds)
    out = combined_production(ds)
    S.same("input untouched", ds, before)
    ref = subdivide(S, ds, amounts, coef)
    S.check("number of datasets", len(out) == len(ref), len(out))
    check_apart(S, "independent datasets", ds, *out)
    for o, r in zip(out, ref):
        check_dataset(S, "subdivision", o, r)
    S.observe("out", [[e["amount"] for e in o["exchanges"]] for o in out])


def with_byproducts(S):
    c = S.case
    ds, amounts, coef = build(S, c["rps"], c["byp"], c["inputs"])
    out = combined_production_with_byproducts(ds)
    groups = {}
    for sub in subdivide(S, ds, amounts, coef):
        for e, share in economic_shares(sub):
            if e["id"].startswith("id-b"):
                away_from_one(S, e["amount"])
            groups.setdefault(e["id"], []).append(single_output(S, sub, e, share))
    check_apart(S, "independent datasets", ds, *out)
    S.check("number of datasets", len(out) == len(groups), "%d datasets instead of %d" % (len(out), len(groups)))
    for o in out:
        rp = [e["id"] for e in o["exchanges"] if e["type"] == "reference product"]
        S.check("number of datasets", len(rp) == 1 and rp[0] in groups, rp)
        group = groups[rp[0]]
        exp = group[0]
        for e in exp["exchanges"]:
            e["amount"] = sum(x["amount"] for g in group for x in g["exchanges"] if x["id"] == e["id"])
        check_dataset(S, "with byproducts", o, exp)


def without_products(S):
    c = S.case
    ds, amounts, coef = build(S, c["rps"], c["byp"], c["inputs"], sign=-1)
    if c.get("fields"):
        ds["name"] = "digestion, from cattle, from farms"
    name = ds["name"]
    out = combined_production_without_products(ds)
    check_apart(S, "independent datasets", ds, *out)
    ref = []
    for sub in subdivide(S, ds, amounts, coef):
        rp = [e for e in sub["exchanges"] if e["type"] == "reference product"][0]
        for e in sub["exchanges"]:
            if is_product(e) and e is not rp:
                away_from_one(S, e["amount"])
        if rp["byproduct classification"] == "waste":
            ref.append(single_output(S, sub, rp, 1))
            for e in sub["exchanges"]:
                if is_product(e) and e is not rp:
                    free = deepcopy({k: v for k, v in sub.items() if k != "exchanges"})
                    free["exchanges"] = [chosen(S, e)]
                    ref.append(free)
        else:
            sub["name"] = name + ", from " + rp["name"]
            r = recycled(S, sub)
            ref.extend(single_output(S, r, e, share) for e, share in economic_shares(r))
    S.check("number of datasets", len(out) == len(ref), "%d datasets instead of %d" % (len(out), len(ref)))
    for o, r in zip(out, ref):
        check_dataset(S, "without products", o, r)


def merge(S):
    """Datasets with the same name and product are added up, all others are kept."""
    n = S.case["n"]
    data, key = [], []
    for i in range(n):
        name = S.choice("n%d" % i, ["a", "b"])
        prod = S.choice("p%d" % i, ["x", "y"])
        excs = [exchange(S, "d%d.rp" % i, "reference product", name=prod)]
        for j, flow in enumerate(["u", "v"]):
            if j == 0 or S.case["extra"][i]:
                excs.append(exchange(S, "d%d.%s" % (i, flow), "from technosphere", name=flow))
        for e in excs:
            e["id"] = e["name"]
        byp = exchange(S, "d%d.w" % i, "byproduct", name="w")
        byp["id"] = "w"
        byp["byproduct classification"] = "waste"
        excs.append(byp)
        data.append(dataset(name, excs))
        key.append((name, prod))
    before = snapshot(data)
    out = list(merge_byproducts(data))
    order = []
    for k in key:
        if k not in order:
            order.append(k)
    S.check("merge", len(out) == len(order), "%d datasets instead of %d" % (len(out), len(order)))
    found = {(o["name"], [e["name"] for e in o["exchanges"] if e["type"] == "reference product"][0]): o for o in out}
    S.check("merge", set(found) == set(order))
    for k in order:
        members = [d for d, kk in zip(before, key) if kk == k]
        exp = members[0]
        for e in exp["exchanges"]:
            e["amount"] = sum(x["amount"] for m in members for x in m["exchanges"] if x["id"] == e["id"])
        check_dataset(S, "merge", found[k], exp)


def merge_refused(S):
    data, bad = [], False
    for i in range(2):
        excs = [exchange(S, "d%d.rp" % i, "reference product", name="x")]
        cls = S.choice("c%d" % i, ["waste", "recyclable", "allocatable product"])
        b = exchange(S, "d%d.b" % i, "byproduct", name="b")
        b["byproduct classification"] = cls
        bad = bad or cls == "allocatable product"
        data.append(dataset("a", excs + [b]))
    try:
        list(merge_byproducts(data))
        raised = False
    except InvalidExchange:
        raised = True
    S.check("merge refused", raised == bad, "%s %s" % (raised, bad))


HARNESSES = {"plain": plain, "with_byproducts": with_byproducts, "without_products": without_products,
             "merge": merge, "merge_refused": merge_refused}

AP, W, R = "allocatable product", "waste", "recyclable"


def cases(tier):
    T, E = "from technosphere", "to environment"
    out = [dict(h="plain", rps=[AP, AP], byp=[], inputs=[T, E]),
           dict(h="plain", rps=[AP, AP, AP], byp=[W], inputs=[T], fields=True, mixed=True),
           dict(h="plain", rps=[AP, None, AP, AP], byp=[AP], inputs=[E]),
           dict(h="plain", rps=[AP, AP, AP], byp=[], inputs=[T], zero=[1]),
           dict(h="plain", rps=[AP, AP], byp=[], inputs=[T], zero=[0], fields=True),
           dict(h="with_byproducts", rps=[AP, AP], byp=[AP], inputs=[T]),
           dict(h="with_byproducts", rps=[AP, AP], byp=[AP, W], inputs=[E], fields=True, mixed=True),
           dict(h="with_byproducts", rps=[AP, AP, AP], byp=[AP], inputs=[]),
           dict(h="with_byproducts", rps=[AP, AP, AP], byp=[AP], inputs=[], zero=[2]),
           dict(h="without_products", rps=[R, W], byp=[AP], inputs=[T]),
           dict(h="without_products", rps=[R, R, W], byp=[AP, R], inputs=[], fields=True),
           dict(h="without_products", rps=[W, R, W], byp=[AP], inputs=[]),
           dict(h="merge", n=2, extra=[1, 0]), dict(h="merge", n=3, extra=[1, 1, 1]),
           dict(h="merge", n=4, extra=[0, 0, 0, 0]), dict(h="merge_refused")]
    if tier == "thorough":
        out += [dict(h="with_byproducts", rps=[AP, AP], byp=[AP, AP], inputs=[T]),
                dict(h="with_byproducts", rps=[AP, AP, AP], byp=[AP], inputs=[T, E]),
                dict(h="without_products", rps=[R, R, W, R], byp=[AP, AP], inputs=[T]),
                dict(h="merge", n=5, extra=[1, 0, 1, 0, 1])]
    return out
