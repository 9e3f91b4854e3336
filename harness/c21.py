"""C21: codes identify datasets, and what cannot be linked is removed."""
from itertools import combinations

from harness.gen import dataset, snapshot, lazy, neg, TYPES
from harness.c06 import kinded
from ocelot.errors import IdenticalDatasets, InvalidMultioutputDataset
from ocelot.transformations.identifying import add_unique_codes
from ocelot.transformations.locations import add_reference_product_codes, log_and_delete_unlinked_exchanges

INFO = dict(
    bounds="up to 3 datasets whose name, reference product, unit, location and dates each take up to 3 values that differ in "
           "case, are missing or are different; up to 4 exchanges of any type, with, without or with an empty code",
    outside="collisions of the hash function",
    assumptions=[])
LABELS = ["same attributes rejected", "accepted", "code per attributes", "code of the product", "linked exchanges kept",
          "everything else kept", "concatenated attributes"]
FIELDS = ("name", "reference product", "unit", "location", "start date", "end date")


def attributes(ds):
    return [ds.get(f, "").lower() for f in FIELDS]


def unique(S):
    c = S.case
    dss = []
    for i in range(c["n"]):
        d = dataset("name", [kinded(S, "x%d" % i, "r")], id="ds-%d" % i, unit="kg", **{"reference product": "product"})
        for f in c["vary"]:
            v = S.text("%s%d" % (f, i), ["same", "Same", "other", "missing"][:c.get("values", 4)])
            if c.get("stale"):
                d["code"] = "stale"
                d["type"] = S.choice("type%d" % i, ["market group", "market activity", "transforming activity"])
            if v == "missing":
                d.pop(f)
            else:
                d[f] = v
        dss.append(d)
    codes(S, dss, "code per attributes")


def codes(S, dss, label):
    before = snapshot(dss)
    same = any(attributes(a) == attributes(b) for a, b in combinations(dss, 2))
    alone = [add_unique_codes(snapshot([d]))[0]["code"] for d in dss]
    try:
        out, raised = add_unique_codes(dss), False
    except IdenticalDatasets:
        out, raised = dss, True
    S.check(label if label[0:4] == "conc" else "same attributes rejected" if raised else "accepted", raised == same)
    if raised:
        return
    S.check("everything else kept", len(out) == len(before))
    codes_ = [d.get("code") for d in out]
    S.check("accepted", [d["code"] for d in add_unique_codes(out)] == codes_)
    got = [d.pop("code", None) for d in out]
    for d in before:
        d.pop("code", None)
    S.check("code per attributes", got == alone and all(isinstance(g, str) and g for g in got))
    S.check("code per attributes", len(set(got)) == len(got))
    S.same("everything else kept", out, before)


def missing(S):
    """Two datasets that differ in one attribute at most, while others may be missing in both."""
    f = S.case["f"]
    there = {g: S.bool("has " + g) if g not in ("name", f) else True for g in FIELDS}
    dss = []
    for i in range(2):
        d = dataset("name", [kinded(S, "x%d" % i, "r")], id="ds-%d" % i, unit="kg", **{"reference product": "product"})
        v = S.text("v%d" % i, ["same", "Same", "other", "same ", " same", "sa me", "same."])
        for g in FIELDS:
            if not there[g]:
                d.pop(g, None)
        d[f] = v
        dss.append(d)
    codes(S, dss, "code per attributes")


def concatenated(S):
    """Attributes that only differ in where one ends and the next begins."""
    dss = []
    for i in range(2):
        name, product = S.choice("np%d" % i, [("steel", "bars"), ("steelb", "ars"), ("steel", "ars")])
        dss.append(dataset(name, [kinded(S, "x%d" % i, "r")], id="ds-%d" % i, unit="kg", **{"reference product": product}))
    codes(S, dss, "concatenated attributes")


def products(S):
    c = S.case
    dss = []
    for j in range(2):
        excs = [lazy(S, "x%d%d" % (j, i), TYPES, name="P") for i in range(c["n"])]
        excs[0]["code"] = "x"
        dss.append(dataset("d%d" % j, excs, id="ds-%d" % j, code="code%d" % j))
    before = snapshot(dss)
    one = []
    for d in dss:
        r = [e["type"] == "reference product" for e in d["exchanges"]]
        one.append(S.any_of([S.all_of([a] + [neg(S, b) for k, b in enumerate(r) if k != i]) for i, a in enumerate(r)]))
    try:
        out, raised = add_reference_product_codes(dss), False
    except (InvalidMultioutputDataset, ValueError):
        raised = True
    S.iff("same attributes rejected" if raised else "accepted", raised, neg(S, S.all_of(one)))
    if raised:
        return
    for d, o in zip(out, before):
        for e, f in zip(d["exchanges"], o["exchanges"]):
            is_rp = f["type"] == "reference product"
            S.iff("code of the product", e.get("code") == d["code"], is_rp)
            S.check("code of the product", S.any_of([is_rp, e.get("code") == f.get("code")]))
            e.pop("code", None), f.pop("code", None)
    S.same("everything else kept", out, before)


def delete(S):
    c = S.case
    dss = []
    for j in range(2):
        excs = []
        for i in range(c["n"] if j == 0 else 2):
            p = "x%d%d" % (j, i)
            e = lazy(S, p, TYPES, **({"name": "same"} if c.get("same") else {}))
            k = S.choice(p + ".code", ["none", "", "c"])
            if k != "none":
                e["code"] = k
            if i == j:
                e["activity link"] = "somewhere"
            excs.append(e)
        dss.append(dataset("d%d" % j, excs, id="ds-%d" % j))
        if not j:
            dss[0]["code"] = "code"
    before = snapshot(dss)
    out = log_and_delete_unlinked_exchanges(dss)
    S.check("everything else kept", len(out) == len(before))
    for d, o in zip(out, before):
        left = [e["id"] for e in d["exchanges"]]
        S.check("everything else kept", left == [e["id"] for e in o["exchanges"] if e["id"] in left])
        for f in o["exchanges"]:
            S.iff("linked exchanges kept", f["id"] not in left, S.all_of([f["type"] == "from technosphere", not f.get("code")]))
        o["exchanges"] = [e for e in o["exchanges"] if e["id"] in left]
    S.same("everything else kept", out, before)


HARNESSES = dict(missing=missing, unique=unique, concatenated=concatenated, products=products, delete=delete)


def cases(tier):
    out = [dict(h="unique", n=2, vary=[f]) for f in FIELDS]
    out += [dict(h="missing", f=f) for f in FIELDS]
    out += [dict(h="unique", n=3, vary=["name", "location"], values=3), dict(h="unique", n=3, vary=["end date"]),
            dict(h="unique", n=2, vary=["reference product", "unit", "start date"], values=3), dict(h="unique", n=1, vary=["name"]),
            dict(h="unique", n=2, vary=["location"], stale=True), dict(h="concatenated"), dict(h="products", n=3), dict(h="delete", n=2),
            dict(h="delete", n=2, same=True)]
    if tier == "thorough":
        out += [dict(h="unique", n=3, vary=["name", "unit"]), dict(h="products", n=4), dict(h="delete", n=3)]
    return out
