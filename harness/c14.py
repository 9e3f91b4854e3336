"""C14: production volumes account for by-products and hard-linked consumption."""
from harness.gen import exchange, dataset, snapshot, is_product
from harness.c06 import kinded
from ocelot.errors import ZeroProduction
from ocelot.transformations import manage_activity_links, add_pv_to_allocatable_byproducts
from ocelot.transformations.activity_links import (add_hard_linked_production_volumes,
                                                   update_transforming_activity_production_volumes)
from ocelot.transformations.utils import get_biggest_pv_to_exchange_ratio

INFO = dict(
    bounds="up to 4 datasets with up to 3 products and 4 links each, including links of several consumers to one product, "
           "several links in one consumer, links to itself and to markets; amounts and production volumes are arbitrary "
           "reals up to 1e12",
    outside="ties in the absolute value of the ratio of production volume to amount with different signs",
    assumptions=["links are valid (C13)", "each consumer has a reference product with a non-zero amount"])
LABELS = ["largest ratio", "no production rejected", "subtracted volume", "volume after links", "markets keep their volume",
          "by-product volume", "given volumes kept", "everything else kept"]


def ratio_of(S, ds):
    """The ratio of production volume to amount that is largest in absolute value."""
    best = None
    for e in ds["exchanges"]:
        if e["type"] != "reference product" or bool(e["amount"] == 0):
            continue
        r = e["production volume"]["amount"] / e["amount"]
        if best is None:
            best = r
        else:
            S.assume(S.any_of([abs(r) != abs(best), r == best]))
            best = r if bool(abs(r) > abs(best)) else best
    return best


def product(S, p, code, name=None, zero=False, any_sign=False):
    e = kinded(S, p, code, name=name or p)
    e["production volume"] = {"amount": 0.0 if zero else S.real(p + ".pv") if any_sign else S.real(p + ".pv", 0)}
    if S.case.get("formulas"):
        e["production volume"].update(formula="x + 1", variable="pv_" + p)
    return e


def ratio(S):
    c = S.case
    excs = [product(S, "r%d" % i, k) for i, k in enumerate(c["products"])] + [kinded(S, "t", "t")]
    if c.get("rev"):
        excs.reverse()
    ds = dataset("d", excs)
    before = snapshot(ds)
    want = ratio_of(S, ds)
    try:
        got = get_biggest_pv_to_exchange_ratio(ds)
    except ZeroProduction:
        S.check("no production rejected", want is None)
        return
    S.check("no production rejected", want is not None)
    if want is not None:
        S.eq("largest ratio", got, want)
    S.same("everything else kept", ds, before)


def consumer(S, p, rps, links, type_="transforming activity"):
    excs = [product(S, p + "r%d" % i, "r") for i in range(rps)]
    if rps == 1:
        S.assume(excs[0]["amount"] != 0)
    else:
        S.assume(S.any_of([e["amount"] != 0 for e in excs]))
    for i, (to, name) in enumerate(links):
        if name == "s":  # its own product
            to, name = "ds-" + p, excs[0]["name"]
        excs.append(kinded(S, p + "l%d" % i, "t", name=name, **{"activity link": to}))
    excs.append(kinded(S, p + "t", "t", name="P"))
    return dataset(p, excs, type=type_, parent=S.text(p + ".parent", ["ds-T", "ds-" + p, ""]))


def links(S):
    c = S.case
    target = dataset("T", [product(S, "P", S.choice("kp", "raW"), "P"), product(S, "Q", "a", "Q"),
                           kinded(S, "loss", "t", name="P")],
                     type=S.choice("tt", ["transforming activity", "market activity", "market group"]))
    if c.get("self"):
        target["exchanges"].append(kinded(S, "own", "t", name="P", **{"activity link": "ds-T"}))
    dss = [target]
    for j, (rps, names) in enumerate(c["consumers"]):
        dss.append(consumer(S, "c%d" % j, rps, [("ds-T", n) for n in names],
                            S.choice("ty", ["transforming activity", "market activity"]) if j == 0 else
                            "transforming activity"))
    if c.get("rev"):
        dss.reverse()
    want = snapshot(dss)
    T = [d for d in want if d["name"] == "T"][0]
    sub = {}
    for d in want:
        if d is T:
            continue
        for e in d["exchanges"]:
            if e.get("activity link") and e["activity link"] != d["id"]:
                sub[e["name"]] = sub.get(e["name"], 0) + e["amount"] * ratio_of(S, d)
    for e in T["exchanges"]:
        if is_product(e) and e["name"] in sub:
            pv = e["production volume"]
            pv["subtracted activity link volume"] = sub[e["name"]]
            if T["type"] == "transforming activity" and not c.get("only_add"):
                pv["original amount"] = pv["amount"]
                left = pv["amount"] - sub[e["name"]]
                pv["amount"] = S.ite(left > 0, left, 0)
    if c.get("only_add"):
        out = add_hard_linked_production_volumes(dss)
    elif c.get("steps"):
        out = update_transforming_activity_production_volumes(add_hard_linked_production_volumes(dss))
    else:
        out = manage_activity_links(dss)
    S.check("everything else kept", len(out) == len(want))
    for a, b in zip(out, want):
        for e, f in zip(a["exchanges"], b["exchanges"]):
            pe, pf = e.get("production volume"), f.get("production volume")
            if pf is None or pe is None:
                continue
            S.check("subtracted volume", ("subtracted activity link volume" in pe) == ("subtracted activity link volume" in pf))
            if "subtracted activity link volume" in pf and "subtracted activity link volume" in pe:
                S.eq("subtracted volume", pe["subtracted activity link volume"], pf["subtracted activity link volume"])
            S.eq("volume after links" if a["type"] == "transforming activity" else "markets keep their volume",
                 pe["amount"], pf["amount"])
    S.same("everything else kept", out, want)


def byproducts(S):
    dss = []
    for j, kinds in enumerate(S.case["sets"]):
        excs = []
        for i, k in enumerate(kinds):
            k = S.choice("k%d%d" % (j, i), "awctr") if k == "?" else k
            e = product(S, "x%d%d" % (j, i), k, any_sign=j == 0)
            if k == "t":
                del e["production volume"]
            excs.append(e)
        S.cut("no reference product") if not any(e["type"] == "reference product" for e in excs) else None
        S.assume(S.any_of([e["amount"] != 0 for e in excs if e["type"] == "reference product"]))
        dss.append(dataset("d%d" % j, excs))
    want = snapshot(dss)
    for d in want:
        for e in d["exchanges"]:
            if e["type"] == "byproduct" and is_product(e) and bool(e["production volume"]["amount"] == 0):
                e["production volume"]["amount"] = abs(e["amount"] * ratio_of(S, d))
                e["filled"] = True
    out = add_pv_to_allocatable_byproducts(dss)
    for a, b in zip(out, want):
        for e, f in zip(a["exchanges"], b["exchanges"]):
            filled = f.pop("filled", False)
            if "production volume" in f:
                S.eq("by-product volume" if filled else "given volumes kept", e["production volume"]["amount"],
                     f["production volume"]["amount"])
    S.same("everything else kept", out, want)


HARNESSES = dict(ratio=ratio, links=links, byproducts=byproducts)


def cases(tier):
    out = [dict(h="ratio", products=k, rev=r) for k, r in (("r", False), ("rr", True), ("raw", False), ("arr", True),
                                                          ("aw", False), ("rrr", False))]
    out += [dict(h="links", consumers=[(1, "P")]), dict(h="links", consumers=[(1, "PP"), (1, "Q")], rev=True),
            dict(h="links", consumers=[(2, "P"), (1, "PQ")], steps=True), dict(h="links", consumers=[(1, "PQPQ")], self=True),
            dict(h="links", consumers=[(1, "P"), (1, "P"), (1, "P")], only_add=True),
            dict(h="links", consumers=[], self=True), dict(h="links", consumers=[(1, "sQs")]),
            dict(h="links", consumers=[(1, "sP"), (1, "s")], only_add=True),
            dict(h="byproducts", sets=["r?"]), dict(h="byproducts", sets=["ra", "?r", "rt"]),
            dict(h="byproducts", sets=["rra"]), dict(h="byproducts", sets=["aarw"]),
           dict(h="byproducts", sets=["rra", "rw"], formulas=True), dict(h="links", consumers=[(1, "PQ")], formulas=True)]
    if tier == "thorough":
        out += [dict(h="links", consumers=[(2, "PQ"), (2, "PQ")]), dict(h="byproducts", sets=["r??", "?r"]),
                dict(h="ratio", products="rrrr", rev=False)]
    return out
