"""C03: the allocation method is chosen by the documented decision tree, and
cut-off allocation applies exactly that method to each dataset."""
from harness.gen import (exchange, prop, dataset, snapshot, away_from_one, check_waste, check_economic, recycled,
                         dropped, check_exchanges, check_single_output)
from harness import c05
from ocelot.transformations.cutoff.combined import (combined_production, combined_production_with_byproducts,
                                                    combined_production_without_products)
from ocelot.transformations.cutoff.allocation import choose_allocation_method, cutoff_allocation, \
    label_allocation_method

INFO = dict(
    bounds="decision tree: up to 3 exchanges with symbolic kind (9 kinds), conditional flag and arbitrary real amount, "
           "for each of the 4 activity types, plus 5- and 6-exchange activities of chosen kinds; allocation: one "
           "dataset of each method between two bystanders, symbolic amounts and prices",
    outside="larger activities; the amounts after combined production (see C05); single multi-output activities whose "
            "reference products carry different classifications and negative amounts",
    assumptions=["zero-amount reference products are not classified as allocatable products",
                 "product amounts are one or at least 1e-6 away from one"])
LABELS = ["method", "labelled", "bystanders", "no leftover label", "no allocation", "constrained market", "economic",
          "recycling", "waste treatment", "exactly one product", "combined production"]

KINDS = ["Ra", "Rw", "Rr", "R-", "Ba", "Bw", "Br", "t", "e"]
CLS = {"a": "allocatable product", "w": "waste", "r": "recyclable"}


def make(S, p, kind, amount=None, cond=False):
    t = {"R": "reference product", "B": "byproduct", "t": "from technosphere", "e": "to environment"}[kind[0]]
    e = exchange(S, p, t, amount=amount)
    if len(kind) > 1 and kind[1] in CLS:
        e["byproduct classification"] = CLS[kind[1]]
    if cond:
        e["conditional exchange"] = True
        e["activity link"] = "some-id"
    return e


def reference(S, ds):
    rps = [e for e in ds["exchanges"] if e["type"] == "reference product" and bool(e["amount"] != 0)]
    byp = [e for e in ds["exchanges"] if e["type"] == "byproduct" and
           e["byproduct classification"] == "allocatable product" and bool(e["amount"] != 0)]
    if len(rps) == 1 and not byp:
        return "single product"
    if ds["type"] == "market group":
        return "market group"
    if ds["type"] == "market activity":
        return "constrained market" if any(e.get("conditional exchange") for e in ds["exchanges"]) \
            else "unconstrained market"
    if len(rps) > 1:
        if not any(e.get("byproduct classification") == "allocatable product" for e in rps):
            return "combined production without products"
        if byp:
            return "combined production with byproducts"
        if ds["name"] == "rare earth oxides production from bastnäsite concentrate":
            return "economic"
        return "combined production"
    if rps and bool(rps[0]["amount"] < 0):
        return "waste treatment" if rps[0].get("byproduct classification") == "waste" else "recycling"
    return "economic"


def tree(S):
    c = S.case
    excs = []
    for i in range(c["n"]):
        kind = c["kinds"][i] if c.get("kinds") else S.choice("k%d" % i, KINDS)
        cond = i in c.get("cond", ()) and S.bool("cond%d" % i)
        e = make(S, "e%d" % i, kind, None, cond)
        if kind == "Ra":
            S.assume(e["amount"] != 0)
        excs.append(e)
    ds = dataset(c.get("name", "a"), excs, type=c["type"])
    before = snapshot(ds)
    expected = reference(S, ds)
    if c.get("via"):
        other = dataset("b", [make(S, "o", "Ra", 1.0)], type="market activity")
        ob = snapshot(other)
        out = label_allocation_method([ds, other])
        S.same("labelled", out, [dict(before, **{"allocation method": expected}),
                                 dict(ob, **{"allocation method": "single product"})])
    else:
        got = choose_allocation_method(ds)
        S.check("method", got == expected, "%s instead of %s" % (got, expected))
        S.same("method", ds, before)


def single(S, d):
    return dataset("bystander %s" % d, [exchange(S, d + ".rp", "reference product", amount=S.nonzero(d + ".rp")),
                                        exchange(S, d + ".x", "from technosphere")])


def allocate(S):
    c = S.case
    kind = c["kind"]
    excs = []
    for i, code in enumerate(c["kinds"]):
        p = "e%d" % i
        sign = -1 if (kind in ("recycling", "waste treatment") and code[0] == "R") else 1
        cond = code.endswith("!")
        code = code.rstrip("!")
        if code[0] in "RB" and code != "Bw" and not cond and kind not in ("single product", "unconstrained market",
                                                                          "market group", "constrained market"):
            amount = away_from_one(S, sign * S.pos(p))
        else:
            amount = S.nonzero(p)
        if kind == "single product" and code == "Ba":
            amount = 0.0
        e = make(S, p, code, amount, cond)
        if code[0] in "RB":
            e["properties"] = [prop("price", S.pos(p + ".price"))]
            e["production volume"] = {"amount": S.real(p + ".pv", 0)}
        excs.append(e)
    ds = dataset("a", excs, type=c.get("type", "transforming activity"))
    a, b = single(S, "a"), single(S, "b")
    before, ba, bb = snapshot(ds), snapshot(a), snapshot(b)
    out = cutoff_allocation([a, ds, b])
    ok = len(out) >= 3 and all(isinstance(o, dict) for o in out)
    S.check("bystanders", ok, "%s" % [type(o) for o in out])
    if not ok:
        return
    S.same("bystanders", out[0], ba)
    S.same("bystanders", out[-1], bb)
    for o in out:
        S.check("no leftover label", "allocation method" not in o)
        n = [e for e in o["exchanges"] if e["type"] == "reference product"]
        S.check("exactly one product", len(n) == 1, "%d products" % len(n))
    mid = out[1:-1]
    if kind in ("single product", "unconstrained market", "market group"):
        S.same("no allocation", mid, [before])
    elif kind == "constrained market":
        S.check("constrained market", len(mid) == 1, len(mid))
        exp = [dropped(e) if e.get("conditional exchange") else e for e in before["exchanges"]]
        check_exchanges(S, "constrained market", mid[0]["exchanges"], exp)
        S.same("constrained market", {k: v for k, v in mid[0].items() if k != "exchanges"},
               {k: v for k, v in before.items() if k != "exchanges"})
    else:
        # inside the collection the label is still attached
        ref = before
        if kind == "economic":
            check_economic(S, kind, mid, ref)
        elif kind == "recycling":
            check_economic(S, kind, mid, recycled(S, ref))
        else:
            check_waste(S, kind, mid, ref)


def combined(S):
    """Combined production inside the collection: exactly the function of the chosen method (see C05), nothing more."""
    c = S.case
    method = c["method"]
    ds = c05.build(S, c["rps"], c["byp"], c["inputs"], sign=-1 if method.endswith("without products") else 1)[0]
    if c.get("byp0"):
        for e in ds["exchanges"]:
            if e["type"] == "byproduct":
                S.assume(e["amount"] != 0)
    a, b = single(S, "a"), single(S, "b")
    ba, bb = snapshot(a), snapshot(b)
    want = COMBINED[method](dict(snapshot(ds), **{"allocation method": method}))
    out = cutoff_allocation([a, ds, b])
    S.check("method", len(out) == len(want) + 2, "%d datasets instead of %d" % (len(out) - 2, len(want)))
    S.same("bystanders", out[0], ba)
    S.same("bystanders", out[-1], bb)
    for o in out:
        S.check("no leftover label", "allocation method" not in o)
        n = [e for e in o["exchanges"] if e["type"] == "reference product"]
        S.check("exactly one product", len(n) == 1, "%d products" % len(n))
    for o, w in zip(out[1:-1], want):
        w = {k: v for k, v in w.items() if k != "allocation method"}
        S.same("combined production", o, w)


COMBINED = {"combined production": combined_production,
            "combined production with byproducts": combined_production_with_byproducts,
            "combined production without products": combined_production_without_products}

HARNESSES = {"tree": tree, "allocate": allocate, "combined": combined}

T = ["transforming activity", "market activity", "market group", "foo activity"]


def cases(tier):
    out = []
    for t in T[:3]:
        for n in (1, 2):
            out.append(dict(h="tree", n=n, type=t, cond=[0, 1]))
    out.append(dict(h="tree", n=3, type=T[0], cond=[]))
    out.append(dict(h="tree", n=3, type=T[0], cond=[1], kinds=["Ra", "Ba", "Bw"]))
    out.append(dict(h="tree", n=3, type=T[1], cond=[1, 2], kinds=["Ra", "Ba", "Ba"]))
    out.append(dict(h="tree", n=3, type=T[2], cond=[1], kinds=["Ra", "Ba", "t"]))
    out.append(dict(h="tree", n=2, type=T[0], name="rare earth oxides production from bastnäsite concentrate"))
    out.append(dict(h="tree", n=6, type=T[0], kinds=["Ra", "Rw", "Ba", "Br", "t", "e"]))
    out.append(dict(h="tree", n=6, type=T[0], kinds=["t", "Rw", "Rr", "Bw", "Ba", "Ba"]))
    out.append(dict(h="tree", n=5, type=T[0], kinds=["t", "e", "Ra", "Bw", "Br"]))
    out.append(dict(h="tree", n=5, type=T[1], kinds=["Ba", "t", "Ra", "Bw", "Ba"], cond=[0, 4]))
    out.append(dict(h="tree", n=3, type=T[0], kinds=["Ra", "Ra", "Ra"]))
    out.append(dict(h="tree", n=2, type=T[0], via=True))
    out.append(dict(h="tree", n=2, type=T[1], via=True, cond=[1]))
    A = [("single product", ["R-", "t", "Bw"], 0), ("single product", ["Ra", "Ba", "e"], 0),
         ("market group", ["Ra", "Bw", "t"], 2), ("unconstrained market", ["Ra", "t"], 1),
         ("unconstrained market", ["Rw", "Bw", "e"], 1),
         ("constrained market", ["Ra", "Ba!", "t"], 1), ("constrained market", ["t", "Ba!", "Ra", "Ba!", "Bw"], 1),
         ("economic", ["Ra", "Ba", "t"], 0), ("economic", ["t", "Ba", "Ra", "Bw"], 0),
         ("recycling", ["Rr", "Ba", "t"], 0), ("recycling", ["Ba", "Ra", "e"], 0), ("recycling", ["R-", "Ba", "Ba"], 0),
         ("waste treatment", ["Rw", "Ba", "t"], 0), ("waste treatment", ["Ba", "t", "Rw", "Ba", "Bw"], 0)]
    for kind, kinds, t in A:
        out.append(dict(h="allocate", kind=kind, kinds=kinds, type=T[t]))
    AP, W, R = "allocatable product", "waste", "recyclable"
    out += [dict(h="combined", method="combined production", rps=[AP, AP], byp=[], inputs=["from technosphere"]),
            dict(h="combined", method="combined production", rps=[AP, AP, AP], byp=[W], inputs=[]),
            dict(h="combined", method="combined production with byproducts", rps=[AP, AP], byp=[AP], byp0=True,
                 inputs=["to environment"]),
            dict(h="combined", method="combined production without products", rps=[R, W], byp=[AP],
                 inputs=["from technosphere"])]
    if tier == "thorough":
        for t in T:
            out.append(dict(h="tree", n=3, type=t, cond=[0, 1, 2]))
        out.append(dict(h="tree", n=4, type=T[0], cond=[]))
    return out
