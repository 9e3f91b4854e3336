"""C22: consequential markets only use the most modern suppliers."""
from harness.gen import dataset, snapshot, neg
from harness.c06 import kinded
from ocelot.errors import MissingAlternativeProducer
from ocelot.transformations.consequential import (ensure_byproducts_have_alternative_production,
                                                  prune_suppliers_by_technology_level)
from ocelot.transformations.consequential.technology_levels import (cleanup_technology_levels, switch_undefined_to_current,
                                                                    log_conflicting_technology_levels)

INFO = dict(
    bounds="up to 3 datasets of any type with up to 4 suppliers; technology levels, types, names of exchanges and reference "
           "products are symbolic finite-domain strings; amounts are arbitrary reals up to 1e12",
    outside="markets that decrease (documented as not handled by the code)",
    assumptions=["every supplier has a technology level"])
LABELS = ["most modern level only", "no suitable supplier rejected", "accepted", "other datasets kept", "undefined becomes current",
          "everything else kept", "missing alternative rejected", "conflicts are only logged"]
LEVELS = ("new", "modern", "current", "old", "outdated")


def prune(S):
    c = S.case
    dss = []
    for j, n in enumerate(c["suppliers"]):
        ds = dataset("m%d" % j, [kinded(S, "r%d" % j, "r")], type=S.text("type%d" % j, c["types"]),
                     **{"technology level": "undefined", "code": "m%d" % j})
        if n is not None:
            ds["suppliers"] = [dict(kinded(S, "s%d%d" % (j, i), "r"), code="s%d%d" % (j, i), **{
                "technology level": S.text("l%d%d" % (j, i), c["levels"]) if i < c.get("free", 9) else c["levels"][-1]}) for i in range(n)]
        dss.append(ds)
    before = snapshot(dss)
    market = [S.any_of([d["type"] == "market activity", d["type"] == "market group"]) for d in before]
    fits = {}
    for j, d in enumerate(before):
        for i, s in enumerate(d.get("suppliers", [])):
            l = s["technology level"]
            fits[j, i] = S.all_of([l != "undefined"] + [
                neg(S, S.any_of([S.all_of([o["technology level"] == h, S.any_of([l == k for k in LEVELS[r + 1:]])])
                                 for r, h in enumerate(LEVELS)])) for o in d["suppliers"]])
    fail = S.any_of([S.all_of([market[j]] + [s["technology level"] == "undefined" for s in d["suppliers"]])
                     for j, d in enumerate(before) if d.get("suppliers")])
    try:
        out, raised = prune_suppliers_by_technology_level(dss), False
    except AssertionError:
        out, raised = dss, True
    S.iff("no suitable supplier rejected" if raised else "accepted", raised, fail)
    if raised:
        return
    S.check("everything else kept", len(out) == len(before))
    for j, (d, o) in enumerate(zip(out, before)):
        S.check("everything else kept", ("suppliers" in d) == ("suppliers" in o))
        if "suppliers" not in o:
            continue
        left = [s["id"] for s in d["suppliers"]]
        S.check("everything else kept", left == [s["id"] for s in o["suppliers"] if s["id"] in left])
        for i, s in enumerate(o["suppliers"]):
            S.iff("most modern level only" if s["id"] in left else "other datasets kept", s["id"] in left,
                  S.any_of([neg(S, market[j]), fits[j, i]]))
        o["suppliers"] = [s for s in o["suppliers"] if s["id"] in left]
    S.same("everything else kept", out, before)


def switch(S):
    dss = []
    for j in range(S.case["n"]):
        dss.append(dataset("d%d" % j, [kinded(S, "r%d" % j, "r")], type=S.text("type%d" % j, [
            "transforming activity", "market activity", "market group"]),
            **{"technology level": S.text("l%d" % j, ("undefined",) + LEVELS[1:4]),
               "reference product": S.text("rp%d" % j, ["A", "B"]),
               "access restricted": S.text("ar%d" % j, ["public", "licensees", "results only", "restricted"])}))
    before = snapshot(dss)
    how = S.case["how"]
    if how == "log":
        S.same("conflicts are only logged", log_conflicting_technology_levels(dss), before)
        return
    out = (cleanup_technology_levels if how == "collection" else switch_undefined_to_current)(dss)
    S.check("everything else kept", len(out) == len(before))
    for d, o in zip(out, before):
        change = S.all_of([o["type"] == "transforming activity", o["technology level"] == "undefined"])
        S.check("undefined becomes current", S.any_of([neg(S, change), d["technology level"] == "current"]))
        S.check("everything else kept", S.any_of([change, d["technology level"] == o["technology level"]]))
        d["technology level"] = o["technology level"]
    S.same("everything else kept", out, before)


def alternatives(S):
    dss = []
    for j, n in enumerate(S.case["sets"]):
        excs = []
        for i in range(n):
            e = kinded(S, "x%d%d" % (j, i), "a")
            e["type"] = S.text("t%d%d" % (j, i), S.case["types"])
            e["name"] = S.text("n%d%d" % (j, i), ["A", "B", "a"])
            e["byproduct classification"] = S.text("b%d%d" % (j, i), ["allocatable product", "waste", "recyclable"])
            if i:
                e["activity link"], e["conditional exchange"] = "ds-d0", S.bool("c%d%d" % (j, i))
            excs.append(e)
        dss.append(dataset("d%d" % j, excs))
    before = snapshot(dss)
    every = [e for d in before for e in d["exchanges"]]
    missing = S.any_of([S.all_of([e["type"] == "byproduct"] + [
        S.any_of([o["type"] != "reference product", o["name"] != e["name"]]) for o in every]) for e in every])
    try:
        out, raised = ensure_byproducts_have_alternative_production(dss), False
    except MissingAlternativeProducer:
        out, raised = dss, True
    S.iff("missing alternative rejected" if raised else "accepted", raised, missing)
    S.same("everything else kept", out, before)


HARNESSES = dict(prune=prune, switch=switch, alternatives=alternatives)


def cases(tier):
    T = ("market activity", "market group", "transforming activity")
    ALL = LEVELS + ("undefined",)
    X = ("reference product", "byproduct", "dropped product", "from technosphere")
    out = [dict(h="prune", suppliers=[2], types=T, levels=ALL), dict(h="prune", suppliers=[3], types=T[:1], levels=ALL),
           dict(h="prune", suppliers=[1, 0, None], types=T, levels=ALL[1:4] + ALL[5:]),
           dict(h="prune", suppliers=[0, 1], types=T[:1], levels=ALL[1:3] + ALL[5:]), dict(h="prune", suppliers=[None, 2], types=T[:1], levels=ALL[1:3] + ALL[5:]),
           dict(h="prune", suppliers=[2, 2], types=T[:1], levels=(LEVELS[0], LEVELS[4], "undefined")),
           dict(h="prune", suppliers=[2, 1], types=T[1:], levels=(LEVELS[1], LEVELS[3])),
           dict(h="prune", suppliers=[7], free=2, types=T[:1], levels=ALL[1:5]),
           dict(h="switch", n=3, how="plain"), dict(h="switch", n=2, how="collection"), dict(h="switch", n=2, how="log"),
           dict(h="alternatives", sets=[2], types=X), dict(h="alternatives", sets=[1, 2], types=X[:2]),
           dict(h="alternatives", sets=[1, 1], types=X)]
    if tier == "thorough":
        out += [dict(h="prune", suppliers=[4], types=T[:1], levels=ALL), dict(h="prune", suppliers=[3], types=T, levels=ALL),
                dict(h="alternatives", sets=[2, 2], types=X[:2])]
    return out
