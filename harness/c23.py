"""C23: constrained markets and multi-output activities in the consequential model."""
from harness.gen import dataset, snapshot, neg, scaled, with_uncertainty, dropped, UNCERTAINTY, check_dataset
from harness.c06 import kinded, FORMULAS
from ocelot.errors import InvalidMultioutputDataset
from ocelot.transformations.consequential import (delete_activity_links_to_constrained_markets, handle_constrained_markets,
                                                  split_combined_production)

INFO = dict(
    bounds="up to 2 constrained markets with up to 2 conditional exchanges each, their targets with up to 3 exchanges, and a "
           "bystander; names, types and link targets are symbolic finite-domain strings; amounts are arbitrary reals up to "
           "1e12; all supported uncertainty kinds; formulas with up to 2 variables",
    outside="two conditional exchanges that lead to the same activity; activities that already make the constrained product as "
            "their reference product",
    assumptions=["activity links are valid (C13)"])
LABELS = ["conditional exchange becomes input", "old product becomes input", "input becomes product", "formula negated",
          "no matching input rejected", "accepted", "everything else kept", "links to constrained activities removed",
          "other links kept", "split by reference product", "single products kept"]


def negated(S, old, new, type_, label):
    """``new`` is ``old`` times minus one, with another type."""
    want = scaled(S, old, -1)
    want["type"] = type_
    if "formula" in old:
        got, env = new.get("formula"), {k: S.real("%s.%s" % (old["id"], k)) for k in "pq"}
        S.check("formula negated", isinstance(got, str))
        if isinstance(got, str):
            S.eq("formula negated", eval(got, {}, dict(env)), -eval(old["formula"], {}, dict(env)))
        want["formula"] = got
    return want


def extras(S, p, e):
    c = S.case
    if c.get("formula"):
        e["formula"], e["variable"] = S.choice(p + ".f", FORMULAS), "z" + p
    if c.get("unc"):
        with_uncertainty(S, p, e, S.choice(p + ".u", UNCERTAINTY))
    return e


def handle(S):
    c = S.case
    markets, targets, pairs = [], [], []
    for j, n in enumerate(c["markets"]):
        excs = [kinded(S, "m%d" % j, "r", name="P%d" % j)]
        for i in range(n):
            p = "c%d%d" % (j, i)
            e = extras(S, p, kinded(S, p, "a", name="P%d" % j if not i else "P", **{"activity link": "DS-t%d%d" % (j, i),
                                                                              "conditional exchange": True}))
            excs.append(e)
            t = []
            for k in range(c.get("inputs", 1)):
                x = kinded(S, "%s.%d" % (p, k), "t")
                if len(pairs) == c.get("probe", 0):
                    x["type"] = S.text("type%d" % k, c["types"])
                    x["name"] = S.text("name%d" % k, [e["name"], "Q"] + ["R"] * bool(k))
                    if not k:
                        x["byproduct classification"] = S.text("class", ["waste", "recyclable", "allocatable product"])
                else:
                    x["name"] = e["name"] if not k else "Q"
                t.append(extras(S, "%s.%d" % (p, k), x))
            r = extras(S, p + "r", kinded(S, p + "r", "r", name="R%d%d" % (j, i)))
            r["production volume"] = {"amount": S.real(p + ".pv", 0)}
            t.insert(S.choice(p + ".at", [0, len(t)]) if len(pairs) == c.get("probe", 0) else 0, r)
            targets.append(dataset("t%d%d" % (j, i), t, id="DS-t%d%d" % (j, i)))
            pairs.append((e["id"], targets[-1]["id"]))
        excs.append(kinded(S, "o%d" % j, "a", name="P%d" % j, **{"conditional exchange": False, "activity link": "ds-by"}))
        markets.append(dataset("m%d" % j, excs, type="market activity"))
    by = dataset("by", [kinded(S, "by%d" % i, k, name="P0") for i, k in enumerate("rt")])
    dss = markets + targets + [by] if not c.get("rev") else [by] + targets + markets
    before = snapshot(dss)
    probe = [d for d in before if d["id"] == pairs[c.get("probe", 0)][1]][0]
    name = [e["name"] for d in before for e in d["exchanges"] if e["id"] == pairs[c.get("probe", 0)][0]][0]
    rps = [e["type"] == "reference product" for e in probe["exchanges"]]
    one = S.all_of([neg(S, r) for r, e in zip(rps, probe["exchanges"]) if "r" not in e["id"][3:]])
    match = [S.all_of([e["name"] == name]) for e in probe["exchanges"]]
    ok = S.all_of([one, S.any_of([S.all_of(
        [m, probe["exchanges"][i]["type"] == "from technosphere"] + [neg(S, o) for k, o in enumerate(match) if k != i])
        for i, m in enumerate(match)])])
    try:
        out, raised = handle_constrained_markets(dss), False
    except (AssertionError, InvalidMultioutputDataset):
        out, raised = dss, True
    S.iff("no matching input rejected" if raised else "accepted", raised, neg(S, ok))
    if raised:
        return
    S.check("everything else kept", len(out) == len(before))
    new = {e["id"]: e for d in out for e in d["exchanges"]}
    for d in before:
        for e in d["exchanges"]:
            n = new.get(e["id"])
            if n is None:
                continue
            for a, t in pairs:
                if e["id"] == a:
                    e.update(negated(S, e, n, "from technosphere", ""))
                    if "uncertainty" not in scaled(S, e, -1):
                        e.pop("uncertainty", None)
                    S.same("conditional exchange becomes input", n, e)
                elif d["id"] == t and e["id"] == "id-" + a[3:] + "r":
                    e.update(negated(S, e, n, "from technosphere", ""))
                    S.same("old product becomes input", n, e)
                elif d["id"] == t:
                    product = [x["name"] for o in before for x in o["exchanges"] if x["id"] == a][0]
                    if bool(e["name"] == product):
                        e.update(negated(S, e, n, "reference product", ""))
                        e["byproduct classification"] = "allocatable product"
                        S.same("input becomes product", n, e)
    S.same("everything else kept", out, before)


def links(S):
    c = S.case
    dss = []
    where = ["ds-d%d" % j for j in range(c["n"])] + ["ds-other"]
    for j in range(c["n"]):
        excs = [kinded(S, "r%d" % j, "r")]
        for i in range(c["m"]):
            p = "x%d%d" % (j, i)
            e = lazy_link(S, p)
            if i < 2:
                h = S.choice("h" + p, ["none", "link", "conditional"] if not i else ["none", "link"])
            else:
                h = "link"
            if h != "none":
                e["activity link"] = S.text("to" + p, where)
                e["conditional exchange"] = h == "conditional"
            elif i:
                e["conditional exchange"] = False
            excs.append(e)
        dss.append(dataset("d%d" % j, excs, type=["market activity", "transforming activity"][j % 2]))
    before = snapshot(dss)
    bad = [e["activity link"] for d in before for e in d["exchanges"] if e.get("conditional exchange")]
    out = delete_activity_links_to_constrained_markets(dss)
    S.check("everything else kept", len(out) == len(before))
    for d, o in zip(out, before):
        for e, f in zip(d["exchanges"], o["exchanges"]):
            if "activity link" in f:
                gone = "activity link" not in e
                S.iff("links to constrained activities removed" if gone else "other links kept", gone,
                      S.all_of([not f["conditional exchange"], S.any_of([f["activity link"] == b for b in bad])]))
                if gone:
                    del f["activity link"]
    S.same("everything else kept", out, before)


def lazy_link(S, p):
    e = kinded(S, p, "t")
    e["type"] = S.text(p + ".type", ["from technosphere", "byproduct", "reference product"])
    e["byproduct classification"] = "allocatable product"
    return e


def split(S):
    """Activities with several reference products become one activity for each that is produced."""
    c = S.case
    dss = []
    for j, kinds in enumerate(c["sets"]):
        excs = []
        for i, k in enumerate(kinds):
            p = "x%d%d" % (j, i)
            e = kinded(S, p, k if k != "?" else S.choice("k" + p, "rat"))
            if c.get("unc") == i:
                with_uncertainty(S, p, e, S.choice("u" + p, UNCERTAINTY if k == "r" else (None, "uniform", "undefined")))
            if e["type"] == "reference product":
                e["production volume"] = {"amount": S.real(p + ".pv", 0)}
                if not c.get("novar") or S.bool("var" + p):
                    e["variable"] = "v" + p
            excs.append(e)
        dss.append(dataset("d%d" % j, excs, type=S.text("type%d" % j, ["transforming activity", "market activity"])))
    before = snapshot(dss)
    want = []
    for d in before:
        rps = [e for e in d["exchanges"] if e["type"] == "reference product"]
        if len(rps) < 2:
            want.append((d, "single products kept"))
            continue
        for r in rps:
            if bool(r["amount"] == 0):
                continue
            new = snapshot(d)
            new["exchanges"] = [dropped(e) if e["type"] == "reference product" and e["id"] != r["id"] else e
                                for e in new["exchanges"]]
            for e in new["exchanges"]:
                if e["id"] == r["id"]:
                    e.pop("uncertainty", None)
            want.append((new, "split by reference product"))
    out = split_combined_production(dss)
    S.check("split by reference product", len(out) == len(want), "%d datasets instead of %d" % (len(out), len(want)))
    for o, (w, label) in zip(out, want):
        check_dataset(S, label, o, w)


HARNESSES = dict(handle=handle, links=links, split=split)


def cases(tier):
    T = ("from technosphere", "byproduct", "reference product", "to environment")
    out = [dict(h="handle", markets=[1], inputs=2, types=T), dict(h="handle", markets=[1], inputs=3, types=T[:2], rev=True),
           dict(h="handle", markets=[2], inputs=2, types=T[:1], probe=1), dict(h="handle", markets=[1, 1], inputs=2, types=T[:1], probe=1, rev=True),
           dict(h="handle", markets=[1], inputs=1, types=T, formula=True), dict(h="handle", markets=[1], inputs=1, types=T[:1], unc=True),
           dict(h="handle", markets=[1], inputs=0, types=T),
           dict(h="handle", markets=[4], inputs=1, types=T[:1], probe=3), dict(h="split", sets=["rr", "r"], novar=True),
           dict(h="links", n=1, m=4), dict(h="links", n=2, m=1), dict(h="links", n=2, m=2), dict(h="links", n=3, m=1),
           dict(h="split", sets=["rrat", "rat"]), dict(h="split", sets=["r", "trr"], unc=1), dict(h="split", sets=["rt", "r?r", "at"]),
           dict(h="split", sets=["rrt"], unc=2)]
    return out
