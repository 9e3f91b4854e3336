"""C19: market groups are filled without gaps or overlaps."""
from copy import deepcopy
from itertools import combinations

from harness.gen import dataset, snapshot, neg
from harness.geo import geography, union
from harness.c06 import kinded
from ocelot.errors import MarketGroupError
from ocelot.transformations.locations import (link_market_group_suppliers, update_market_production_volumes,
                                              allocate_all_market_suppliers)

INFO = dict(
    bounds="up to 3 market groups and 3 markets of a product; GLO, RoW and 4 regions that cover symbolic sets of up to 4 faces; "
           "amounts and production volumes are arbitrary reals up to 1e12",
    outside="two groups with exactly the same area; groups that cover the rest of the world only partly",
    assumptions=["every region covers at least one face", "every group has a supplier before volumes are updated",
                 "markets do not overlap (C17)"])
LABELS = ["suppliers inside the group", "suppliers do not overlap", "nothing is left out", "markets before groups",
          "supplier data", "groups without suppliers", "inconsistent names rejected", "accepted", "volume of the group",
          "original total", "volumes of member groups", "inputs of the group", "everything else kept"]


def activity(S, p, kind, product, location, name):
    rp = kinded(S, p + "r", "r", name=product)
    rp["production volume"] = {"amount": S.real(p + ".pv", 0), "subtracted activity link volume": S.real(p + ".sub")}
    return dataset(name, [kinded(S, p + "t", "t", name="Y"), rp], id="ds-" + p, filepath=p, type=kind, location=location,
                   code="code-" + p, **{"reference product": product})


def world(S):
    c = S.case
    places = geography(S, c.get("regions", "ABC"), c["faces"])
    dss = []
    for i, opts in enumerate(c["markets"]):
        loc = opts if opts in ("GLO", "RoW") else S.choice("m%d.loc" % i, opts)
        dss.append(activity(S, "m%d" % i, "market activity", "P", loc, "market for P"))
    for i, opts in enumerate(c["groups"]):
        loc = opts if opts in ("GLO", "RoW") else S.choice("g%d.loc" % i, opts)
        name = S.choice("g%d.name" % i, ["market group for P", "groups of P", "market group for P, high"]) if i == c.get("named") else "market group for P"
        dss.append(activity(S, ("z%d" if c.get("last") else "g%d") % i, "market group", "P", loc, name))
    for kind in ("market activity", "market group"):
        locs = [d["location"] for d in dss if d["type"] == kind]
        if len(locs) != len(set(locs)):
            S.cut("one dataset per location")
    markets = {d["location"]: d for d in dss if d["type"] == "market activity"}
    groups = {d["location"]: d for d in dss if d["type"] == "market group"}
    areas = dict(places)
    if "RoW" in markets:
        areas["RoW"] = places["GLO"] - union([places[x] for x in markets if x != "RoW"])
        for g in groups:
            if g != "GLO":
                # contains the rest of the world, or nothing of it
                S.assume(S.any_of([places[g].isdisjoint(areas["RoW"]),
                                   S.all_of([areas["RoW"] <= places[g], places[g] != areas["RoW"]])]))
    for a, b in combinations([m for m in markets if m != "RoW"], 2):
        S.assume(places[a].isdisjoint(places[b]))
    for a, b in combinations(groups, 2):
        S.assume(places[a] != places[b])
    for r in c.get("last", ""):
        # the first group is one member among others, and the last of their list
        S.assume(places[r].isdisjoint(places[c["groups"][0]]))
    other = [activity(S, "o", "market activity", "Q", "A", "market for Q"),
             activity(S, "q", "transforming activity", "P", "B", "making P")]
    if c.get("rev"):
        return other + dss[::-1], markets, groups, areas
    return dss + other, markets, groups, areas


def link(S):
    dss, markets, groups, areas = world(S)
    before = snapshot(dss)
    names = {g["name"] for g in groups.values()}
    try:
        out, raised = link_market_group_suppliers(dss), False
    except MarketGroupError:
        raised = True
    S.check("inconsistent names rejected" if raised else "accepted", raised == (len(names) > 1))
    if raised:
        return
    candidates = {loc: markets.get(loc, groups.get(loc)) for loc in list(markets) + list(groups)}
    old = {d["id"]: d for d in before}
    S.check("everything else kept", len(out) == len(before))
    for loc, g in groups.items():
        sups = g.get("suppliers", [])
        S.check("groups without suppliers", "suppliers" not in g or sups)
        codes = [s["code"] for s in sups]
        S.check("supplier data", codes == sorted(set(codes)))
        chosen = {}
        for s in sups:
            ds = [d for d in before if d["code"] == s["code"]][0]
            l = ds["location"]
            S.check("markets before groups", l in candidates and candidates[l]["code"] == s["code"])
            want = deepcopy([e for e in ds["exchanges"] if e["type"] == "reference product"][0])
            want.update(location=l, code=ds["code"], activity=ds["name"])
            want["technology level"] = ds["technology level"]
            S.same("supplier data", s, want)
            chosen[l] = ds
            S.check("suppliers inside the group", S.all_of([S.nonempty(areas[l]), areas[l] <= areas[loc]]))
            S.check("suppliers inside the group", ds["id"] != g["id"])
        for a, b in combinations(chosen, 2):
            S.check("suppliers do not overlap", areas[a].isdisjoint(areas[b]))
        for l, ds in candidates.items():
            if l in chosen or ds is g:
                continue
            blocked = [S.all_of([neg(S, areas[k].isdisjoint(areas[l])),
                                 S.card(areas[k]) >= S.card(areas[l]) if k > l else S.card(areas[k]) > S.card(areas[l])])
                       for k in chosen]
            S.check("nothing is left out", S.any_of([neg(S, S.all_of([S.nonempty(areas[l]), areas[l] <= areas[loc]]))] + blocked))
    for new in out:
        if new["type"] == "market group":
            new.pop("suppliers", None)
        S.same("everything else kept", new, old[new["id"]])


def volumes(S):
    """Volumes follow the members of a group, from the inside out."""
    dss, markets, groups, areas = world(S)
    data = link_market_group_suppliers(dss)
    if any("suppliers" not in g for g in groups.values()):
        S.cut("a group without suppliers")
    before = snapshot(data)
    old = {d["code"]: d for d in before}
    out = update_market_production_volumes(data, kind="market group")
    done = {}

    def pv_of(ds):
        rp = ds["exchanges"][1]
        if ds["type"] != "market group":
            return rp["production volume"]["amount"]
        if ds["code"] not in done:
            total = sum(pv_of(old[s["code"]]) for s in ds["suppliers"])
            left = total - rp["production volume"]["subtracted activity link volume"]
            done[ds["code"]] = S.ite(left > 0, left, 0), total
        return done[ds["code"]][0]

    middle = snapshot(out)
    for new, o in zip(out, before):
        if o["type"] == "market group":
            pv = new["exchanges"][1]["production volume"]
            S.eq("volume of the group", pv["amount"], pv_of(o))
            S.eq("original total", pv.pop("original total", -1), done[o["code"]][1])
            pv["amount"] = o["exchanges"][1]["production volume"]["amount"]
            for s, t in zip(new["suppliers"], o["suppliers"]):
                S.eq("volumes of member groups", s["production volume"]["amount"], pv_of(old[s["code"]]))
                s["production volume"] = t["production volume"]
        S.same("everything else kept", new, o)
    out = allocate_all_market_suppliers(deepcopy(middle), kind="market group")
    for new, o in zip(out, middle):
        if o["type"] == "market group":
            total = sum(pv_of(old[s["code"]]) for s in o["suppliers"])
            if bool(total > 0):
                added = new["exchanges"][2:]
                new["exchanges"] = new["exchanges"][:2]
                S.eq("inputs of the group", sum(e["amount"] for e in added), o["exchanges"][1]["amount"])
                got = {e["code"]: e["amount"] for e in added}
                for s in o["suppliers"]:
                    S.eq("inputs of the group", got.get(s["code"], 0),
                         pv_of(old[s["code"]]) / total * o["exchanges"][1]["amount"])
            else:
                continue
        S.same("everything else kept", new, o)


HARNESSES = dict(link=link, volumes=volumes)


def cases(tier):
    n = 3 if tier == "quick" else 4
    out = [dict(h="link", faces=n, markets=["AB", "RoW"], groups=["GLO", "C"]),
           dict(h="link", faces=n + 1, markets=["A", "B", "RoW"], groups=["GLO"]),
           dict(h="link", faces=n, markets=["A", "B"], groups=["GLO", "AC", "B"], rev=True),
           dict(h="link", faces=n, markets=["A", "B"], groups=["C"]), dict(h="link", faces=n, markets=["GLO"], groups=["A", "B"]),
           dict(h="link", faces=n, markets=["A"], groups=["B", "C", "GLO"]),
           dict(h="link", faces=2, markets=["A"], groups=["B", "GLO"], named=1, regions="AB"),
           dict(h="link", faces=2, markets=["A", "B", "RoW"], groups=[], regions="AB"),
           dict(h="volumes", faces=n, markets=["A", "B"], groups=["C", "GLO"]),
           dict(h="volumes", faces=n, markets=["A", "RoW"], groups=["GLO", "B"], rev=True, regions="AB"),
           dict(h="volumes", faces=n, markets=["A"], groups=["B", "C", "GLO"]),
           dict(h="volumes", faces=3, markets=["A"], groups=["B", "C", "D"], regions="ABCD"),
           dict(h="volumes", faces=n, markets=["A", "B", "D"], groups=["C", "GLO"], regions="ABCD", last="BD")]
    return out
