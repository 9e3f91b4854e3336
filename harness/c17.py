"""C17: markets are supplied by the activities inside their territory."""
from copy import deepcopy
from itertools import combinations

from harness.gen import dataset, snapshot, prop
from harness.geo import geography, union
from harness.c06 import kinded
from ocelot.errors import OverlappingActivities
from ocelot.transformations.locations import add_suppliers_to_markets, add_recycled_content_suppliers_to_markets
from ocelot.transformations.locations.markets import apportion_market_suppliers_to_consumers

INFO = dict(
    bounds="up to 3 markets and 4 suppliers of two technologies and products; locations are GLO, RoW and up to 3 regions "
           "that cover symbolic sets of up to 4 faces; amounts and production volumes are arbitrary reals",
    outside="the database of real places",
    assumptions=["every region covers at least one face", "each supplier has one reference product",
                 "each technology has at most one rest-of-world dataset (C16)"])
LABELS = ["suppliers inside the territory", "supplier data", "overlap rejected", "accepted", "supplied markets skipped",
          "everything else kept"]
RC = ", Recycled Content cut-off"


def activity(S, p, name, type_, product, location, level=True):
    rp = kinded(S, p + "r", "r", name=product, properties=[prop("price", 1.5)])
    rp["production volume"] = {"amount": S.real(p + ".pv"), "comment": "x"}
    d = dataset(name, [kinded(S, p + "t", "t", name="Y"), rp], id="ds-" + p, type=type_, location=location, code="code-" + p,
                filepath=p, **{"reference product": product})
    if not level:
        del d["technology level"]
    return d


def area(places, loc, others):
    """The faces of a location among activities of the same kind."""
    if loc == "RoW":
        return places["GLO"] - union([places[o] for o in others if o != "RoW"])
    return places[loc]


def overlapping(S, places, locs):
    return S.any_of([S.nonempty(places[a] & places[b]) for a, b in combinations([x for x in locs if x != "RoW"], 2)] +
                    ["GLO" in locs and len(locs) > 1])


def place(S, p, options):
    return options if isinstance(options, str) else S.choice(p + ".loc", options)


def link(S):
    c = S.case
    places = geography(S, c.get("regions", "ABC"), c["faces"])
    what = c["what"]
    to_type = "market group" if what == "groups" else "market activity"
    from_type = "market activity" if what == "groups" else "transforming activity"
    suffix = RC if what == "recycled" else ""
    markets, suppliers = [], []
    for i, opts in enumerate(c["markets"]):
        p = "m%d" % i
        product = c.get("mproducts", "PPPP")[i]
        markets.append(activity(S, p, "market for " + product, to_type, product, place(S, p, opts)))
    for i, opts in enumerate(c["suppliers"]):
        p = "s%d" % i
        name = S.choice(p + ".name", c["names"]) if i else c["names"][0]
        suppliers.append(activity(S, p, name, from_type, c.get("products", "PPPP")[i] + suffix, place(S, p, opts), i != 1))
    for a, b in combinations(suppliers, 2):
        if a["location"] == b["location"] == "RoW" and a["name"] == b["name"] and a["reference product"] == b["reference product"]:
            S.cut("one rest-of-world dataset per technology")
    others = [activity(S, "o", "T", "transforming activity", "P" if suffix else "Z", "GLO"),
              activity(S, "q", "group", "market group" if what != "groups" else "transforming activity", "P", "GLO")]
    if c.get("given") is not None:
        # an empty list of suppliers is filled in; any other is kept
        markets[0]["suppliers"] = [{"code": "given"}] * c["given"]
    if c.get("rev"):
        dss = others + suppliers[::-1] + markets[::-1]
    else:
        dss = markets + suppliers + others
    before = snapshot(dss)

    products = sorted({m["reference product"] for m in markets})
    bad, expected = [], {}
    for P in products:
        ms = [m for m in markets if m["reference product"] == P]
        open_ = [m for m in ms if not m.get("suppliers")] if what != "recycled" else ms
        sups = [s for s in suppliers if s["reference product"] == P + suffix]
        if what == "direct":
            open_ = ms
        locs = [m["location"] for m in open_]
        if what in ("markets", "recycled"):
            bad.append(overlapping(S, places, locs))
        if (what != "recycled" or sups) and open_:
            bad.append(len(set(locs)) < len(locs))
        if not open_:
            continue
        for name in c["names"]:
            group = [s for s in sups if s["name"] == name]
            bad.append(overlapping(S, places, [s["location"] for s in group]))
            for m in open_:
                fm = area(places, m["location"], locs)
                for s in group:
                    fs = area(places, s["location"], [g["location"] for g in group])
                    expected[m["id"], s["id"]] = S.all_of([S.nonempty(fs), fs <= fm])
        for m in open_:
            if what != "recycled" or sups:
                expected.setdefault(m["id"], True)
    bad = S.any_of(bad)
    try:
        if what == "markets":
            out = add_suppliers_to_markets(dss)
        elif what == "groups":
            out = add_suppliers_to_markets(dss, from_type="market activity", to_type="market group")
        elif what == "recycled":
            out = add_recycled_content_suppliers_to_markets(dss)
        else:
            apportion_market_suppliers_to_consumers(markets, suppliers)
            out = dss
        raised = False
    except (OverlappingActivities, ValueError):
        raised = True
    S.iff("overlap rejected" if raised else "accepted", raised, bad)
    if raised:
        return
    S.check("everything else kept", len(out) == len(before))
    for new, old in zip(out, before):
        if old["id"] in expected:
            given = len(old.get("suppliers", []))
            got = new.get("suppliers", [])
            S.check("suppliers inside the territory", "suppliers" in new)
            S.same("supplied markets skipped", got[:given], old.get("suppliers", []))
            got = {e["id"]: e for e in got[given:]}
            S.check("suppliers inside the territory", len(got) == len(new["suppliers"]) - given)
            known = 0
            for s in [x for x in before if (old["id"], x["id"]) in expected]:
                rp = [e for e in s["exchanges"] if e["type"] == "reference product"][0]
                S.iff("suppliers inside the territory", rp["id"] in got, expected[old["id"], s["id"]])
                if rp["id"] in got:
                    known += 1
                    want = deepcopy(rp)
                    want.update(location=s["location"], code=s["code"], activity=s["name"])
                    if "technology level" in s:
                        want["technology level"] = s["technology level"]
                    S.same("supplier data", got[rp["id"]], want)
            S.check("suppliers inside the territory", known == len(got))
            new.pop("suppliers", None)
            old.pop("suppliers", None)
        else:
            S.same("supplied markets skipped", new.get("suppliers"), old.get("suppliers"))
        S.same("everything else kept", new, old)
    # what the market lists is its own copy
    for m in out:
        S.check("everything else kept", "suppliers" not in m or m["id"] not in expected)


HARNESSES = dict(link=link)


def cases(tier):
    n = 3 if tier == "quick" else 4
    every = ["A", "B", "GLO", "RoW"]
    out = [dict(h="link", what="markets", faces=n, markets=["A", "RoW"], suppliers=[["A", "C", "RoW"], ["B", "C", "RoW"]],
                names="Tt"),
           dict(h="link", what="markets", faces=n, markets=[every], suppliers=[every + ["C"], ["B", "C"]], names="T"),
           dict(h="link", what="markets", faces=n, markets=["A", "B", "RoW"], suppliers=["RoW", ["A", "B"], ["A", "B", "C"]],
                names="TU", rev=True),
           dict(h="link", what="markets", faces=n, markets=[every, every], suppliers=[["GLO", "RoW"]], names="T", regions="AB"),
           dict(h="link", what="markets", faces=2, markets=["GLO", "GLO"], mproducts="PQ", suppliers=["A", "RoW", "B"],
                products="PPQ", names="TU", regions="AB"),
           dict(h="link", what="markets", faces=2, markets=["A", ["B", "RoW"]], given=1, suppliers=["A", "RoW"], names="T",
                regions="AB"),
           dict(h="link", what="markets", faces=2, markets=["A", "RoW"], given=0, suppliers=["A", "RoW"], names="T", regions="AB"),
           dict(h="link", what="markets", faces=2, markets=["GLO"], suppliers=[], names="T", regions="AB"),
           dict(h="link", what="groups", faces=n, markets=[["A", "GLO"], ["B", "GLO"]], suppliers=["C", ["A", "B", "RoW"]],
                names="T"),
           dict(h="link", what="recycled", faces=n, markets=[["A", "GLO"], "RoW"], suppliers=[["GLO", "A"], ["B", "RoW"]],
                names="TU", regions="AB"),
           dict(h="link", what="recycled", faces=2, markets=["A", "B"], mproducts="PQ", suppliers=["GLO"], names="T",
                regions="AB", given=1),
           dict(h="link", what="recycled", faces=2, markets=["A", "B", "GLO"], mproducts=["P", "PX", "XP"], suppliers=["A", "B"],
                products=["PX", "P"], names="T", regions="AB"),
           dict(h="link", what="recycled", faces=2, markets=["A", "B", "GLO"], mproducts=["P", "p", "p "], suppliers=["A", "B"],
                products=["p", "P"], names="T", regions="AB"),
           dict(h="link", what="markets", faces=2, markets=["A", "B", "GLO"], mproducts=["P", "p", "p "], suppliers=["A", "B"],
                products=["p", "P"], names="Tt", regions="AB"),
           dict(h="link", what="recycled", faces=2, markets=[every, every], suppliers=[], names="T", regions="AB"),
           dict(h="link", what="direct", faces=n, markets=[["A", "B"], ["A", "RoW"]], suppliers=["C", "RoW"], names="TU", given=1)]
    if tier == "thorough":
        out += [dict(h="link", what="markets", faces=3, markets=[every, every], suppliers=[every, every], names="TU")]
    return out
