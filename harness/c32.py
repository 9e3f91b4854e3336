"""C32: the consequential system model as a whole gives a linked database that takes products from the most modern suppliers."""
from harness.gen import dataset, snapshot, neg
from harness.c06 import kinded
from harness.geo import geography
from harness.c30 import ds, out, inp, bio, market, links, check as check_db
from harness.c22 import LEVELS
from ocelot.configuration import consequential_config
from ocelot.errors import MissingAlternativeProducer

INFO = dict(
    bounds="databases of up to 8 activities and markets in up to 3 places: single-output activities with byproducts, combined "
           "production, regional, global and rest-of-world producers, market groups; the technology level of up to 3 "
           "producers is any of the six levels (of the first two, of four of them); production volumes and amounts are arbitrary positive reals up to 1e12 and, "
           "one per case, an arbitrary real",
    outside="uncertainty distributions (C08, C23), formulas (C11, C23), what a byproduct replaces (not linked by the system model)",
    assumptions=["the input database is valid (C13, C29)"])
LABELS = ["one product of one unit", "codes identify datasets", "inputs lead to their product", "market inputs add up",
          "inputs per unit of product", "emissions per unit of product", "expected datasets", "nothing else supplied",
          "shares of suppliers", "byproducts without alternative rejected", "constrained markets are linked"]
SOME = dict(a=LEVELS[:3] + ("undefined",), b=LEVELS[1:4] + ("undefined",), c=LEVELS + ("undefined",))


def check(S, final, before, expect):
    check_db(S, final, before, expect, kinds=("byproduct",))


def levelled(S, d, p):
    d["technology level"] = S.text("level" + p, SOME.get(p, SOME["c"])) if p in S.case.get("levels", ()) else "current"
    return d


def rank(S, level):
    """Position in the hierarchy; undefined counts as current."""
    r = 2
    for i, l in enumerate(LEVELS):
        if i != 2:
            r = S.ite(level == l, i, r)
    return r


def share(S, suppliers, amount=1):
    """``suppliers``: {key: (level, production volume)}: the amounts that the market takes."""
    ranks = {k: rank(S, l) for k, (l, _) in suppliers.items()}
    best = {k: S.all_of([r <= o for o in ranks.values()]) for k, r in ranks.items()}
    kept = {k: S.ite(b, suppliers[k][1], 0) for k, b in best.items()}
    total = sum(kept.values())
    if bool(total == 0):  # a single supplier without production volume
        return {k: S.ite(b, amount, 0) for k, b in best.items()}, total
    return {k: amount * v / total for k, v in kept.items()}, total


def run(S, db):
    return consequential_config(db[::-1] if S.case.get("rev") else db)


def levels(S):
    """Three technologies for one product; a user with a byproduct; a waste treatment."""
    makers = [levelled(S, ds("plant " + l, [out(S, l, "power"), bio(S, "b" + l)]), l) for l in "abc"]
    user = ds("user", [out(S, "u", "thing"), inp(S, "u1", "power"), bio(S, "u2"), out(S, "v", "power", "a", 0),
                       out(S, "w", "slag", "w", 0)])
    treat = ds("treatment", [out(S, "t", "slag", "W", amount=-S.pos("t")), inp(S, "t1", "power")])
    db = makers + [user, treat, market(S, "power", more=[inp(S, "m1", "thing")]), market(S, "thing"),
                   market(S, "slag", amount=-1, code="W")]
    before = snapshot(db)
    final = run(S, db)
    keys = [("plant " + l, "power", "GLO") for l in "abc"]
    U, T, M = ("user", "thing", "GLO"), ("treatment", "slag", "GLO"), ("market for power", "power", "GLO")
    MT, MS = ("market for thing", "thing", "GLO"), ("market for slag", "slag", "GLO")
    f = lambda i, sign=1: [(e, sign / before[i]["exchanges"][0]["amount"]) for e in before[i]["exchanges"][1:]]
    check(S, final, before, [k + (f(i),) for i, k in enumerate(keys)] + [U + (f(3),), T + (f(4, -1),), MT + ([],), MS + ([],),
                                                                         M + ([(before[5]["exchanges"][1], 1)],)])
    got, _ = share(S, {k: (d["technology level"], d["exchanges"][0]["production volume"]["amount"]) for k, d in zip(keys, before)})
    need = lambda i: before[i]["exchanges"][1]["amount"] / abs(before[i]["exchanges"][0]["amount"])
    links(S, final, {M: {**got, MT: before[5]["exchanges"][1]["amount"]}, U: {M: need(3)}, T: {M: need(4)}, MT: {U: 1},
                     MS: {T: -1}})


def regional(S):
    c = S.case
    places = geography(S, "AB", c["faces"], disjoint=True)
    S.assume((places["A"] | places["B"]) != places["GLO"])
    plant = lambda loc: levelled(S, ds("plant", [out(S, "p" + loc, "power"), bio(S, "b" + loc)], location=loc, id="p" + loc), loc[0])
    db = [plant("A"), plant("B"), plant("GLO")]
    user = ds("user", [out(S, "u", "thing"), inp(S, "u1", "power"), bio(S, "u2")], location=c["user"])
    db += [user, market(S, "power", "A"), market(S, "power", "GLO"), market(S, "thing", "GLO")]
    before = snapshot(db)
    pv = {l: d["exchanges"][0]["production volume"]["amount"] for l, d in zip("ABG", before)}
    final = run(S, db)
    P, M, U = (lambda l: ("plant", "power", l)), (lambda l: ("market for power", "power", l)), ("user", "thing", c["user"])
    T = ("market for thing", "thing", "GLO")
    check(S, final, before, [P(l) + ([(before[i]["exchanges"][1], 1 / before[i]["exchanges"][0]["amount"])],)
                             for i, l in enumerate(("A", "B", "RoW"))] +
          [U + ([(e, 1 / before[3]["exchanges"][0]["amount"]) for e in before[3]["exchanges"][1:]],),
           M("A") + ([],), M("RoW") + ([],), T + ([],)])
    need = before[3]["exchanges"][1]["amount"] / before[3]["exchanges"][0]["amount"]
    rest = pv["G"] - pv["A"] - pv["B"]
    rest = S.ite(rest > 0, rest, 0)
    level = {l: d["technology level"] for l, d in zip("ABG", before)}
    outer, total = share(S, {P("B"): (level["B"], pv["B"]), P("RoW"): (level["G"], rest)})
    part = {"A": {M("A"): need}, "B": {M("RoW"): need},
            "GLO": {M("A"): need * pv["A"] / (pv["A"] + total), M("RoW"): need * total / (pv["A"] + total)}}[c["user"]]
    links(S, final, {M("A"): {P("A"): 1}, M("RoW"): outer, U: part, T: {U: 1}})


def group(S):
    c = S.case
    places = geography(S, "ABC", c["faces"])
    S.assume(places["A"].isdisjoint(places["B"]))
    for r in "AB":
        S.assume(places[r] <= places["C"])
        S.assume(places[r] != places["C"])
    plant = lambda n, loc: levelled(S, ds("plant " + n, [out(S, n, "power"), bio(S, "b" + n)], location=loc), n)
    user = ds("user", [out(S, "u", "thing"), inp(S, "u1", "power")], location=c["user"])
    grp = ds("market group for power", [out(S, "g", "power", pv=0, amount=1)], "market group", "C")
    db = [plant("a", "A"), plant("b", "B"), plant("c", "B"), user, market(S, "power", "A"), market(S, "power", "B"),
          market(S, "thing"), grp]
    before = snapshot(db)
    pv = {l: d["exchanges"][0]["production volume"]["amount"] for l, d in zip("abc", before)}
    final = run(S, db)
    P = lambda n, l: ("plant " + n, "power", l)
    M, U = (lambda l: ("market for power", "power", l)), ("user", "thing", c["user"])
    G, T = ("market group for power", "power", "C"), ("market for thing", "thing", "GLO")
    check(S, final, before, [k + (None,) for k in (P("a", "A"), P("b", "B"), P("c", "B"), U, M("A"), M("B"), G, T)])
    need = before[3]["exchanges"][1]["amount"] / before[3]["exchanges"][0]["amount"]
    b, total = share(S, {P(n, "B"): (d["technology level"], pv[n]) for n, d in list(zip("abc", before))[1:]})
    links(S, final, {M("A"): {P("a", "A"): 1}, M("B"): b, T: {U: 1},
                     G: {M("A"): pv["a"] / (pv["a"] + total), M("B"): total / (pv["a"] + total)},
                     U: {M("A"): need} if c["user"] == "A" else {G: need}})


def combined(S):
    """Two reference products in one activity; a byproduct may have no other producer."""
    c = S.case
    two = ds("refinery", [dict(out(S, "x", "petrol"), variable="vx"), dict(out(S, "y", "diesel"), variable="vy"),
                          dict(inp(S, "z", "power", amount=0), formula="vx * 2 + vy * 3"), bio(S, "z2")])
    two["exchanges"][2]["amount"] = two["exchanges"][0]["amount"] * 2 + two["exchanges"][1]["amount"] * 3
    plant = ds("plant", [out(S, "p", "power"), inp(S, "p1", "diesel"), out(S, "q", S.choice("extra", ["petrol", "heat"]), "a", 0)])
    db = [two, plant] + [market(S, n) for n in ("petrol", "diesel", "power")]
    before = snapshot(db)
    orphan = plant["exchanges"][2]["name"] == "heat"
    try:
        final, raised = run(S, db), False
    except MissingAlternativeProducer:
        raised = True
    S.check("byproducts without alternative rejected", raised == orphan)
    if raised:
        return
    x, y, z, z2 = before[0]["exchanges"]
    p, p1, q = before[1]["exchanges"]
    check(S, final, before, [("refinery", "petrol", "GLO", [(dict(z, amount=2), 1), (z2, 1 / x["amount"])]),
                             ("refinery", "diesel", "GLO", [(dict(z, amount=3), 1), (z2, 1 / y["amount"])]),
                             ("plant", "power", "GLO", [(p1, 1 / p["amount"]), (q, 1 / p["amount"])])] +
          [("market for " + m, m, "GLO", []) for m in ("petrol", "diesel", "power")])
    M = lambda n: ("market for " + n, n, "GLO")
    R = lambda n: ("refinery", n, "GLO")
    links(S, final, {M("petrol"): {R("petrol"): 1}, M("diesel"): {R("diesel"): 1}, R("petrol"): {M("power"): 2},
                     R("diesel"): {M("power"): 3}})


def constrained(S):
    """A market that takes a product from the activity that would use it."""
    make = ds("acid production", [out(S, "a", "acid"), bio(S, "a2")])
    use = ds("cryolite production", [out(S, "c", "cryolite"), inp(S, "c1", "acid"), bio(S, "c2")])
    extra = kinded(S, "m", "a", name="acid", amount=-1, **{"activity link": use["id"], "conditional exchange": True})
    extra["production volume"] = {"amount": 0}
    db = [make, use, market(S, "acid", more=[extra]), market(S, "cryolite")]
    try:
        run(S, db)
        done = True
    except KeyError:
        done = False
    S.check("constrained markets are linked", done)


HARNESSES = dict(levels=levels, regional=regional, group=group, combined=combined, constrained=constrained)
PROBES = dict(levels="a ba b c u u1 u2 v w m1 t1", regional="pA bA pB pGLO bGLO u u1 u2", group="a ba b c u u1",
              combined="x y z2 p p1 q")


def cases(tier):
    base = [dict(h="levels", levels="abc"), dict(h="levels", levels="abc", rev=True)]
    base += [dict(h="regional", faces=3, user=u, levels="BG") for u in ("A", "B", "GLO")]
    base += [dict(h="regional", faces=3, user="GLO", rev=True, levels="AB")]
    base += [dict(h="group", faces=3, user=u, levels="abc" if u == "A" else "bc") for u in "AC"] + [dict(h="combined")]
    out = base + [dict(c, probe=p, levels="" if tier == "quick" else c.get("levels", "")[:1]) for c in base if not c.get("rev") or tier == "thorough"
                  for p in PROBES[c["h"]].split()]
    return out + [dict(h="constrained")]
