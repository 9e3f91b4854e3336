"""C30: the cutoff system model as a whole gives a linked database of single-output datasets."""
from harness.gen import exchange, dataset, snapshot, prop, neg, is_product, get_prop, with_uncertainty
from harness.c06 import kinded, SUFFIX
from harness.geo import geography
from ocelot.configuration import cutoff_config, cutoff_config_ecoinvent_row

INFO = dict(
    bounds="databases of up to 10 activities and markets in up to 3 places: single-output and multi-output activities, treatment "
           "and recycling, wastes and recyclables, regional, global and rest-of-world producers and markets, market groups, "
           "activity links; amounts, prices and production volumes are arbitrary positive reals up to 1e12 (products not one) and "
           "one per case, each in turn, is any real (products: any positive real)",
    outside="formulas (C10, C11), uncertainty distributions (C07, C08), databases where a product has no market (rejected, C20)",
    assumptions=["the input database is valid (C13, C29)"])
LABELS = ["one product of one unit", "codes identify datasets", "inputs lead to their product", "market inputs add up",
          "inputs per unit of product", "emissions per unit of product", "expected datasets", "nothing else supplied",
          "waste outputs linked", "shares of suppliers"]


def ds(name, excs, type="transforming activity", location="GLO", id=None, **kw):
    return dataset(name, excs, type=type, location=location, id=id or name, parent=None,
                   **dict({"data entry": "somebody", "ISIC classification": "1"}, **kw))


def made(S, p):
    """A positive amount, usually not one; only the probe of the case is anything."""
    if S.case.get("probe") == p:
        return S.produced(p)
    x = S.pos(p)
    S.assume(abs(x - 1) >= 2 ** -20)
    return x


def some(S, p):
    """A positive amount of an input or emission; only the probe of the case is anything."""
    return S.real(p) if S.case.get("probe") == p else S.pos(p)


def out(S, p, name, code="r", pv=None, amount=None, price=None, **kw):
    """A production exchange."""
    e = kinded(S, p, code, name=name, amount=made(S, p) if amount is None else amount)
    e["production volume"] = {"amount": S.pos(p + ".pv") if pv is None else pv}
    e["properties"] = [prop("price", S.pos(p + ".price"))] if price else []
    e["conditional exchange"] = False
    e.update(kw)
    return e


def inp(S, p, name, **kw):
    e = kinded(S, p, "t", name=name, amount=some(S, p) if kw.get("amount") is None else kw.pop("amount"))
    e["conditional exchange"] = False
    e.update(kw)
    return e


def bio(S, p):
    e = kinded(S, p, "e", name="CO2", amount=some(S, p))
    e["compartment"], e["subcompartment"] = "air", "urban"
    return e


def market(S, name, location="GLO", more=(), amount=1, code="r", **kw):
    p = "m." + name + location
    return ds("market for " + name, [out(S, p, name, code, pv=0, amount=amount)] + list(more), "market activity", location,
              "m-%s-%s" % (name, location), **kw)


def check(S, final, before, expect, waste=(), coded=True, kinds=()):
    """``expect``: list of (activity name, product, location, [(source exchange, factor)])."""
    codes = [d["code"] for d in final]
    S.check("codes identify datasets", len(set(codes)) == len(codes))
    by_code = dict(zip(codes, final))
    S.check("expected datasets", sorted((d["name"], d["reference product"], d["location"]) for d in final) ==
            sorted(e[:3] for e in expect), str(sorted((d["name"], d["reference product"], d["location"]) for d in final)))
    for d in final:
        rps = [e for e in d["exchanges"] if e["type"] == "reference product"]
        S.check("one product of one unit", len(rps) == 1 and rps[0]["name"] == d["reference product"])
        if len(rps) != 1:
            continue
        S.eq("one product of one unit", abs(rps[0]["amount"]), 1)
        if coded:
            S.check("codes identify datasets", rps[0].get("code") == d["code"])
        own = []
        for e in d["exchanges"]:
            S.check("one product of one unit", e["type"] in ("reference product", "dropped product", "from technosphere",
                                                             "to environment", "from environment") + kinds)
            if e["type"] == "dropped product":
                S.eq("one product of one unit", e["amount"], 0)
            if e["type"] != "from technosphere":
                continue
            lost = e["name"] in waste and e["id"].startswith("id-w")if "id" in e else False
            label = "waste outputs linked" if lost else "inputs lead to their product"
            target = by_code.get(e.get("code"))
            S.check(label, target is not None, "%s in %s" % (e["name"], d["name"]))
            if target is not None:
                S.check(label, target["reference product"] == e["name"])
                S.check("nothing else supplied", d["type"] != "transforming activity" or target["type"] != "transforming activity"
                        or target["name"].endswith(SUFFIX) or "activity link" in e)
                if d["type"] != "transforming activity" and e["name"] == d["reference product"]:
                    own.append(e["amount"])
        if d["type"] != "transforming activity":
            S.eq("market inputs add up", sum(own), rps[0]["amount"])
    for name, product, location, parts in expect:
        match = [d for d in final if (d["name"], d["reference product"], d["location"]) == (name, product, location)]
        if len(match) != 1 or parts is None:
            continue
        d = match[0]
        for e, f in parts:
            got = [x["amount"] for x in d["exchanges"] if x.get("id") == e["id"] and x["type"] != "dropped product"]
            S.check("expected datasets", got != [])
            S.eq("emissions per unit of product" if e["type"] == "to environment" else "inputs per unit of product", sum(got), e["amount"] * f)


def simple(S):
    """One activity of each kind, everything global."""
    steel = [out(S, "s", "steel"), inp(S, "s1", "electricity"), bio(S, "s2"), out(S, "w1", "scrap", "c", 0), out(S, "w2", "slag", "w", 0)]
    elec = [out(S, "e", "electricity", price=True), out(S, "h", "heat", "a", 0, price=True, **{"activity link": "boiler"}), bio(S, "e2"),
            inp(S, "e3", "steel"), out(S, "w3", "slag", "w", 0), out(S, "w4", "scrap", "c", 0)]
    treat = [out(S, "t", "slag", "W", amount=-made(S, "t")), inp(S, "t1", "electricity"), bio(S, "t2")]
    recy = [out(S, "r", "steel"), inp(S, "r1", "scrap")]
    m1 = inp(S, "m1", "electricity")
    db = [ds("steel production", steel), ds("power plant", elec), ds("treatment", treat), ds("recycler", recy),
          market(S, "steel", more=[m1]), market(S, "electricity"), market(S, "heat"),
          market(S, "slag", amount=-1, code="W"), market(S, "scrap", code="R"), ds("boiler", [out(S, "o", "heat")])]
    before = snapshot(db)
    final = run(S, db)
    one = 1 / steel[0]["amount"]
    rev = {k: get_prop(e, "price")["amount"] * e["amount"] for k, e in zip("eh", before[1]["exchanges"])}
    total = rev["e"] + rev["h"]
    e_, s_, t_, r_ = (before[i]["exchanges"] for i in (1, 0, 2, 3))
    expect = [("steel production", "steel", "GLO", [(e, 1 / s_[0]["amount"]) for e in s_[1:3]] + [(e, -1 / s_[0]["amount"]) for e in s_[3:]]),
              ("treatment", "slag", "GLO", [(e, -1 / t_[0]["amount"]) for e in t_[1:]]),
              ("recycler", "steel", "GLO", [(r_[1], 1 / r_[0]["amount"])]),
              ("scrap" + SUFFIX, "scrap", "GLO", []), ("market for steel", "steel", "GLO", [(before[4]["exchanges"][1], 1)]),
              ("market for electricity", "electricity", "GLO", []), ("market for heat", "heat", "GLO", []),
              ("market for slag", "slag", "GLO", []), ("market for scrap", "scrap", "GLO", [])]
    expect.append(("boiler", "heat", "GLO", []))
    for k, e in zip("eh", e_):
        f = rev[k] / total / e["amount"]
        expect.append(("power plant", e["name"], "GLO", [(x, f) for x in e_[2:4]] + [(x, -f) for x in e_[4:]]))
    check(S, final, before, expect, waste=("scrap", "slag"))


def links(S, final, want, label="shares of suppliers"):
    """``want``: {dataset key: {supplier key: amount}}: all technosphere inputs of the dataset."""
    by_code = {d["code"]: d for d in final}
    key = lambda d: (d["name"], d["reference product"], d["location"])
    for k, parts in want.items():
        for d in final:
            if key(d) != k:
                continue
            got = {}
            for e in d["exchanges"]:
                if e["type"] == "from technosphere" and e.get("code") in by_code:
                    s = key(by_code[e["code"]])
                    got[s] = got.get(s, 0) + e["amount"]
            for s in set(got) | set(parts):
                S.eq(label, got.get(s, 0), parts.get(s, 0), "%s from %s" % (k, s))


def regional(S):
    """Producers in A, B and the rest of the world; markets in A and the rest of the world."""
    c = S.case
    places = geography(S, "AB", c["faces"], disjoint=True)
    S.assume((places["A"] | places["B"]) != places["GLO"])
    plant = lambda loc: ds("plant", [out(S, "p" + loc, "power"), bio(S, "b" + loc)], location=loc, id="p" + loc)
    db = [plant("A"), plant("B"), plant("GLO")]
    user = ds("user", [out(S, "u", "thing"), inp(S, "u1", "power"), bio(S, "u2")], location=c["user"])
    db += [user, market(S, "power", "A"), market(S, "power", "GLO"), market(S, "thing", "GLO")]
    before = snapshot(db)
    pv = {l: d["exchanges"][0]["production volume"]["amount"] for l, d in zip("ABG", before)}
    rest = pv["G"] - pv["A"] - pv["B"]
    rest = S.ite(rest > 0, rest, 0)
    final = run(S, db)
    P, M, U = (lambda l: ("plant", "power", l)), (lambda l: ("market for power", "power", l)), ("user", "thing", c["user"])
    T = ("market for thing", "thing", "GLO")
    expect = [P("A") + ([(before[0]["exchanges"][1], 1 / before[0]["exchanges"][0]["amount"])],), P("B") + (None,),
              U + ([(e, 1 / before[3]["exchanges"][0]["amount"]) for e in before[3]["exchanges"][1:]],),
              M("A") + ([],), M("RoW") + ([],), T + ([],)]
    if bool(rest > 0):  # else nothing is left for the global activity
        expect.append(P("RoW") + (None,))
    check(S, final, before, expect)
    need = before[3]["exchanges"][1]["amount"] / before[3]["exchanges"][0]["amount"]
    outer = pv["B"] + rest
    share = {"A": {M("A"): need}, "B": {M("RoW"): need},
             "GLO": {M("A"): need * pv["A"] / (pv["A"] + outer), M("RoW"): need * outer / (pv["A"] + outer)}}[c["user"]]
    links(S, final, {M("A"): {P("A"): 1}, M("RoW"): {P("B"): pv["B"] / outer, P("RoW"): rest / outer}, U: share, T: {U: 1},
                     P("A"): {}, P("B"): {}})


def group(S):
    """Markets in A and B supply a group in C, consumers in A and C."""
    c = S.case
    places = geography(S, "ABC", c["faces"])
    S.assume(places["A"].isdisjoint(places["B"]))
    for r in "AB":
        S.assume(places[r] <= places["C"])
        S.assume(places[r] != places["C"])
    plant = lambda loc: ds("plant", [out(S, "p" + loc, "power"), bio(S, "b" + loc)], location=loc, id="p" + loc)
    user = ds("user", [out(S, "u", "thing"), inp(S, "u1", "power")], location=c["user"])
    grp = ds("market group for power", [out(S, "g", "power", pv=0, amount=1)], "market group", "C")
    db = [plant("A"), plant("B"), user, market(S, "power", "A"), market(S, "power", "B"), market(S, "thing"), grp]
    before = snapshot(db)
    pv = {l: d["exchanges"][0]["production volume"]["amount"] for l, d in zip("AB", before)}
    final = run(S, db)
    P, M, U = (lambda l: ("plant", "power", l)), (lambda l: ("market for power", "power", l)), ("user", "thing", c["user"])
    G, T = ("market group for power", "power", "C"), ("market for thing", "thing", "GLO")
    check(S, final, before, [k + (None,) for k in (P("A"), P("B"), U, M("A"), M("B"), G, T)])
    need = before[2]["exchanges"][1]["amount"] / before[2]["exchanges"][0]["amount"]
    total = pv["A"] + pv["B"]
    # whoever covers the group's territory gets the group
    links(S, final, {M("A"): {P("A"): 1}, M("B"): {P("B"): 1}, G: {M(l): pv[l] / total for l in "AB"}, T: {U: 1},
                     U: {M("A"): need} if c["user"] == "A" else {G: need}})


def linked(S):
    """An activity takes its input from one producer instead of the market."""
    c = S.case
    a, b = (ds("plant " + l, [out(S, l, "power"), bio(S, "b" + l)]) for l in "ab")
    user = ds("user", [out(S, "u", "thing"), inp(S, "u1", "power", **{"activity link": "plant a"}), inp(S, "u2", "power")])
    db = [a, b, user, market(S, "power"), market(S, "thing")]
    S.assume(user["exchanges"][1]["amount"] >= 0)
    before = snapshot(db)
    u, l, m = before[2]["exchanges"]
    taken = l["amount"] * u["production volume"]["amount"] / u["amount"]
    pv = [d["exchanges"][0]["production volume"]["amount"] for d in before[:2]]
    left = pv[0] - taken
    left = S.ite(left > 0, left, 0)
    final = run(S, db)
    A, B, U = ("plant a", "power", "GLO"), ("plant b", "power", "GLO"), ("user", "thing", "GLO")
    M, T = ("market for power", "power", "GLO"), ("market for thing", "thing", "GLO")
    check(S, final, before, [k + (None,) for k in (A, B, U, M, T)])
    links(S, final, {M: {A: left / (left + pv[1]), B: pv[1] / (left + pv[1])}, T: {U: 1},
                     U: {A: l["amount"] / u["amount"], M: m["amount"] / u["amount"]}})


def child(S):
    """An activity that consumes its own product, with a link to the global activity it was derived from."""
    c = S.case
    places = geography(S, "A", c["faces"])
    S.assume(places["A"] != places["GLO"])
    plant = lambda loc: ds("plant", [out(S, "p" + loc, "power"), bio(S, "b" + loc)], location=loc, id="p" + loc)
    a, g = plant("A"), plant("GLO")
    a["parent"] = "pGLO"
    a["exchanges"].append(inp(S, "l", "power", **{"activity link": "pGLO"}))
    user = ds("user", [out(S, "u", "thing"), inp(S, "u1", "power")])
    db = [a, g, user, market(S, "power"), market(S, "thing")]
    S.assume(a["exchanges"][2]["amount"] >= 0)
    before = snapshot(db)
    p, _, l = before[0]["exchanges"]
    u, u1 = before[2]["exchanges"]
    pv = [d["exchanges"][0]["production volume"]["amount"] for d in before[:2]]
    left = pv[0]  # losses are already included
    rest = pv[1] - pv[0]
    rest = S.ite(rest > 0, rest, 0)
    S.assume(left + rest > 0)
    final = run(S, db)
    A, G, U = ("plant", "power", "A"), ("plant", "power", "RoW"), ("user", "thing", "GLO")
    M, T = ("market for power", "power", "GLO"), ("market for thing", "thing", "GLO")
    expect = [k + (None,) for k in (A, U, M, T)] + [G + (None,)] * bool(rest > 0)
    check(S, final, before, expect)
    links(S, final, {A: {A: l["amount"] / p["amount"]}, M: {A: left / (left + rest), G: rest / (left + rest)},
                     U: {M: u1["amount"] / u["amount"]}, T: {U: 1}})


def combined(S):
    """Several reference products, recycling and treatment with useful products."""
    two = ds("refinery", [dict(out(S, "x", "petrol"), variable="vx"), dict(out(S, "y", "diesel"), variable="vy"),
                          dict(inp(S, "z", "power", amount=0), formula="vx * 2 + vy * 3"), bio(S, "z2")])
    two["exchanges"][2]["amount"] = two["exchanges"][0]["amount"] * 2 + two["exchanges"][1]["amount"] * 3
    burn = ds("incinerator", [out(S, "i", "waste", "W", amount=-made(S, "i")), out(S, "j", "power", "a", 0, price=True), bio(S, "i2"),
                              inp(S, "i3", "petrol")])
    recy = ds("smelter", [out(S, "k", "scrap", "R", amount=-made(S, "k")), out(S, "l", "steel", "a", 0, price=True),
                          out(S, "n", "copper", "a", 0, price=True), bio(S, "k2"), inp(S, "k3", "diesel")])
    db = [two, burn, recy] + [market(S, n) for n in ("petrol", "diesel", "power", "steel", "copper")] + [
        market(S, "waste", amount=-1, code="W")]
    mscrap = ds("collection", [out(S, "q", "scrap", "R")])
    db += [mscrap, market(S, "scrap", code="R")]
    before = snapshot(db)
    final = run(S, db)
    x, y, z, z2 = before[0]["exchanges"]
    i, j, i2, i3 = before[1]["exchanges"]
    k, l, n, k2, k3 = before[2]["exchanges"]
    rev = {e["id"]: e["amount"] * get_prop(e, "price")["amount"] for e in (l, n)}
    total = rev[l["id"]] + rev[n["id"]]
    expect = [("refinery", "petrol", "GLO", [(dict(z, amount=2), 1), (z2, 1 / x["amount"])]),
              ("refinery", "diesel", "GLO", [(dict(z, amount=3), 1), (z2, 1 / y["amount"])]),
              ("incinerator", "waste", "GLO", [(e, -1 / i["amount"]) for e in (i2, i3)]), ("incinerator", "power", "GLO", []),
              ("collection", "scrap", "GLO", []), ("market for scrap", "scrap", "GLO", []), ("market for waste", "waste", "GLO", [])]
    for e in (l, n):
        f = rev[e["id"]] / total / e["amount"]
        expect.append(("smelter", e["name"], "GLO", [(k2, f), (k3, f), (k, -f)]))
    expect += [("market for " + m, m, "GLO", []) for m in ("petrol", "diesel", "power", "steel", "copper")]
    check(S, final, before, expect)
    links(S, final, {("incinerator", "power", "GLO"): {}})


def run(S, db):
    c = S.case
    if c.get("rev"):
        db = db[::-1]
    return (cutoff_config if not c.get("row") else cutoff_config_ecoinvent_row)(db)


HARNESSES = dict(simple=simple, regional=regional, group=group, linked=linked, child=child, combined=combined)


PROBES = dict(simple="s s1 s2 e e2 e3 w3 t t1 t2 r r1 m1", regional="pA bA pB bB pGLO bGLO u u1 u2", group="pA bA pB bB u u1",
              linked="a ba b bb u u2", child="pA l u1", combined="x y z2 i j i2 i3 k l n k2 k3 q")


def cases(tier):
    base = [dict(h="simple"), dict(h="simple", rev=True), dict(h="simple", row=True)]
    base += [dict(h="regional", faces=3, user=u) for u in ("A", "B", "GLO")] + [dict(h="regional", faces=3, user="GLO", rev=True)]
    base += [dict(h="group", faces=3, user=u) for u in "AC"] + [dict(h="linked"), dict(h="linked", rev=True), dict(h="child", faces=2), dict(h="child", faces=2, rev=True), dict(h="combined")]
    return [dict(c, probe=p) for c in base for p in PROBES[c["h"]].split()]
