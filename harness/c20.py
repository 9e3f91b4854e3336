"""C20: inputs are linked to the markets of the place where they are consumed."""
from itertools import combinations

from harness.gen import dataset, snapshot, scaled, with_uncertainty, neg
from harness.geo import geography, union
from harness.c06 import kinded
from ocelot.errors import MissingSupplier
from ocelot.transformations.locations import link_consumers_to_markets, link_consumers_to_recycled_content_activities

INFO = dict(
    bounds="a consumer with up to 3 inputs and up to 4 markets and market groups of a product; GLO, RoW and 3 regions that "
           "cover symbolic sets of up to 4 faces; amounts and production volumes are arbitrary reals up to 1e12",
    outside="two places with exactly the same area; groups that cover the rest of the world only partly",
    assumptions=["every region covers at least one face", "markets do not overlap (C17)", "production volumes are not negative"])
LABELS = ["linked to markets inside", "links do not overlap", "nothing inside is left out", "smallest place around",
          "single market takes all", "shares follow volumes", "inputs add up", "left unlinked", "markets before groups",
          "linked inputs kept", "missing supplier rejected", "accepted", "recycled content linked", "everything else kept"]
RC = ", Recycled Content cut-off"


def activity(S, p, kind, product, location, name, excs=()):
    rp = kinded(S, p + "r", "r", name=product)
    rp["production volume"] = {"amount": S.real(p + ".pv", 0)}
    return dataset(name, [rp] + list(excs), id="ds-" + p, filepath=p, type=kind, location=location, code="code-" + p,
                   **{"reference product": product})


def loc_of(S, p, opts):
    return opts if isinstance(opts, str) else S.choice(p + ".loc", opts)


def rest(places, locs):
    return places["GLO"] - union([places[x] for x in locs if x != "RoW"])


def markets(S):
    c = S.case
    places = geography(S, c.get("regions", "ABC"), c["faces"])
    ctype, q = c.get("consumer", "transforming activity"), c.get("q", "Q")
    cloc = loc_of(S, "c", c["at"])
    inputs = [with_uncertainty(S, "x", kinded(S, "x", "t", name="P"), c.get("unc")),
              kinded(S, "e", "e", name="P"), dict(kinded(S, "done", "t", name="P"), code="already")]
    if c.get("more"):
        inputs += [kinded(S, "q", "t", name=q), kinded(S, "y", "t", name="P")]
    if c.get("gas"):
        inputs.insert(c["gas"] - 1, kinded(S, "gas", "t", name="refinery gas"))
    me = activity(S, "c", ctype, "C", cloc, "consumer", inputs)
    if c.get("listed"):
        me["suppliers"] = [{"code": "given"}]
    dss = [me]
    siblings = [cloc]
    for i, l in enumerate(c.get("siblings", ())):
        if l == cloc:
            S.cut("one consumer per location")
        dss.append(activity(S, "b%d" % i, ctype, "D" if i + 1 == len(c["siblings"]) else "C", l, "consumer"))
        siblings.append(l)
    # activities of another type or name do not count as siblings
    dss.append(activity(S, "n", "market activity" if ctype[0] == "t" else "transforming activity", "C", "B", "consumer"))
    dss.append(activity(S, "k", ctype, "C", "B", "someone else"))
    sup = []
    for i, o in enumerate(c["markets"]):
        sup.append(activity(S, "m%d" % i, "market activity", "P", loc_of(S, "m%d" % i, o), "market for P"))
    for i, o in enumerate(c.get("groups", ())):
        sup.append(activity(S, "g%d" % i, "market group", "P", loc_of(S, "g%d" % i, o), "market group for P"))
    other = activity(S, "mq", "market activity", c.get("sold", q), "GLO", "market for " + c.get("sold", q))
    dss += [other] + sup
    if c.get("rev"):
        dss.reverse()
    for kind in ("market activity", "market group"):
        locs = [d["location"] for d in sup if d["type"] == kind]
        if len(locs) != len(set(locs)):
            S.cut("one dataset per location")
    ms = {d["location"]: d for d in sup if d["type"] == "market activity"}
    gs = {d["location"]: d for d in sup if d["type"] == "market group"}
    cand = dict(gs, **ms)
    areas = dict(places)
    for a, b in combinations([m for m in ms if m != "RoW"], 2):
        S.assume(places[a].isdisjoint(places[b]))
    if "GLO" in ms and len(ms) > 1:
        S.cut("markets overlap")
    if "RoW" in ms:
        areas["RoW"] = rest(places, ms)
        for g in gs:
            if g != "GLO":
                S.assume(S.any_of([places[g].isdisjoint(areas["RoW"]),
                                   S.all_of([areas["RoW"] <= places[g], places[g] != areas["RoW"]])]))
    for a, b in combinations(cand, 2):
        S.assume(areas[a] != areas[b])
    here = rest(places, siblings) if cloc == "RoW" else places[cloc]
    before = snapshot(dss)
    missing = not cand or c.get("sold", q) != q
    try:
        out, raised = link_consumers_to_markets(dss), False
    except MissingSupplier:
        out, raised = dss, True
    S.check("missing supplier rejected" if raised else "accepted", raised == missing)
    if raised:
        return
    old = {d["id"]: d for d in before}
    S.check("everything else kept", [d["id"] for d in out] == [d["id"] for d in before])
    new = [d for d in out if d["id"] == me["id"]][0]
    was = {e["id"]: e for e in old[me["id"]]["exchanges"]}
    for x in ("id-x", "id-y"):
        if x in was:
            check_input(S, was[x], [e for e in new["exchanges"] if e["id"] == x], cand, ms, areas, here)
    for e in was.values():
        if e["id"] in ("id-x", "id-y"):
            continue
        if e["id"] == "id-q":
            e["code"] = "code-mq"
        S.same("linked inputs kept" if e["id"] in ("id-q", "id-done") else "left unlinked" if e["id"] == "id-gas" else
               "everything else kept", [n for n in new["exchanges"] if n["id"] == e["id"]], [e])
    S.check("everything else kept", {e["id"] for e in new["exchanges"]} <= set(was))
    if not (c.get("listed") and "suppliers" not in new):
        S.same("everything else kept", new.get("suppliers"), old[me["id"]].get("suppliers"))
    for d in out:
        o = old[d["id"]]
        if d is new:
            for z in (d, o):
                z.pop("exchanges"), z.pop("suppliers", None)
        S.same("everything else kept", d, o)


def check_input(S, exc, got, cand, ms, areas, here):
    inside = {l: S.all_of([S.nonempty(areas[l]), areas[l] <= here]) for l in cand}
    around = {l: S.all_of([S.nonempty(here), here <= areas[l]]) for l in cand}
    by_code = {d["code"]: l for l, d in cand.items()}
    codes = [e.get("code") for e in got]
    S.check("everything else kept", got != [] and len(codes) == len(set(codes)))
    S.check("markets before groups", all(k is None or k in by_code for k in codes))
    chosen = [by_code[k] for k in codes if k is not None and k in by_code]
    pv = {l: d["exchanges"][0]["production volume"]["amount"] for l, d in cand.items()}

    def before(k, l):
        """The place ``k`` is tried before ``l``: it is larger."""
        return S.card(areas[k]) >= S.card(areas[l]) if k > l else S.card(areas[k]) > S.card(areas[l])
    if not chosen:
        # no place around, nothing inside, or several without production inside
        S.same("left unlinked", got, [exc])
        for l in cand:
            S.check("left unlinked", S.any_of([neg(S, inside[l]), pv[l] == 0] + [
                S.all_of([neg(S, areas[k].isdisjoint(areas[l])), before(k, l), pv[k] == 0]) for k in cand if k != l]))
            S.check("left unlinked", S.any_of([neg(S, around[l])] + [inside[k] for k in cand]))
        return
    S.eq("inputs add up", sum(e["amount"] for e in got), exc["amount"])
    if len(chosen) == 1 and bool(neg(S, S.any_of(list(inside.values())))):
        l = chosen[0]
        S.check("smallest place around", around[l])
        for k in cand:
            if k != l:
                S.check("smallest place around", S.any_of([neg(S, around[k]), before(k, l)]))
        S.same("single market takes all", got, [dict(exc, code=cand[l]["code"])])
        return
    total = sum(pv[l] for l in chosen)
    for l in chosen:
        S.check("linked to markets inside", inside[l])
    for a, b in combinations(chosen, 2):
        S.check("links do not overlap", areas[a].isdisjoint(areas[b]))
    for l in cand:
        if l not in chosen:
            # outside, or covered by a larger one, or taken without production
            S.check("nothing inside is left out", S.any_of([neg(S, inside[l]), pv[l] == 0] + [
                neg(S, areas[k].isdisjoint(areas[l])) for k in chosen] + [
                S.all_of([neg(S, areas[k].isdisjoint(areas[l])), before(k, l), pv[k] == 0]) for k in cand if k != l]))
    if len(chosen) == 1:
        for l in cand:
            # volumes decide among several
            S.check("left unlinked", S.any_of([l == chosen[0], pv[chosen[0]] != 0, neg(S, inside[l]),
                                               neg(S, areas[l].isdisjoint(areas[chosen[0]]))]))
        S.same("single market takes all", [dict(e, uncertainty=None) for e in got],
               [dict(exc, code=cand[chosen[0]]["code"], uncertainty=None)])
        S.eq("single market takes all", got[0]["amount"], exc["amount"])
        return
    for e in got:
        l = by_code[e["code"]]
        want = scaled(S, exc, pv[l] / total)
        want["code"] = e["code"]
        S.same("shares follow volumes", e, want)


def recycled(S):
    c = S.case
    makers = []
    for i in range(c["n"]):
        d = activity(S, "s%d" % i, "transforming activity", "P" + RC, "GLO", "s%d" % i)
        d["reference product"] = S.text("s%d.rp" % i, ["P" + RC, "Q" + RC, "P"])
        d["type"] = S.text("s%d.type" % i, ["transforming activity", "market activity"])
        makers.append(d)
    x = kinded(S, "x", "t")
    x["type"] = S.text("x.type", ["from technosphere", "byproduct", "to environment"])
    x["name"] = S.text("x.name", ["P" + RC, "Q" + RC, "P"])
    if S.bool("coded"):
        x["code"] = "already"
    me = activity(S, "c", "transforming activity", "C", "A", "consumer", [x, kinded(S, "z", "t", name="Z")])
    dss = [me] + makers if not c.get("rev") else makers[::-1] + [me]
    fit = [S.all_of([m["type"] == "transforming activity", S.any_of([m["reference product"] == n + RC for n in "PQ"]),
                     m["reference product"] == x["name"]]) for m in makers]
    wanted = S.all_of([x["type"] == "from technosphere", "code" not in x])
    before = snapshot(dss)
    out = link_consumers_to_recycled_content_activities(dss)
    e = [d for d in out if d["id"] == "ds-c"][0]["exchanges"][1]
    was = [d for d in before if d["id"] == "ds-c"][0]["exchanges"][1]
    code = e.get("code")
    for i, m in enumerate(makers):
        only = S.all_of([fit[i]] + [neg(S, f) for k, f in enumerate(fit) if k != i])
        S.iff("recycled content linked", code == m["code"], S.all_of([wanted, only]))
    S.check("recycled content linked", code is None or code == "already" or code in [m["code"] for m in makers])
    if code is not None and "code" not in was:
        del e["code"]
    S.same("everything else kept", out, before)


HARNESSES = dict(markets=markets, recycled=recycled)


def cases(tier):
    n = 4 if tier == "quick" else 5
    every = ["A", "B", "GLO", "RoW"]
    out = [dict(h="markets", faces=n, at=["A", "C", "GLO"], markets=["A", "B"]),
           dict(h="markets", faces=n, at=every[:1] + every[3:], siblings=["B"], markets=["A", "RoW"], regions="AB"),
           dict(h="markets", faces=n, at="RoW", siblings=["A"], markets=[["A", "B"], "RoW"], regions="AB", rev=True,
                consumer="market activity"),
           dict(h="markets", faces=n, at=["A", "GLO"], markets=["B"], groups=["GLO", "C"]),
           dict(h="markets", faces=n, at=["B"], markets=["A"], groups=["GLO", "C"]),
           dict(h="markets", faces=n, at=["A", "GLO", "RoW"], markets=["GLO"], more=True, regions="A"),
           dict(h="markets", faces=2, at="GLO", markets=["A", "B"], regions="AB", more=True, listed=True),
           dict(h="markets", faces=n, at=["A", "GLO"], siblings=["B"], markets=["A", "B", "RoW"], regions="AB"),
           dict(h="markets", faces=n, at=["C"], markets=["A", "RoW"], groups=["B"]),
           dict(h="markets", faces=2, at=["A", "GLO"], markets=["A"], groups=["A", "GLO"], regions="A"),
           dict(h="markets", faces=2, at=["A", "RoW"], markets=[], regions="AB"),
           dict(h="markets", faces=3, at=every, siblings=["B"], markets=["A", "B"], groups=["GLO", "C"], rev=True),
           dict(h="markets", faces=3, at=["GLO", "C"], markets=["A", "B", "RoW"], groups=["C"]),
           dict(h="markets", faces=2, at="A", markets=["GLO"], regions="AB", more=True, q="refinery gas, treated"),
           dict(h="markets", faces=2, at="A", markets=["GLO"], regions="AB", more=True, q="p"),
           dict(h="markets", faces=2, at="A", markets=["GLO"], regions="AB", more=True, q="refinery gas, treated", sold="Q"),
           dict(h="markets", faces=2, at="A", markets=["GLO"], regions="AB", more=True, q="q", sold="Q"),
           dict(h="markets", faces=2, at=["A"], markets=["GLO"], regions="AB", gas=1),
           dict(h="markets", faces=2, at=["A"], markets=["GLO"], regions="AB", gas=3)]
    out += [dict(h="markets", faces=2, at="GLO", markets=["A", "B"], regions="AB", unc=u)
            for u in ("lognormal", "normal", "triangular", "uniform", "undefined")]
    out += [dict(h="recycled", n=1), dict(h="recycled", n=2), dict(h="recycled", n=2, rev=True)]
    return out
