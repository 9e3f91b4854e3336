"""C16: global datasets become rest-of-world datasets."""
from itertools import combinations

from harness.gen import exchange, dataset, snapshot, neg
from harness.c06 import kinded
from harness.geo import geography
from harness.c30 import ds as plain, out as made, inp, market, links
from ocelot.configuration import cutoff_config, cutoff_config_ecoinvent_row, consequential_config
from ocelot.errors import MarketGroupError, MultipleGlobalDatasets
from ocelot.transformations.locations import (relabel_global_to_row, drop_zero_pv_row_datasets, check_no_row_market_groups,
                                              delete_global_with_zero_pv_when_regional_present,
                                              delete_whitelisted_zero_pv_market_datsets,
                                              assign_fake_pv_to_confidential_datasets, correct_natural_gas_pipeline_location)

INFO = dict(
    bounds="up to 4 datasets; names, types, locations, product names are symbolic finite-domain strings; amounts (zero "
           "included) and production volumes are arbitrary reals up to 1e12; a database "
           "of nine activities and markets that goes through the system models",
    outside="a product made by more than one rest-of-world activity of a kind (only the first one is looked at)",
    assumptions=["datasets with the same name and products have the same type", "one reference product per dataset"])
LABELS = ["becomes rest of world", "other locations kept", "remaining volume", "two global datasets rejected", "accepted",
          "everything else kept", "rest-of-world market group rejected", "dropped when empty", "known location fixed",
          "listed market removed", "listed producer gets a volume"]
TYPES = ("transforming activity", "market activity", "market group")


def activity(S, p, names, locations, products="P", byproduct=None, types=TYPES, original=False):
    rp = kinded(S, p + "r", "r", name=S.text(p + ".rp", products) if len(products) > 1 else products[0])
    rp["production volume"] = {"amount": S.real(p + ".pv")}
    if original:
        rp["production volume"]["original amount"] = S.real(p + ".orig")
    excs = [kinded(S, p + "i", "t", name="Y"), rp]
    if byproduct:
        b = kinded(S, p + "b", "a", name="Z")
        b["byproduct classification"] = S.text(p + ".bc", ["allocatable product", "waste"])
        b["production volume"] = {"amount": S.real(p + ".bpv")}
        excs.append(b)
    return dataset(S.text(p + ".name", names) if len(names) > 1 else names[0], excs, id="ds-" + p, filepath=p,
                   type=S.text(p + ".type", types) if len(types) > 1 else types[0],
                   location=S.text(p + ".loc", locations), **{"reference product": rp["name"]})


def rp_of(ds):
    return [e for e in ds["exchanges"] if e["type"] == "reference product"][0]


def volume(ds):
    pv = rp_of(ds)["production volume"]
    return pv.get("original amount", pv["amount"])


def same_key(S, a, b):
    ra, rb = rp_of(a), rp_of(b)
    there = S.all_of([ra["amount"] != 0, rb["amount"] != 0, ra["name"] == rb["name"]])
    conds = [a["name"] == b["name"], S.any_of([there, S.all_of([ra["amount"] == 0, rb["amount"] == 0])])]
    byp = [[S.all_of([e["byproduct classification"] == "allocatable product", e["amount"] != 0])
            for e in d["exchanges"] if e["name"] == "Z" and e["type"] == "byproduct"] or [False] for d in (a, b)]
    x, y = byp[0][0], byp[1][0]
    conds.append(S.any_of([S.all_of([x, y]), S.all_of([neg(S, x), neg(S, y)])]))
    return S.all_of(conds)


def relabel(S):
    c = S.case
    dss = [activity(S, "d%d" % i, c.get("names", "AB"), c.get("locs", ["GLO", "X", "RoW"]), c.get("products", "P"),
                    i in c.get("byproducts", ()), c.get("types", TYPES), i in c.get("original", ())) for i in range(c["n"])]
    if c.get("nonzero"):
        for d in dss:
            S.assume(rp_of(d)["amount"] != 0)
    n = len(dss)
    same = {}
    for i, j in combinations(range(n), 2):
        same[i, j] = same[j, i] = same_key(S, dss[i], dss[j])
        S.assume(S.any_of([neg(S, same[i, j]), dss[i]["type"] == dss[j]["type"]]))
    want = []
    for i, d in enumerate(dss):
        want.append(S.all_of([d["location"] == "GLO", d["type"] != "market group",
                              S.any_of([same[i, j] for j in range(n) if j != i] or [False])]))
    bad = S.any_of([S.all_of([same[i, j], want[i], want[j]]) for i, j in combinations(range(n), 2)] or [False])
    before = snapshot(dss)
    try:
        out, raised = relabel_global_to_row(dss), False
    except MultipleGlobalDatasets:
        out, raised = dss, True
    S.iff("two global datasets rejected" if raised else "accepted", raised, bad)
    if raised:
        return
    S.check("everything else kept", len(out) == n)
    for i, (a, b) in enumerate(zip(out, before)):
        S.iff("becomes rest of world", a["location"] == "RoW", S.any_of([want[i], b["location"] == "RoW"]))
        S.check("other locations kept", S.any_of([want[i], a["location"] == b["location"]]))
        pa, pb = rp_of(a)["production volume"], rp_of(b)["production volume"]
        left = pb["amount"] - sum((S.ite(same[i, j], volume(before[j]), 0) for j in range(n) if j != i), 0)
        S.eq("remaining volume", pa["amount"], S.ite(want[i], S.ite(left > 0, left, 0), pb["amount"]))
        S.iff("remaining volume", "global amount" in pa, want[i])
        if "global amount" in pa:
            S.eq("remaining volume", pa.pop("global amount"), pb["amount"])
        pa["amount"] = pb["amount"]
        a["location"] = b["location"]
    S.same("everything else kept", out, before)


def check_kept(S, label, dss, out, drop):
    """``out`` has the datasets for which ``drop`` does not hold, unchanged and in order."""
    left = [d["id"] for d in out]
    S.check(label, left == [d["id"] for d in dss if d["id"] in left])
    for d, c in zip(dss, drop):
        S.iff(label, d["id"] not in left, c)
    S.same("everything else kept", out, [d for d in dss if d["id"] in left])


def empty(S):
    c = S.case
    types = TYPES[:2]
    n = c["n"]
    dss = [activity(S, "d%d" % i, ["n%d" % i], ["GLO", "X", "RoW"], c.get("products", "PQ"), types=types,
                    original=i in c.get("original", ())) for i in range(n)]
    before = snapshot(dss)
    if c["what"] == "drop":
        drop = [S.all_of([d["location"] == "RoW", d["type"] == "market activity", rp_of(d)["production volume"]["amount"] == 0])
                for d in dss]
        out = drop_zero_pv_row_datasets(dss)
    else:
        kind = c["kind"]
        for a, b in combinations(dss, 2):
            S.assume(neg(S, S.all_of([a["location"] == "RoW", b["location"] == "RoW", a["type"] == b["type"],
                                      a["reference product"] == b["reference product"]])))
        drop = [S.all_of([d["location"] == "RoW", d["type"] == kind, volume(d) == 0,
                          S.any_of([S.all_of([o["type"] == kind, o["reference product"] == d["reference product"]])
                                    for o in dss if o is not d] or [False])]) for d in dss]
        if kind == "market activity" and c.get("default"):
            out = delete_global_with_zero_pv_when_regional_present(dss)
        else:
            out = delete_global_with_zero_pv_when_regional_present(dss, kind=kind)
    check_kept(S, "dropped when empty", before, out, drop)


def groups(S):
    dss = [activity(S, "d%d" % i, "A", ["GLO", "X", "RoW"]) for i in range(S.case["n"])]
    before = snapshot(dss)
    bad = S.any_of([S.all_of([d["type"] == "market group", d["location"] == "RoW"]) for d in dss])
    try:
        out, raised = check_no_row_market_groups(dss), False
    except MarketGroupError:
        out, raised = dss, True
    S.iff("rest-of-world market group rejected" if raised else "accepted", raised, bad)
    S.same("everything else kept", out, before)


PIPE = "transport, pipeline, long distance, natural gas"
OLD, NEW = "RER w/o DE+NL+NO", "RER w/o DE+NL+NO+RU"
MARKETS = ["market for refinery gas", "market for nitro-compound", "market for waste emulsion paint, on wall",
           "market for petrol, 85% ethanol by volume from biomass", "market for heat, solar+wood, one-family house, for hot water",
           "market for heat, solar+wood, one-family house, for combined system", "market for petrol", "refinery gas"]
CONFIDENTIAL = ["latex production", "zeolite production, powder", "citric acid production",
                "polycarboxylates production, 40% active substance", "zeolite production", "market for latex"]


def known(S):
    what = S.case["what"]
    names = dict(pipeline=[PIPE, "market for " + PIPE], markets=MARKETS, fake=CONFIDENTIAL)[what]
    dss = [activity(S, "d%d" % i, names, ["GLO", "RoW", OLD, NEW], types=TYPES[:2]) for i in range(2)]
    if what == "fake":
        dss[0]["exchanges"].insert(0, kinded(S, "byp", "a", name="Z", **{"production volume": {"amount": S.real("bpv")}}))
    before = snapshot(dss)
    if what == "markets":
        listed = [m for m in MARKETS[:6] if m != "market for heat, solar+wood, one-family house, for hot water"]
        drop = [S.all_of([d["type"] == "market activity", d["location"] == "GLO",
                          S.any_of([d["name"] == m for m in listed])]) for d in dss]
        out = delete_whitelisted_zero_pv_market_datsets(dss)
        check_kept(S, "listed market removed", before, out, drop)
        return
    if what == "pipeline":
        out = correct_natural_gas_pipeline_location(dss)
        for a, b in zip(out, before):
            fix = S.all_of([b["type"] == "transforming activity", b["name"] == PIPE, b["location"] == OLD])
            S.iff("known location fixed", a["location"] == NEW, S.any_of([fix, b["location"] == NEW]))
            S.check("known location fixed", S.any_of([fix, a["location"] == b["location"]]))
            a["location"] = b["location"]
    else:
        out = assign_fake_pv_to_confidential_datasets(dss)
        for a, b in zip(out, before):
            fix = S.all_of([b["type"] == "transforming activity", S.any_of([b["name"] == m for m in CONFIDENTIAL[:4]])])
            pa, pb = rp_of(a)["production volume"], rp_of(b)["production volume"]
            S.eq("listed producer gets a volume", pa["amount"], S.ite(fix, 1, pb["amount"]))
            pa["amount"] = pb["amount"]
    S.same("everything else kept", out, before)


def configured(S):
    """The fixes are part of the system models."""
    c = S.case["config"]
    config = dict(cutoff=cutoff_config, row=cutoff_config_ecoinvent_row, consequential=consequential_config)[c]
    here = NEW if c == "consequential" else OLD
    areas = geography(S, [NEW], 2)
    S.assume(areas[NEW] != areas["GLO"])
    v, w = S.pos("v"), S.pos("w")
    db = [plain("latex production", [made(S, "a", "latex", pv=S.choice("none", [0.0, -1.0]))]), plain("latex import", [made(S, "b", "latex", pv=v)]),
          plain(PIPE, [made(S, "p", "transport", pv=w), inp(S, "q", "latex")], location=here), market(S, "latex"),
          market(S, "transport", "GLO"), market(S, "refinery gas"), market(S, "transport", NEW),
          plain("user", [made(S, "u", "thing"), inp(S, "x", "transport"), inp(S, "y", "latex")], location=NEW), market(S, "thing")]
    if c == "consequential":
        del db[4]
    user = [d for d in db if d["name"] == "user"][0]
    x, y, q = user["exchanges"][1]["amount"], user["exchanges"][2]["amount"], db[2]["exchanges"][1]["amount"]
    u, p = user["exchanges"][0]["amount"], db[2]["exchanges"][0]["amount"]
    final = config(db[::-1] if S.bool("rev") else db)
    keys = sorted((d["name"], d["location"]) for d in final)
    want = [("latex import", "GLO"), ("latex production", "GLO"), ("market for latex", "GLO"), ("market for thing", "GLO"),
            ("market for transport", NEW), (PIPE, NEW), ("user", NEW)]
    S.check("listed market removed", all(k[0] != "market for refinery gas" for k in keys))
    S.check("known location fixed", [k for k in keys if k[0] == PIPE] == [(PIPE, NEW)])
    S.check("dropped when empty", [k for k in keys if "transport" in k[0] and k[0] != PIPE] == [("market for transport", NEW)])
    S.check("everything else kept", keys == sorted(want), str(keys))
    L, T, P = ("market for latex", "latex", "GLO"), ("market for transport", "transport", NEW), (PIPE, "transport", NEW)
    U = ("user", "thing", NEW)
    links(S, final, {L: {("latex production", "latex", "GLO"): 1 / (1 + v), ("latex import", "latex", "GLO"): v / (1 + v)},
                     T: {P: 1}, P: {L: q / p}, U: {T: x / u, L: y / u}}, "listed producer gets a volume")


HARNESSES = dict(configured=configured, relabel=relabel, empty=empty, groups=groups, known=known)


def cases(tier):
    out = [dict(h="relabel", n=3, nonzero=True, original=[1]), dict(h="relabel", n=2, products="PQ", byproducts=[0, 1],
                                                                  types=TYPES[:1], locs=["GLO", "X"]),
           dict(h="relabel", n=2, byproducts=[0], names="A", original=[0, 1]),
           dict(h="relabel", n=4, names="A", nonzero=True, types=TYPES[:1], locs=["GLO", "X"], original=[0, 3]),
           dict(h="relabel", n=1)]
    out += [dict(h="empty", what="drop", n=2), dict(h="empty", what="delete", n=3, kind="market activity", original=[0, 1]),
            dict(h="empty", what="delete", n=2, kind="market activity", default=True, original=[0]),
            dict(h="empty", what="delete", n=3, kind="transforming activity", original=[1]), dict(h="groups", n=3)]
    out += [dict(h="known", what=w) for w in ("pipeline", "markets", "fake")]
    out += [dict(h="configured", config=m) for m in ("cutoff", "row", "consequential")]
    if tier == "thorough":
        out += [dict(h="relabel", n=4, nonzero=True, original=[1, 2], types=TYPES[1:]),
                dict(h="relabel", n=3, products="PQ", byproducts=[0, 2], types=TYPES[:1])]
    return out
