"""C31: clean-up steps of the cutoff model and signs of markets."""
from harness.gen import exchange, with_uncertainty, prop, dataset, snapshot, scaled, check_exchanges, by_id
from harness.c06 import kinded
from harness.c30 import ds as activity, inp, market, out as made
from ocelot.configuration import cutoff_config, cutoff_config_ecoinvent_row
from ocelot.transformations.cutoff import adjust_market_signs_for_allocatable_products, cleanup_activity_links
from ocelot.transformations.cutoff.cleanup import (drop_rp_activity_links, drop_zero_amount_activity_links,
                                                   remove_consequential_exchanges)
from ocelot.transformations.cutoff.utils import delete_allocation_method

INFO = dict(
    bounds="up to 3 datasets with up to 5 exchanges; types, classifications, names and presence of links and properties "
           "chosen by the solver; amounts and property values are arbitrary reals up to 1e12; a "
           "database of seven activities and markets that goes through the cutoff models",
    outside="markets whose reference product has no classification; lognormal uncertainty on zero amounts",
    assumptions=["the uncertainty is consistent with the amount", "each market has one reference product"])
LABELS = ["links dropped", "links kept", "everything else kept", "consequential exchanges removed", "signs flipped",
          "signs kept", "allocation method deleted"]

LINKS = {"rp": drop_rp_activity_links, "zero": drop_zero_amount_activity_links, "both": cleanup_activity_links}


def links(S):
    f = LINKS[S.case["f"]]
    dss = []
    for j in range(S.case["n"]):
        excs = []
        for i in range(S.case["m"]):
            p = "x%d%d" % (j, i)
            e = kinded(S, p, S.choice("k" + p, S.case["kinds"]))
            if S.bool("l" + p):
                e["activity link"] = "link"
            e["conditional exchange"] = False
            excs.append(e)
        dss.append(dataset("d%d" % j, excs))
    before = snapshot(dss)
    out = f(dss)
    S.check("everything else kept", len(out) == len(before))
    for ds, old in zip(out, before):
        for e, o in zip(ds["exchanges"], old["exchanges"]):
            if "activity link" not in o:
                continue
            drop = S.case["f"] in ("rp", "both") and o["type"] in ("reference product", "dropped product")
            if S.case["f"] in ("zero", "both") and not drop:
                drop = o["amount"] == 0
            S.iff("links dropped", "activity link" not in e, drop)
            if "activity link" in e:
                S.check("links kept", e["activity link"] == "link")
            e.pop("activity link", None)
            o.pop("activity link", None)
        S.same("everything else kept", ds, old)


def consequential(S):
    dss = []
    for j in range(2):
        excs = []
        for i in range(S.case["m"] if j == 0 else 1):
            p = "x%d%d" % (j, i)
            e = kinded(S, p, S.choice("k" + p, "rt") if j == 0 else "t")
            props = []
            if S.bool("q" + p):
                props.append(prop(S.choice("n" + p, ["price", "consequential use", "Consequential", "not consequential"]) if (i, j) == (0, 0)
                                  else "price", 1))
            if S.bool("c" + p):
                props.append(prop("consequential", S.choice("v" + p, [S.real("cv" + p), 1])))
            if props or S.bool("e" + p):
                e["properties"] = props
            excs.append(e)
        dss.append(dataset("d%d" % j, excs))
    before = snapshot(dss)
    out = remove_consequential_exchanges(dss)
    S.check("everything else kept", len(out) == 2)
    for ds, old in zip(out, before):
        here = by_id(ds["exchanges"])
        for o in old["exchanges"]:
            gone = S.any_of([p["amount"] == 1 for p in o.get("properties", []) if p["name"] == "consequential"] or [False])
            S.iff("consequential exchanges removed", o["id"] not in here, gone)
        S.same("everything else kept", ds["exchanges"], [o for o in old["exchanges"] if o["id"] in here])
        S.same("everything else kept", {k: v for k, v in ds.items() if k != "exchanges"},
               {k: v for k, v in old.items() if k != "exchanges"})


def signs(S):
    c = S.case
    dss = []
    for j in range(c["n"]):
        q = "" if j == 0 else "y"
        rp = exchange(S, q + "rp", "reference product", name="P", **{
            "byproduct classification": S.choice(q + "cl", ["allocatable product", "waste", "recyclable"])})
        excs = [rp]
        for i in range(c["m"]):
            p = "%sx%d" % (q, i)
            e = exchange(S, p, S.choice("t" + p, ["from technosphere", "to environment"]),
                         name=S.choice("n" + p, ["P", "Q"]))
            if i == c.get("unc", -1):
                with_uncertainty(S, p, e, S.choice("u" + p, ["lognormal", "triangular", "normal", None]))
            excs.append(e)
        if c.get("last"):
            excs = excs[1:] + excs[:1]
        dss.append(dataset("d%d" % j, excs, type=S.choice(q + "type", ["market activity", "transforming activity",
                                                                       "market group"])))
    before = snapshot(dss)
    out = adjust_market_signs_for_allocatable_products(dss)
    S.check("everything else kept", len(out) == c["n"])
    for ds, old in zip(out, before):
        rp = [e for e in old["exchanges"] if e["type"] == "reference product"][0]
        want = old["exchanges"]
        label = "signs kept"
        if old["type"] == "market activity" and rp["byproduct classification"] != "waste":
            if all(bool(e["amount"] <= 0) for e in old["exchanges"]):
                want, label = [scaled(S, e, -1) for e in want], "signs flipped"
            elif bool(rp["amount"] < 0):
                want = [scaled(S, e, -1) if e["name"] == "P" else e for e in want]
                label = "signs flipped"
        S.same(label, ds["exchanges"], want)
        S.same("everything else kept", {k: v for k, v in ds.items() if k != "exchanges"},
               {k: v for k, v in old.items() if k != "exchanges"})


def method(S):
    dss = []
    for j in range(3):
        ds = dataset("d%d" % j, [exchange(S, "x%d" % j, "reference product")])
        if S.bool("m%d" % j):
            ds["allocation method"] = S.choice("a%d" % j, ["economic", "", None])
        dss.append(ds)
    before = snapshot(dss)
    out = delete_allocation_method(dss)
    for b in before:
        b.pop("allocation method", None)
    S.same("allocation method deleted", out, before)


def configured(S):
    """The system models clean up, too."""
    config = dict(cutoff=cutoff_config, row=cutoff_config_ecoinvent_row)[S.case["config"]]
    v, g = S.real("v"), S.real("g")
    f = inp(S, "f", "steel", amount=2.0, properties=[prop("consequential", v)])
    linked = inp(S, "g", "steel", amount=g, **{"activity link": "mill"})
    rp = made(S, "e", "power", amount=1.0, pv=5.0, **{"activity link": "nowhere"})
    gas = made(S, "h", "gas", "a", amount=1.0, pv=5.0, **{"activity link": "m-gas-GLO"})
    rp["properties"], gas["properties"] = [prop("price", 2.0)], [prop("price", 2.0)]
    db = [market(S, "gas"), activity("plant", [rp, f, linked, gas]), activity("mill", [made(S, "s", "steel", amount=1.0, pv=3.0)]),
          activity("burner", [made(S, "a", "ash", amount=1.0, pv=3.0)]),
          market(S, "power"), market(S, "steel"), market(S, "ash", amount=-1)]
    data = config(db[::-1] if S.bool("rev") else db)
    for d in data:
        for e in d["exchanges"]:
            if e["type"] in ("reference product", "dropped product"):
                S.check("links dropped", "activity link" not in e)
            if e["type"] == "reference product":
                S.check("links dropped", e["code"] == d["code"])
    final = {d["name"]: d for d in data if d["reference product"] != "gas" or d["name"] != "plant"}
    S.check("everything else kept", len(data) == 8 and len(final) == 7)
    now = {e["id"]: e for e in final["plant"]["exchanges"]}
    S.iff("consequential exchanges removed", "id-f" not in now, v == 1)
    S.iff("links dropped", now["id-g"]["code"] == final["market for steel"]["code"], g == 0)
    S.iff("links kept", now["id-g"]["code"] == final["mill"]["code"], g != 0)
    S.check("links dropped", "activity link" not in now["id-e"])
    S.eq("everything else kept", now["id-g"]["amount"], g / 2)
    for e in final["market for ash"]["exchanges"]:
        S.eq("signs flipped", e["amount"], 1)
    for d in final.values():
        S.check("allocation method deleted", "allocation method" not in d)


HARNESSES = dict(configured=configured, links=links, consequential=consequential, signs=signs, method=method)


def cases(tier):
    out = []
    for f in LINKS:
        out += [dict(h="links", f=f, n=1, m=2, kinds="rawdt"), dict(h="links", f=f, n=2, m=1, kinds="rdt"),
                dict(h="links", f=f, n=1, m=3, kinds="rd")]
    out += [dict(h="links", f=f, n=1, m=5, kinds="t") for f in LINKS]
    out += [dict(h="consequential", m=2), dict(h="signs", n=1, m=2, unc=1), dict(h="signs", n=1, m=3),
            dict(h="signs", n=1, m=2, last=True), dict(h="signs", n=2, m=1), dict(h="method")]
    out += [dict(h="configured", config=c) for c in ("cutoff", "row")]
    if tier == "thorough":
        out += [dict(h="links", f=f, n=1, m=3, kinds="rawdt") for f in LINKS]
        out += [dict(h="signs", n=2, m=2), dict(h="signs", n=1, m=5, last=True), dict(h="consequential", m=3),
                dict(h="links", f="both", n=2, m=3, kinds="rdt")]
    return out
