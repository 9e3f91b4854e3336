"""C18: inputs of markets follow the production volumes of their suppliers."""
from harness.gen import dataset, snapshot, prop, scaled, with_uncertainty, by_id
from harness.c06 import kinded
from ocelot.transformations.locations import allocate_all_market_suppliers, update_market_production_volumes, delete_suppliers_list
from ocelot.transformations.locations.markets import allocate_suppliers

INFO = dict(
    bounds="up to 3 markets with up to 4 suppliers; production volumes are arbitrary non-negative reals (zero included) and "
           "reference product amounts arbitrary reals up to 1e12; all uncertainty kinds on split consumer inputs",
    outside="markets without a list of suppliers (C17 gives every market one)",
    assumptions=["production volumes are not negative"])
LABELS = ["share of the supplier", "inputs add up to the output", "supplier without production skipped", "single supplier takes all",
          "nothing to allocate by", "input data", "everything else kept", "volume of the market", "original total",
          "split input replaced", "lists removed"]
DEFAULT = 4321


def supplier(S, p, original=None, zero=False):
    pv = {"amount": S.real(p + ".pv", 0)}
    if original is not None and "o" in original:
        pv["original amount"] = S.real(p + ".orig", 0)
    if original is not None and "s" in original:
        pv["subtracted activity link volume"] = S.real(p + ".sub", 0)
    e = {"id": "e-" + p, "name": "product " + p, "type": "reference product", "unit": "unit " + p, "tag": "intermediateExchange",
         "amount": S.real(p + ".amount"), "production volume": pv, "location": "L" + p, "code": "code-" + p,
         "activity": "making " + p, "technology level": "new", "properties": [prop("price", 2)],
         "uncertainty": {"type": "undefined", "minimum": 0, "maximum": 1, "standard deviation 95%": 0.5}}
    return e


def market(S, p, n, type_="market activity", originals=()):
    rp = kinded(S, p + "r", "r", name="product")
    rp["production volume"] = {"amount": S.real(p + ".pv", 0)}
    d = dataset(p, [kinded(S, p + "t", "t", name="transport"), rp, kinded(S, p + "l", "t", name="product")], type=type_,
                location="X", **{"reference product": "product"})
    d["suppliers"] = [supplier(S, "%ss%d" % (p, i), dict(originals).get(i)) for i in range(n)]
    return d


def check_market(S, new, old):
    """The inputs that the market got are those of its suppliers."""
    rp = [e for e in old["exchanges"] if e["type"] == "reference product"][0]
    sups = old["suppliers"]
    pvs = [s["production volume"]["amount"] for s in sups]
    total = sum(pvs)
    k = len(old["exchanges"])
    S.same("everything else kept", new["exchanges"][:k], old["exchanges"])
    added = new["exchanges"][k:]
    if len(sups) > 1 and bool(total == 0):
        S.check("nothing to allocate by", added == [])
        S.same("everything else kept", new["suppliers"], sups)
        return
    default = len(sups) == 1 and bool(total == 0)
    got = {e["code"]: e for e in added}
    S.check("input data", len(got) == len(added))
    for s, pv in zip(sups, pvs):
        if default:
            S.check("single supplier takes all", s["code"] in got)
        else:
            S.iff("supplier without production skipped", s["code"] not in got, pv == 0)
        if s["code"] not in got:
            continue
        e = got.pop(s["code"])
        S.eq("single supplier takes all" if default else "share of the supplier", e["amount"],
             rp["amount"] if default else pv / total * rp["amount"])
        S.same("input data", {a: b for a, b in e.items() if a != "amount"},
               {"name": s["name"], "unit": s["unit"], "type": "from technosphere", "tag": "intermediateExchange", "code": s["code"]})
    S.check("input data", not got)
    S.eq("inputs add up to the output", sum(e["amount"] for e in added), rp["amount"])
    if default:
        S.eq("single supplier takes all", new["suppliers"][0]["production volume"].pop("amount"), DEFAULT)
        sups[0]["production volume"].pop("amount")
    S.same("everything else kept", new["suppliers"], sups)


def allocate(S):
    c = S.case
    dss = []
    for j, n in enumerate(c["suppliers"]):
        t = S.choice("t%d" % j, ["market activity", "market group", "transforming activity"]) if j == c.get("typed") else "market activity"
        dss.append(market(S, "m%d" % j, n, t))
    before = snapshot(dss)
    kind = c.get("kind")
    if c.get("single"):
        allocate_suppliers(dss[0])
        out, kind = dss, dss[0]["type"]
    elif kind:
        out = allocate_all_market_suppliers(dss, kind=kind)
    else:
        out, kind = allocate_all_market_suppliers(dss), "market activity"
    S.check("everything else kept", len(out) == len(before))
    for new, old in zip(out, before):
        if old["type"] != kind:
            S.same("everything else kept", new, old)
            continue
        check_market(S, new, old)
        for d in (new, old):
            d.pop("exchanges"), d.pop("suppliers")
        S.same("everything else kept", new, old)


def split(S):
    """An input of a consumer is divided among several suppliers."""
    c = S.case
    exc = with_uncertainty(S, "x", kinded(S, "x", "t", name="product", properties=[prop("price", 3)]), c["kind"])
    twin = kinded(S, "y", "t", name="product")
    ds = market(S, "c", c["n"], "transforming activity")
    ds["exchanges"] = ds["exchanges"][:2] + [exc, twin]
    before = snapshot(ds)
    total = sum(s["production volume"]["amount"] for s in before["suppliers"])
    S.assume(total > 0)
    allocate_suppliers(ds, is_market=False, exc=exc)
    old = before["exchanges"][2]
    keep = [e for e in ds["exchanges"] if e["id"] != "id-x"]
    S.same("everything else kept", keep, before["exchanges"][:2] + before["exchanges"][3:])
    new = [e for e in ds["exchanges"] if e["id"] == "id-x"]
    S.check("split input replaced", all("code" in e for e in new))
    got = {e.get("code"): e for e in new}
    for s in before["suppliers"]:
        pv = s["production volume"]["amount"]
        S.iff("supplier without production skipped", s["code"] not in got, pv == 0)
        if s["code"] in got:
            want = scaled(S, old, pv / total)
            want["code"] = s["code"]
            S.same("share of the supplier", got[s["code"]], want)
    S.eq("inputs add up to the output", sum(e["amount"] for e in new), old["amount"])
    for d in (ds, before):
        d.pop("exchanges")
    S.same("everything else kept", ds, before)


def update(S):
    c = S.case
    dss = []
    for j, n in enumerate(c["suppliers"]):
        d = market(S, "m%d" % j, n, "market activity", c["originals"])
        d["type"] = S.text("t%d" % j, ["market activity", "transforming activity"]) if j == c.get("typed") else "market activity"
        rp = d["exchanges"][1]
        rp["production volume"].update(c.get("extra", {}))
        if j == 0 or c.get("all"):
            rp["production volume"]["subtracted activity link volume"] = S.real("m%d.sub" % j)
        dss.append(d)
    if c.get("rev"):
        dss.reverse()
    before = snapshot(dss)
    out = update_market_production_volumes(dss)
    S.check("everything else kept", len(out) == len(before))
    for new, old in zip(out, before):
        is_market = old["type"] == "market activity"
        pn, po = new["exchanges"][1]["production volume"], old["exchanges"][1]["production volume"]
        left = sum((s["production volume"]["amount"] for s in old["suppliers"]), 0) - po.get("subtracted activity link volume", 0)
        S.eq("volume of the market", pn["amount"], S.ite(is_market, S.ite(left > 0, left, 0), po["amount"]))
        S.iff("original total", "original total" in pn, is_market)
        if "original total" in pn:
            S.eq("original total", pn.pop("original total"),
                 sum((s["production volume"].get("original amount", s["production volume"]["amount"]) for s in old["suppliers"]), 0))
        pn["amount"] = po["amount"]
        S.same("everything else kept", new, old)


def lists(S):
    dss = [market(S, "m%d" % i, i) for i in range(3)]
    dss.append(dataset("t", [kinded(S, "r", "r")]))
    before = snapshot(dss)
    out = delete_suppliers_list(dss)
    S.check("lists removed", not any("suppliers" in d for d in out))
    for d in before:
        d.pop("suppliers", None)
    S.same("everything else kept", out, before)


HARNESSES = dict(allocate=allocate, split=split, update=update, lists=lists)


def cases(tier):
    n = 4 if tier == "quick" else 6
    out = [dict(h="allocate", suppliers=[k], single=True) for k in range(1, n + 1)]
    out += [dict(h="allocate", suppliers=[2, 3, 1], typed=1), dict(h="allocate", suppliers=[2, 1], kind="market group", typed=0)]
    out += [dict(h="split", n=k, kind=u) for k in (2, 3) for u in (None, "lognormal", "normal", "triangular", "uniform", "undefined")]
    out += [dict(h="update", suppliers=[3, 2], originals=((0, "o"), (1, "s")), typed=1),
            dict(h="update", suppliers=[0, 1, 2], originals=((0, "os"),), rev=True, all=True, typed=0),
            dict(h="update", suppliers=[2, 1], originals=((0, "os"),), extra=dict(formula="a + b", variable="pv", comment="volume")),
            dict(h="update", suppliers=[n], originals=((1, "os"), (2, "o"))), dict(h="lists")]
    return out
