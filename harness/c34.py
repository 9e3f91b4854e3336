"""C34: the table of each transformation lists exactly what it changed."""
import logging
from harness import c11, c16, c19, c20
from harness.c06 import kinded, SUFFIX
from harness.gen import exchange, dataset, snapshot, prop, neg, is_product
from ocelot.transformations import add_pv_to_allocatable_byproducts, create_pv_parameters, ensure_mandatory_properties
from ocelot.transformations.locations import (
    actualize_activity_links, assign_fake_pv_to_confidential_datasets, delete_whitelisted_zero_pv_market_datsets,
    drop_zero_pv_row_datasets, link_consumers_to_recycled_content_activities, log_and_delete_unlinked_exchanges,
    update_market_production_volumes)
from ocelot.transformations.locations.markets import delete_global_with_zero_pv_when_regional_present
from ocelot.transformations.activity_links import update_activity_link_parent_child
from ocelot.transformations.consequential import delete_activity_links_to_constrained_markets, handle_constrained_markets
from ocelot.transformations.consequential.technology_levels import log_conflicting_technology_levels, switch_undefined_to_current
from ocelot.transformations.cutoff.allocation import label_allocation_method
from ocelot.transformations.cutoff.cleanup import (drop_rp_activity_links, drop_zero_amount_activity_links,
                                                   remove_consequential_exchanges)
from ocelot.transformations.cutoff.combined import combined_production
from ocelot.transformations.cutoff.markets import adjust_market_signs_for_allocatable_products, constrained_market_allocation
from ocelot.transformations.cutoff.wastes import (create_recycled_content_datasets, flip_non_allocatable_byproducts,
                                                  rename_recycled_content_products_after_linking)
from ocelot.transformations.parameterization import (delete_unparsable_formulas, fix_known_bad_formula_strings,
                                                     fix_math_formulas, fix_specific_ecoinvent_issues,
                                                     recalculate_all_parameterized_datasets, replace_implicit_references,
                                                     replace_reserved_words)
from ocelot.transformations.utils import normalize_reference_production_amount

INFO = dict(
    bounds="databases of two or three datasets with up to three exchanges each, whose types, classifications, links, names and amounts are "
           "symbolic; formulas and names from fixed lists; the geographies of C16, C19 and C20",
    outside="the detailed log; suppliers without a share of a linked input",
    assumptions=["names of activities and flows differ where rows are told apart by them"])
LABELS = ["changes are listed", "nothing else is listed", "rows say what changed"]
TYPES = ["reference product", "byproduct", "from technosphere", "dropped product"]
CLASSES = ["allocatable product", "waste", "recyclable"]
DTYPES = ["market activity", "transforming activity", "market group"]


class Finished(BaseException):
    pass


class Log(logging.Handler):
    def __init__(self):
        super().__init__()
        self.rows = []

    def emit(self, record):
        m = record.msg
        if isinstance(m, dict) and m.get("type") in ("table element", "list element"):
            self.rows.append(list(m["data"]) if m["type"] == "table element" and not isinstance(m["data"], str) else m["data"])


def logged(f, *args, **kw):
    """What ``f`` returns and the rows it lists."""
    log, logger = Log(), logging.getLogger("ocelot")
    was = logger.disabled, list(logger.handlers), logger.propagate, logger.level
    logger.disabled, logger.handlers, logger.propagate = False, [log], False
    logger.setLevel(logging.INFO)
    try:
        return f(*args, **kw), log.rows
    finally:
        logger.disabled, logger.handlers, logger.propagate = was[:3]
        logger.setLevel(was[3])


def fits(row, want):
    return len(row) == len(want) and all(a == b for a, b in zip(row, want) if type(a) is str and type(b) is str)


def rows(S, got, expect):
    """``expect``: list of (condition, row); strings tell rows apart."""
    left = list(got)
    for cond, want in expect:
        found = [r for r in left if isinstance(r, list) and fits(r, want)]
        S.iff("changes are listed", len(found) == 1, cond, "%d rows for %s" % (len(found), want[0]))
        S.check("nothing else is listed", len(found) < 2)
        if found:
            left = [r for r in left if r is not found[0]]
            for a, b in zip(found[0], want):
                if isinstance(b, bool) or isinstance(b, str) or not S.isnum(b):
                    S.check("rows say what changed", a == b)
                else:
                    S.check("rows say what changed", S.isnum(a))
                    S.eq("rows say what changed", a, b)
    S.check("nothing else is listed", not left, "%d more rows" % len(left))


def flows(S, p, n, types=TYPES, classes=CLASSES, **kw):
    out = []
    for i in range(n):
        e = exchange(S, "%s%d" % (p, i), "", name="flow %s%d" % (p, i))
        e["type"] = S.text("%s%d.type" % (p, i), types) if len(types) > 1 else types[0]
        if classes:
            e["byproduct classification"] = S.text("%s%d.class" % (p, i), classes)
        out.append(e)
    return out


def two(S, n=2, **kw):
    return [dataset("activity " + d, flows(S, d, n, **kw), location=l, parent=None) for d, l in (("A", "CH"), ("B", "RoW"))]


def each(dss):
    return [(d, e) for d in dss for e in d["exchanges"]]


# cutoff: cleaning up

def zero_links(S):
    dss = two(S, types=["from technosphere"], classes=())
    linked = {}
    for d, e in each(dss):
        if S.bool(e["id"]):
            e["activity link"] = "x"
    want = [(S.all_of([e["amount"] == 0, "activity link" in e]), [d["name"], e["name"]]) for d, e in each(dss)]
    rows(S, logged(drop_zero_amount_activity_links, dss)[1], want)


def rp_links(S):
    dss = two(S, classes=())
    for d, e in each(dss):
        if S.bool(e["id"]):
            e["activity link"] = "x"
    want = [(S.all_of(["activity link" in e, S.any_of([e["type"] == "reference product", e["type"] == "dropped product"])]),
             [d["name"], e["name"]]) for d, e in each(dss)]
    rows(S, logged(drop_rp_activity_links, dss)[1], want)


def consequential(S):
    dss = two(S, types=["from technosphere"], classes=())
    for d, e in each(dss):
        e["properties"] = [prop(S.text(e["id"] + "p", ["consequential", "price"]), S.real(e["id"] + "v"))]
    want = [(S.all_of([e["properties"][0]["name"] == "consequential", e["properties"][0]["amount"] == 1]),
             [d["name"], e["name"], e["amount"]]) for d, e in each(dss)]
    rows(S, logged(remove_consequential_exchanges, dss)[1], want)


def parent(S):
    dss = two(S, n=1, types=["from technosphere"], classes=())
    for d in dss:
        d["exchanges"].append(kinded(S, "r" + d["name"], "r"))
        d["parent"] = S.choice(d["name"], ["P", None, "Q"])
        for e in d["exchanges"]:
            e["activity link"] = S.text(e["id"] + "l", ["P", "Q", "ds-" + d["name"]])
    want = [(S.all_of([bool(d["parent"]), e["type"] != "reference product", e["activity link"] == d["parent"]]),
             [d["name"], d["location"], e["amount"]]) for d, e in each(dss) if not e["type"] == "reference product"]
    rows(S, logged(update_activity_link_parent_child, dss)[1], want)


def conditional(S):
    ds = two(S, n=3)[0]
    for e in ds["exchanges"]:
        e["conditional exchange"] = S.symbool(e["id"] + "c")
    want = [(S.all_of([e["type"] == "byproduct", e["conditional exchange"]]), [ds["name"], e["name"]]) for e in ds["exchanges"]]
    rows(S, logged(constrained_market_allocation, ds)[1], want)


def signs(S):
    dss = two(S, n=1, types=["from technosphere"], classes=())
    for d in dss:
        rp = kinded(S, "r" + d["name"], "r")
        rp["byproduct classification"] = S.text("c" + d["name"], CLASSES)
        d["exchanges"].insert(S.case["at"], rp)
        d["type"] = S.text("t" + d["name"], DTYPES)
    want = []
    for d in dss:
        rp = d["exchanges"][S.case["at"]]
        want.append((S.all_of([d["type"] == "market activity", rp["byproduct classification"] != "waste",
                               S.any_of([rp["amount"] < 0, S.all_of([e["amount"] <= 0 for e in d["exchanges"]])])]),
                     [d["name"], d["location"]]))
    rows(S, logged(adjust_market_signs_for_allocatable_products, dss)[1], want)


# cutoff: recycled content

def renamed(S):
    dss = two(S)
    want = []
    for d in dss:
        for e in d["exchanges"]:
            if S.bool(e["id"]):
                want.append((True, [d["name"], e["name"], e["type"], d["location"]]))
                e["name"] += SUFFIX
        k = S.choice(d["name"], ["suffix", "plain", None])
        if k:
            d["reference product"] = "thing" + (SUFFIX if k == "suffix" else "")
        if k == "suffix":
            want.append((True, [d["name"], "thing", "RP label", d["location"]]))
    rows(S, logged(rename_recycled_content_products_after_linking, dss)[1], want)


def created(S):
    dss = two(S)
    names = {}
    for d, e in each(dss):
        d["data entry"] = "somebody"
        e["name"] = S.choice(e["id"], ["scrap", e["name"]])
        names.setdefault(e["name"], []).append(S.all_of([e["type"] == "byproduct", e["byproduct classification"] == "recyclable"]))
    rows(S, logged(create_recycled_content_datasets, dss)[1], [(S.any_of(c), [n]) for n, c in names.items()])


def flipped(S):
    dss = two(S)
    want = [(S.all_of([e["type"] == "byproduct", e["byproduct classification"] != "allocatable product"]),
             [d["name"], e["name"], e["byproduct classification"]]) for d, e in each(dss)]
    rows(S, logged(flip_non_allocatable_byproducts, dss)[1], want)


# production volumes

def produced(S, p, code="r", **kw):
    e = kinded(S, p, code, name="product " + p, **kw)
    e["production volume"] = {"amount": S.real(p + ".pv", 0)}
    return e


def row_dropped(S):
    dss = []
    for j in range(2):
        d = dataset("activity %d" % j, [produced(S, "p%d" % j), kinded(S, "t%d" % j, "t")])
        d["type"] = S.text("type%d" % j, DTYPES)
        d["location"] = S.text("l%d" % j, ["RoW", "GLO", "CH"])
        dss.append(d)
    want = [(S.all_of([d["type"] == "market activity", d["location"] == "RoW", d["exchanges"][0]["production volume"]["amount"] == 0]),
             [d["name"], d["exchanges"][0]["name"]]) for d in dss]
    rows(S, logged(drop_zero_pv_row_datasets, dss)[1], want)


def market_volumes(S):
    dss, want = [], []
    for j in range(2):
        rp = produced(S, "p%d" % j)
        sup = [produced(S, "s%d%d" % (j, i)) for i in range(S.case["n"] if j else 1)]
        for e in sup:
            if S.bool(e["id"] + "o"):
                e["production volume"]["original amount"] = S.real(e["id"] + "ov", 0)
            if S.bool(e["id"] + "s"):
                e["production volume"]["subtracted activity link volume"] = S.real(e["id"] + "sv", 0)
        market = 0
        if S.bool("ms%d" % j):
            market = rp["production volume"]["subtracted activity link volume"] = S.real("msv%d" % j, 0)
        d = dataset("market %d" % j, [rp], type="market activity", location="L%d" % j, suppliers=sup)
        dss.append(d)
        pvs = [e["production volume"] for e in sup]
        net = sum(v["amount"] for v in pvs) - market
        want.append((True, [d["name"], rp["name"], d["location"], sum(v.get("original amount", v["amount"]) for v in pvs),
                            sum(v.get("subtracted activity link volume", 0) for v in pvs), market, S.ite(net > 0, net, 0)]))
    dss.append(dataset("maker", [produced(S, "x")]))
    rows(S, logged(update_market_production_volumes, dss)[1], want)


def whitelisted(S):
    dss = []
    names = ["market for refinery gas", "market for spent oxychlor catalyst for ethylene dichloride production", "market for gas"]
    for j in range(2):
        d = dataset(S.choice("n%d" % j, names), [produced(S, "p%d" % j)])
        d["reference product"] = "product p%d" % j
        d["type"] = S.text("t%d" % j, DTYPES)
        d["location"] = S.text("l%d" % j, ["RoW", "GLO", "CH"])
        dss.append(d)
    want = [(S.all_of([d["type"] == "market activity", d["location"] == "GLO", d["name"] in names[:2]]),
             [d["name"], d["reference product"]]) for d in dss]
    rows(S, logged(delete_whitelisted_zero_pv_market_datsets, dss)[1], want)


def confidential(S):
    dss = []
    names = ["latex production", "zeolite production, slurry, without water, in 50% solution state", "steel production"]
    for j in range(2):
        d = dataset(S.choice("n%d" % j, names), [kinded(S, "t%d" % j, "t"), produced(S, "p%d" % j)])
        d["type"] = S.text("t%d.type" % j, DTYPES)
        dss.append(d)
    want = [(S.all_of([d["type"] == "transforming activity", d["name"] in names[:2]]), [d["name"], d["exchanges"][1]["name"], 1])
            for d in dss]
    rows(S, logged(assign_fake_pv_to_confidential_datasets, dss)[1], want)


def regional(S):
    dss = []
    for j in range(S.case["n"]):
        d = dataset("market %d" % j, [produced(S, "p%d" % j)])
        d["reference product"] = S.choice("rp%d" % j, ["P", "Q"])
        d["type"] = S.text("t%d" % j, DTYPES)
        d["location"] = S.choice("l%d" % j, ["RoW", "GLO", "CH"])
        if j == 0 and S.bool("o%d" % j):
            d["exchanges"][0]["production volume"]["original amount"] = S.real("ov%d" % j, 0)
        dss.append(d)
    want = []
    for d in dss:
        same = [o for o in dss if o["reference product"] == d["reference product"] and o is not d]
        if d["location"] == "RoW" and any(o["location"] == "RoW" for o in same):
            S.cut("one rest of the world per product")
        pv = d["exchanges"][0]["production volume"]
        want.append((S.all_of([d["location"] == "RoW", d["type"] == "market activity", pv.get("original amount", pv["amount"]) == 0,
                               S.any_of([o["type"] == "market activity" for o in same])]),
                     [d["name"], d["reference product"], "RoW"]))
    rows(S, logged(delete_global_with_zero_pv_when_regional_present, dss)[1], want)


def byproducts(S):
    dss, want = [], []
    for j in range(2):
        excs = [produced(S, "r%d" % j)] + [produced(S, "b%d%d" % (j, i)) for i in range(2)]
        for e in excs[1:]:
            e["type"] = S.text(e["id"] + "t", ["byproduct", "from technosphere"])
            e["byproduct classification"] = S.text(e["id"] + "c", CLASSES)
        S.assume(excs[0]["amount"] != 0)
        d = dataset("activity %d" % j, excs)
        dss.append(d)
        scale = excs[0]["production volume"]["amount"] / excs[0]["amount"]
        for e in excs[1:]:
            want.append((S.all_of([e["type"] == "byproduct", e["byproduct classification"] == "allocatable product",
                                   e["production volume"]["amount"] == 0]), [d["name"], e["name"], abs(e["amount"] * scale)]))
    rows(S, logged(add_pv_to_allocatable_byproducts, dss)[1], want)


# linking

def unresolved(S):
    dss = two(S, n=1, types=["from technosphere"], classes=())
    for j, d in enumerate(dss):
        d["id"] = S.choice("id%d" % j, ["X", "Y"])
        d["code"] = "c%d" % j
        d["exchanges"].append(kinded(S, "q%d" % j, "t", name="flow A0"))
        d["reference product"] = S.text("rp%d" % j, ["flow A0", "flow B0"])
        for e in d["exchanges"]:
            if S.bool(e["id"]):
                e["activity link"] = S.choice(e["id"] + "l", ["X", "Y"])
    links = [e for d, e in each(dss) if "activity link" in e]
    for e in links:
        if all(d["id"] != e["activity link"] for d in dss):
            S.cut("links lead somewhere (C13)")
    want = []
    for e in links:
        n = sum(S.ite(d["reference product"] == e["name"], 1, 0) for d in dss if d["id"] == e["activity link"])
        want.append((n != 1, [e["activity link"], e["name"], e["amount"]]))
    got = logged(actualize_activity_links, dss)[1]
    # rows of links that look the same are told apart by their amounts only
    left = list(got)
    for cond, want in want:
        found = [r for r in left if fits(r, want) and bool(r[2] == want[2])]
        S.iff("changes are listed", len(found) > 0, cond)
        left = [r for r in left if not found or r is not found[0]]
    S.check("nothing else is listed", not left)


def unlinkable(S):
    dss = two(S, classes=())
    for d, e in each(dss):
        e["tag"] = S.text(e["id"] + "tag", ["intermediateExchange", "elementaryExchange"])
        if S.bool(e["id"]):
            e["code"] = "c"
    want = [(S.all_of([e["type"] == "from technosphere", "code" not in e]), [d["name"], e["name"], e["amount"]])
            for d, e in each(dss)]
    for d, e in each(dss):
        S.assume(S.any_of([e["type"] == "from technosphere", "code" in e, e["tag"] == "intermediateExchange"]))
    rows(S, logged(log_and_delete_unlinked_exchanges, dss)[1], want)


def recycled(S):
    dss = two(S, n=1, types=["from technosphere"], classes=())
    want = []
    makers = []
    for j in range(2):
        d = dataset("maker %d" % j, [], code="m%d" % j, **{"reference product": S.choice("rp%d" % j, ["a", "b", "a" + SUFFIX, "b" + SUFFIX])})
        d["type"] = S.choice("t%d" % j, DTYPES)
        makers.append(d)
    for d in dss:
        d["reference product"] = "z"
        e = d["exchanges"][0]
        e["name"] = S.choice(e["id"], ["a", "a" + SUFFIX])
        if S.bool(e["id"] + "done"):
            e["code"] = "already"
        fit = [m for m in makers if m["reference product"] == e["name"] and m["type"] == "transforming activity" and SUFFIX in e["name"]]
        if len(fit) == 1 and "code" not in e:
            want.append((True, [d["name"], e["name"], d["location"], fit[0]["name"]]))
    rows(S, logged(link_consumers_to_recycled_content_activities, makers[:1] + dss + makers[1:])[1], want)


def captured(S, module, name, function, expected, ready=None):
    """The databases of another property."""
    def run(data, *a, **k):
        if ready:
            ready(data)
        before = snapshot(data)
        try:
            out, got = logged(real, data, *a, **k)
        except Exception:  # whether that is right is not decided here
            raise Finished
        rows(S, got, expected(S, before, out))
        raise Finished
    real = getattr(module, function)
    c = S.case
    S.case = c["case"]
    setattr(module, function, run)
    try:
        module.HARNESSES[name](S)
    except Finished:
        pass
    finally:
        setattr(module, function, real)
        S.case = c


def to_row(S):
    def expected(S, before, out):
        return [(True, [a["name"], "; ".join(sorted(e["name"] for e in a["exchanges"] if is_product(e) and bool(e["amount"] != 0)))])
                for b, a in zip(before, out) if b["location"] == "GLO" and a["location"] == "RoW"]
    captured(S, c16, S.case["case"]["h"], "relabel_global_to_row", expected)


def groups(S):
    def expected(S, before, out):
        return [(True, [d["name"], d["location"], s["location"]]) for d in out if d["type"] == "market group"
                for s in d.get("suppliers", [])]
    captured(S, c19, S.case["case"]["h"], "link_market_group_suppliers", expected)


def consumers(S):
    def expected(S, before, out):
        want = []
        where = {d["code"]: d["location"] for d in out}
        for b, a in zip(before, out):
            for e in b["exchanges"]:
                if e["type"] != "from technosphere" or e.get("code"):
                    continue
                new = [x for x in a["exchanges"] if x["name"] == e["name"] and x["type"] == e["type"] and x.get("code") and
                       x["code"] not in [y.get("code") for y in b["exchanges"]]]
                if len(new) > 1:
                    want += [(True, [a["name"], a["location"], where[x["code"]]]) for x in new]
        return want

    def ready(data):
        """Every supplier gets a share."""
        for d in data:
            for e in d["exchanges"]:
                S.assume(e["amount"] != 0)
                if "production volume" in e:
                    S.assume(e["production volume"]["amount"] > 0)
    captured(S, c20, S.case["case"]["h"], "link_consumers_to_markets", expected, ready)


# consequential

def constrained(S):
    dss, want = [], []
    for j in range(2):
        t = dataset("target %d" % j, [kinded(S, "r%d" % j, "r"), kinded(S, "i%d" % j, "t")], location="L%d" % j, id="t%d" % j)
        m = dataset("market %d" % j, [kinded(S, "m%d" % j, "r"), kinded(S, "b%d" % j, "a")], type="market activity", location="M%d" % j)
        t["exchanges"][1]["name"] = m["exchanges"][1]["name"]
        e = m["exchanges"][1]
        e["conditional exchange"] = S.symbool("c%d" % j)
        e["activity link"] = t["id"]
        use = dataset("user %d" % j, [kinded(S, "u%d" % j, "r"), kinded(S, "v%d" % j, "t")], location="U%d" % j)
        if S.bool("linked%d" % j):
            use["exchanges"][1]["activity link"] = S.text("l%d" % j, ["t0", "t1", "ds-market 0"])
        dss += [t, m, use]
        if S.case["what"] == "handle":
            want.append((e["conditional exchange"], [e["name"], t["name"], t["location"], t["exchanges"][0]["name"]]))
    if S.case["what"] == "handle":
        rows(S, logged(handle_constrained_markets, dss)[1], want)
        return
    hit = {"t%d" % j: dss[3 * j + 1]["exchanges"][1]["conditional exchange"] for j in range(2)}
    for d, e in each(dss):
        if "activity link" in e:
            to = S.any_of([S.all_of([e["activity link"] == k, c]) for k, c in hit.items()])
            own = e.get("conditional exchange", False)
            want.append((S.all_of([to, neg(S, own)]), [d["name"], d["location"], e["name"], e["amount"]]))
    rows(S, logged(delete_activity_links_to_constrained_markets, dss)[1], want)


def levels(S):
    dss = []
    for j in range(S.case["n"]):
        d = dataset("activity %d" % j, [], location="L%d" % j, **{"reference product": S.choice("rp%d" % j, ["P", "Q"])})
        d["type"] = S.text("t%d" % j, DTYPES)
        d["technology level"] = S.text("l%d" % j, ["undefined", "current", "new"])
        dss.append(d)
    acts = {p: [d for d in dss if d["reference product"] == p] for p in "PQ"}
    is_ = lambda d: d["type"] == "transforming activity"
    conflict = []
    for p, ds in acts.items():
        both = S.all_of([S.any_of([S.all_of([is_(d), d["technology level"] == l]) for d in ds]) for l in ("undefined", "current")])
        conflict.append((both, [p, sum(S.ite(is_(d), 1, 0) for d in ds)]))
    switched = [(S.all_of([is_(d), d["technology level"] == "undefined"]), [d["name"], d["reference product"], d["location"]]) for d in dss]
    dss, got = logged(log_conflicting_technology_levels, dss)
    rows(S, got, conflict)
    rows(S, logged(switch_undefined_to_current, dss)[1], switched)


# allocation

def normalized(S):
    ds = two(S, n=1, types=["from technosphere"], classes=())[0]
    rp = kinded(S, "rp", "r", amount=S.produced("amount"))
    ds["exchanges"].insert(S.case["at"], rp)
    a = abs(rp["amount"])
    quiet = S.case.get("quiet")
    want = [(S.all_of([neg(S, a == 1), not quiet]), [ds["name"], rp["name"], 1 / a])]
    S.assume(S.any_of([a == 1, abs(a - 1) >= 2 ** -20]))
    out, got = logged(normalize_reference_production_amount, ds, **({"log": False} if quiet else {}))
    rows(S, got, want)


def labels(S):
    """Every method is listed with the number of datasets that use it."""
    kinds = {"one": "rte", "two": "rae", "waste": "Wte", "market": "r", "joint": "rrt"}
    dss = []
    for j in range(3):
        k = S.choice("k%d" % j, list(kinds))
        excs = []
        for i, code in enumerate(kinds[k]):
            e = kinded(S, "x%d%d" % (j, i), code, amount=S.pos("x%d%d" % (j, i)) * (-1 if code == "W" else 1))
            e["properties"] = [prop("price", 1)] if code in "rab" else []
            e["conditional exchange"] = False
            excs.append(e)
        if k == "joint":
            for e in excs[:2]:
                e["variable"] = "v" + e["id"][-1]
        d = dataset("d%d" % j, excs, type="market activity" if k == "market" else "transforming activity")
        d["combined production"] = k == "joint"
        dss.append(d)
    out, got = logged(label_allocation_method, dss)
    used = [d["allocation method"] for d in out]
    S.check("rows say what changed", all(len(r) == 2 for r in got))
    S.check("nothing else is listed", len({r[0] for r in got}) == len(got))
    table = {r[0]: r[1] for r in got}
    S.check("changes are listed", all(str(m) in table for m in used))
    for name, n in table.items():
        S.check("rows say what changed", n == sum(1 for m in used if str(m) == name), name)


def joint(S):
    ds = dataset("joint", [kinded(S, "r%d" % i, "r", amount=S.real("r%d" % i)) for i in range(3)] + [kinded(S, "t", "t")], location="CH")
    for e in ds["exchanges"]:
        e["variable"] = "v" + e["id"].replace("-", "")
    before = snapshot(ds)
    quiet = S.case.get("quiet")
    out, got = logged(combined_production, ds, **({"plain": False} if quiet else {}))
    rows(S, got, [(S.all_of([e["amount"] != 0, not quiet]), ["joint", e["name"], "CH"]) for e in before["exchanges"][:3]])


# parameters

def places(S, p, formulas, variable=None):
    """A dataset with a formula in an exchange, a property, a volume and a parameter."""
    e = exchange(S, p + "e", "reference product", amount=S.real(p + "e"), properties=[prop("price", 1)],
                 **{"production volume": {"amount": S.real(p + ".pv", 0)}})
    ds = dataset("activity " + p, [e], location="L" + p, parameters=[{"name": "par", "id": "par" + p, "amount": S.real(p + ".par")}])
    hosts = [e, e["production volume"], e["properties"][0], ds["parameters"][0]]
    for i, h in enumerate(hosts):
        f = S.choice(p + "f%d" % i, formulas) if i in S.case["where"] else None
        if f is not None:
            h["formula"] = f
    return ds, [h for h in hosts if "formula" in h]


def formulas(S):
    what = S.case["what"]
    dss, want = [], []
    table = dict(
        math={"a^2": [["a^2", "^", "**"]], "a*5%": [["a*5%", "%", "e-2"]], "a+1": [],
              "power(a;2)": [["", "power(a;2)", "((a)**(2.0))"]],
              "if(a>1;2;3)": [["", "if(a>1;2;3)", "((2) if (a>1) else (3))"]],
              "power(a;2)+power(b;3)": [["", "power(b;3)", "((b)**(3.0))"], ["", "power(a;2)", "((a)**(2.0))"]]},
        words={"yield*2": [["yield", "yield*2"]], "yield+lambda": [["yield", "yield+lambda"], ["lambda", "yield+lambda"]],
               "a+in*2": [["in", "a+in*2"]], "a+2": [], "a if b else 3": []},
        unparsable={"3 +* 2": [["3 +* 2"]], "a+1": [], "a b" + "c" * 45: [["a b" + "c" * 37 + " " + "c" * 8]]})[what]
    for j in range(2):
        ds, hosts = places(S, "ab"[j], [None] + list(table))
        dss.append(ds)
        for h in hosts:
            want += [[ds["name"]] + r for r in table[h["formula"]]]
            if what == "words" and S.bool("v%d%d" % (j, hosts.index(h))):
                h["variable"] = S.choice("w%d%d" % (j, hosts.index(h)), ["yield", "good"])
                want += [[ds["name"], "yield", "yield"]] if h["variable"] == "yield" else []
    f = dict(math=fix_math_formulas, words=replace_reserved_words, unparsable=delete_unparsable_formulas)[what]
    got = logged(f, dss)[1]
    S.check("changes are listed", all(got.count(r) >= want.count(r) for r in want), "%s instead of %s" % (got, want))
    S.check("nothing else is listed", sorted(got) == sorted(want), "%s instead of %s" % (got, want))


def references(S):
    ids = ["0a-1", "0b-2", "0c-3"]
    uid = {k: "%s1111111-1111-1111-1111-111111111111" % k for k in "abc"}
    dss, want = [], []
    for p in "ab":
        e = exchange(S, p + "e", "reference product", id=uid["a"], amount=S.real(p + "e"), **{"production volume": {"amount": S.real(p + ".pv", 0)}})
        o = exchange(S, p + "o", "from technosphere", id=uid["b"], amount=S.real(p + "o"))
        ds = dataset("activity " + p, [e, o], parameters=[{"name": "par", "id": uid["c"], "amount": S.real(p + ".par")}])
        for h, n in ((e, "ve"), (e["production volume"], "vp"), (ds["parameters"][0], "vq")):
            if S.bool(p + n):
                h["variable"] = n
        pick = S.choice(p, ["e", "pv", "par", "both", None])
        texts = {"e": ("Ref('%s')" % uid["a"], e.get("variable", "ref_replacement_" + uid["a"].replace("-", ""))),
                 "pv": ("Ref('%s', 'ProductionVolume')" % uid["a"],
                        e["production volume"].get("variable", "ref_pv_replacement_" + uid["a"].replace("-", ""))),
                 "par": ("Ref('%s')" % uid["c"], ds["parameters"][0].get("variable", "ref_replacement_" + uid["c"].replace("-", "")))}
        used = ["pv", "par"] if pick == "both" else [pick] if pick else []
        if used:
            o["formula"] = " + ".join(texts[u][0] for u in used)
        want += [[ds["name"]] + list(texts[u]) for u in used]
        dss.append(ds)
    got = logged(replace_implicit_references, dss)[1]
    S.check("changes are listed", all(r in got for r in want), "%s instead of %s" % (got, want))
    S.check("nothing else is listed", sorted(got) == sorted(want), "%s instead of %s" % (got, want))


def shifted(S):
    ds = dataset("activity", [])
    want = []
    for i in range(3):
        e = produced(S, "p%d" % i)
        k = S.choice("k%d" % i, ["variable", "formula", "both", None, "no volume"])
        pv = e["production volume"]
        if k in ("variable", "both"):
            pv["variable"] = "v%d" % i
            want.append((True, ["activity", "Shifted PV parameter: v%d" % i, pv["amount"]]))
        if k in ("formula", "both"):
            pv["formula"] = "2 * 3"
        if k == "no volume":
            del e["production volume"]
        ds["exchanges"].append(e)
    rows(S, logged(create_pv_parameters, [ds])[1], want)


def special(S):
    """Corrections of single datasets."""
    dss, want = [], []
    for j in range(2):
        d = dataset(S.choice("n%d" % j, ["petroleum refinery operation", "petroleum refinery"]), location="L%d" % j,
                    exchanges=[exchange(S, "x%d%d" % (j, i), "byproduct", name=S.choice("f%d%d" % (j, i), ["refinery gas", "gas"])) for i in range(2)])
        dss.append(d)
        gone = sum(S.ite(e["amount"] == 0, 1, 0) for e in d["exchanges"] if e["name"] == "refinery gas")
        want.append((S.all_of([d["name"] == "petroleum refinery operation", gone > 0]), [d["name"], d["location"], 2, 2 - gone]))
    rows(S, logged(fix_specific_ecoinvent_issues, dss)[1], want)


def substituted(S):
    name = "thermoforming of plastic sheets"
    bad, good = "1/014000000/50*0.946", "1.3514285714285711e-09"
    dss, want = [], []
    for p in "ab":
        ds, hosts = places(S, p, [None, bad, "2 * (%s)" % bad, "2"])
        ds["name"] = S.choice(p, [name, "other"])
        want += ["%s (%s): Changed %s to %s" % (name, ds["location"], bad, good) for h in hosts if ds["name"] == name and bad in h["formula"]]
        dss.append(ds)
    got = logged(fix_known_bad_formula_strings, dss)[1]
    S.check("changes are listed", sorted(got) == sorted(want), "%s instead of %s" % (got, want))


def errors(S):
    dss, want = [], []
    for p in "ab":
        k = S.choice(p, ["fine", "circular", "unknown", "plain"])
        pars = {"fine": [("x", "2 * 3"), ("y", "x + 1")], "circular": [("x", "y + 1"), ("y", "x + 1")],
                "unknown": [("x", "2 + zzz")], "plain": [("x", None)]}[k]
        ds = dataset("activity " + p, [exchange(S, p + "e", "reference product", name="P" + p)], location="L" + p, **{"reference product": "P" + p})
        ds["parameters"] = [dict({"name": "p%d" % i, "id": "p%d" % i, "amount": 1.0, "variable": v}, **({"formula": f} if f else {}))
                            for i, (v, f) in enumerate(pars)]
        want.append((k in ("circular", "unknown"), [ds["name"], ds["reference product"], ds["location"]]))
        dss.append(ds)
    rows(S, logged(recalculate_all_parameterized_datasets, dss)[1], want)


def mandatory(S):
    """Properties that exchanges should have and have not."""
    ALL = ["carbon content fossil", "carbon content non-fossil", "dry mass", "water content", "water in wet mass", "wet mass"]
    dss = two(S, types=["from technosphere"], classes=())
    want = []
    for d, e in each(dss):
        k = S.choice(e["id"], ["all", "none", "dry", "two", "no properties"])
        names = {"all": ALL + ["price"], "none": ["price"], "dry": ALL[:2] + ALL[3:], "two": ALL[1:4] + ALL[5:], "no properties": []}[k]
        e["properties"] = [prop(n, S.real(e["id"] + n)) for n in names]
        if names:
            want.append((len(set(ALL) - set(names)) > 0, [d["name"], e["name"], "; ".join(n for n in ALL if n not in names)]))
    rows(S, logged(ensure_mandatory_properties, dss)[1], want)


HARNESSES = {f.__name__: f for f in (
    zero_links, rp_links, consequential, parent, conditional, signs, renamed, created, flipped, row_dropped, market_volumes,
    whitelisted, confidential, regional, byproducts, unresolved, unlinkable, recycled, to_row, groups, consumers, constrained,
    levels, normalized, labels, joint, formulas, references, shifted, special, substituted, errors, mandatory)}


def cases(tier):
    out = [dict(h=h) for h in ("zero_links", "rp_links", "consequential", "parent", "conditional", "renamed", "created", "flipped",
                               "row_dropped", "whitelisted", "confidential", "byproducts", "unresolved", "unlinkable", "recycled",
                               "labels", "joint", "references", "shifted", "special", "errors", "mandatory")]
    out += [dict(h="signs", at=0), dict(h="signs", at=1), dict(h="market_volumes", n=2), dict(h="regional", n=2), dict(h="regional", n=3),
            dict(h="constrained", what="handle"), dict(h="constrained", what="delete"), dict(h="levels", n=3),
            dict(h="normalized", at=0), dict(h="normalized", at=1), dict(h="normalized", at=0, quiet=True), dict(h="joint", quiet=True)]
    out += [dict(h="formulas", what=w, where=p) for w, ps in
            (("math", ([0, 2], [1, 3])), ("words", ([0], [1], [2], [3])), ("unparsable", ([0, 2], [1, 3]))) for p in ps]
    out += [dict(h="substituted", where=[0, 1]), dict(h="substituted", where=[2, 3])]
    for h, m, n in (("to_row", c16, 4), ("groups", c19, 4), ("consumers", c20, 8)):
        name = dict(to_row="relabel", groups="link", consumers="markets")[h]
        some = [c for c in m.cases("quick") if c["h"] == name and not c.get("more")]
        out += [dict(h=h, case=c) for c in (some if tier == "thorough" else some[:n])]
    return out
