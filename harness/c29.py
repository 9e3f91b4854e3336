"""C29: invalid databases are rejected, valid ones pass unchanged."""
from voluptuous import Invalid
from harness.gen import exchange, dataset, snapshot, prop
from harness.c30 import ds, inp, market, out
from ocelot.configuration import consequential_config, cutoff_config, cutoff_config_ecoinvent_row
from ocelot.data_helpers import original_production_volume, production_volume, reference_products_as_string
from ocelot.errors import (IdenticalDatasets, InvalidExchange, InvalidMarket, InvalidMarketExchange, InvalidMultioutputDataset,
                           MarketGroupError, MissingAlternativeProducer, ParameterizationError, UnresolvableActivityLink)
from ocelot.io import dataset_schema
from ocelot.transformations import ensure_ids_are_unique, validate_markets
from ocelot.transformations.utils import (
    allocatable_production, copy_original_exchange_id, get_numerical_property, get_single_reference_product, iterate_all_parameters,
    iterate_all_uncertainties, nonproduction_exchanges)
from ocelot.transformations.validation import (
    check_single_output_activity, ensure_markets_dont_consume_their_ref_product, ensure_markets_only_have_one_reference_product,
    ensure_production_exchanges_have_production_volume)

INFO = dict(
    bounds="databases of up to 4 datasets with up to 4 exchanges (thorough: 5) of any type, classification, name, activity link and "
           "production volume; arbitrary real amounts up to 1e12; for the schema one dataset with two exchanges, a parameter, properties "
           "and every kind of uncertainty in which one field at a time is missing, unknown, of another type or another value; "
           "a database of four activities with one of nine defects, or none, that goes through each system model",
    outside="validation of XML files against the ecospold2 schema (lxml), the wording of error messages, whether fields of parameters or single pedigree scores may be missing (documented neither way)",
    assumptions=["emissions do not have the name of the product of their market"])
LABELS = ["repeated ids rejected", "markets with several products rejected", "markets that consume their product rejected",
          "missing production volumes rejected", "multi-output activities rejected", "valid databases pass unchanged",
          "products and other exchanges", "one reference product", "production volume", "names of products", "original ids kept",
          "properties by name", "system models reject invalid databases", "parameters found", "uncertainties found", "schema"]
TYPES = ["reference product", "byproduct", "from technosphere", "to environment", "dropped product"]
CLASSES = ["allocatable product", "waste", "recyclable"]


def flow(S, p, types=TYPES, classes=CLASSES, names=("steel", "power"), link=False):
    e = exchange(S, p, S.text(p + ".type", types), name=S.text(p + ".name", names))
    e["byproduct classification"] = S.text(p + ".class", classes)
    e["id"] = "id-" + p
    if link and S.bool(p + ".linked"):
        e["activity link"] = "somewhere"
    return e


def is_rp(e):
    return e["type"] == "reference product"


def product(S, e):
    return S.any_of([is_rp(e), S.all_of([e["type"] == "byproduct", e["byproduct classification"] == "allocatable product"])])


def count(S, conds):
    return sum([S.ite(c, 1, 0) for c in conds])


def attempt(S, label, f, data, wrong, errors, before):
    """``f`` raises one of ``errors`` exactly if ``wrong``."""
    try:
        out = f(data)
        done = True
    except errors:
        done = False
    S.iff("valid databases pass unchanged" if done else label, done, neg(S, wrong))
    if done:
        S.same("valid databases pass unchanged", out, before)


def neg(S, c):
    return not c if isinstance(c, bool) else ~c


def ids(S):
    n = S.case["n"]
    data = [dataset("d", [], id=S.text("id%d" % i, ["a", "b", "c"][:n + 1])) for i in range(n)]
    wrong = S.any_of([data[i]["id"] == data[j]["id"] for i in range(n) for j in range(i)])
    attempt(S, "repeated ids rejected", ensure_ids_are_unique, data, wrong, IdenticalDatasets, snapshot(data))


def markets(S):
    c = S.case
    data = []
    for j, n in enumerate(c["sizes"]):
        excs = [flow(S, "x%d%d" % (j, i), TYPES[:3], names=("steel", "power"), link=c.get("links")) for i in range(n)]
        d = dataset("d%d" % j, excs, type=S.text("t%d" % j, ["market activity", "transforming activity", "market group"]))
        data.append(d)
    before = snapshot(data)
    several, consumes = [], []
    for d in data:
        rps = [is_rp(e) for e in d["exchanges"]]
        market = d["type"] == "market activity"
        several.append(S.all_of([market, count(S, rps) != 1]))
        for e in d["exchanges"]:
            for r in d["exchanges"]:
                if e is not r and "activity link" not in e:
                    consumes.append(S.all_of([market, is_rp(r), neg(S, is_rp(e)), e["name"] == r["name"]]))
                    if c["f"] != "several":  # negative products are no consumption
                        S.assume(S.any_of([e["type"] != "byproduct", e["name"] != r["name"]]))
    several, consumes = S.any_of(several), S.any_of(consumes)
    if c["f"] == "several":
        attempt(S, "markets with several products rejected", ensure_markets_only_have_one_reference_product, data, several,
                InvalidMarket, before)
    elif c["f"] == "consumes":
        S.assume(neg(S, several))
        attempt(S, "markets that consume their product rejected", ensure_markets_dont_consume_their_ref_product, data, consumes,
                InvalidMarketExchange, before)
    else:
        try:
            out, how = validate_markets(data), "valid"
        except InvalidMarketExchange:
            how = "consumes"
        except InvalidMarket:
            how = "several"
        S.iff("valid databases pass unchanged", how == "valid", S.all_of([neg(S, several), neg(S, consumes)]))
        S.iff("markets with several products rejected", how == "several", several)
        if how == "valid":
            S.same("valid databases pass unchanged", out, before)


def volumes(S):
    c = S.case
    data = [dataset("d%d" % j, [flow(S, "x%d%d" % (j, i)) for i in range(n)]) for j, n in enumerate(c["sizes"])]
    wrong = []
    for j, d in enumerate(data):
        for i, e in enumerate(d["exchanges"]):
            if S.bool("pv%d%d" % (j, i)):
                e["production volume"] = {"amount": S.real("v%d%d" % (j, i))}
            else:
                wrong.append(product(S, e))
    attempt(S, "missing production volumes rejected", ensure_production_exchanges_have_production_volume, data, S.any_of(wrong),
            InvalidExchange, snapshot(data))


DEFECTS = {"none": None, "ids": IdenticalDatasets, "variables": ParameterizationError, "two products": InvalidMarket,
           "own product": InvalidMarketExchange, "volume": InvalidExchange, "byproduct volume": InvalidExchange,
           "link": UnresolvableActivityLink, "group": MarketGroupError, "alternative": MissingAlternativeProducer}


def configured(S):
    """The system models themselves reject what is invalid."""
    config = dict(cutoff=cutoff_config, row=cutoff_config_ecoinvent_row, consequential=consequential_config)[S.case["config"]]
    make = ds("make steel", [out(S, "a", "steel", pv=S.pos("a.pv")), inp(S, "b", "power")])
    extra = out(S, "h", "power", "a", pv=S.pos("h.pv"), price=True)
    make["exchanges"][0]["properties"] = [prop("price", S.pos("a.price"))]
    plant = ds("plant", [out(S, "p", "power"), dict(inp(S, "q", "steel"), formula="2 * x", amount=3.0)],
               parameters=[{"name": "x", "id": "px", "variable": "x", "amount": 1.5}])
    db = [make, plant, market(S, "steel"), market(S, "power")]
    only = {"link": ("cutoff", "row"), "group": ("cutoff", "row"), "alternative": ("consequential",)}
    bad = S.choice("defect", [d for d in DEFECTS if S.case["config"] in only.get(d, S.case["config"])])
    if bad == "ids":
        db[3]["id"] = plant["id"]
    elif bad == "variables":
        plant["exchanges"][0]["variable"] = "x"
    elif bad == "two products":
        db[3]["exchanges"].append(out(S, "m", "heat"))
    elif bad == "own product":
        db[3]["exchanges"].append(inp(S, "m", "power"))
    elif bad == "volume":
        del plant["exchanges"][0]["production volume"]
    elif bad == "byproduct volume":
        del extra["production volume"]
        make["exchanges"].append(extra)
    elif bad == "link":
        make["exchanges"][1]["activity link"] = "nowhere"
    elif bad == "group":
        db.append(ds("market group for power", [out(S, "g", "power", pv=0, amount=1)], "market group", "RoW"))
    elif bad == "alternative":
        extra["name"] = "heat"
        make["exchanges"].append(extra)
    before = snapshot(db)
    try:
        final, error = config(db[::-1] if S.bool("rev") else db), None
    except tuple(set(filter(None, DEFECTS.values()))) as e:
        error = type(e)
    S.check("valid databases pass unchanged" if bad == "none" else bad_label(bad), error is DEFECTS[bad], str(error))
    if error is None and bad == "none":
        S.check("valid databases pass unchanged", len(final) == len(before))
        # exchanges that were there remember their ids
        for d in final:
            for e in d["exchanges"]:
                S.check("original ids kept", "original id" not in e or e["original id"] == e["id"])
            S.check("original ids kept", all("original id" in e for e in d["exchanges"] if e.get("id")))


def bad_label(bad):
    return {"ids": "repeated ids rejected", "two products": "markets with several products rejected",
            "own product": "markets that consume their product rejected"}.get(bad, "missing production volumes rejected"
                                                                               if "volume" in bad else "system models reject invalid databases")


def single(S):
    d = dataset("d", [flow(S, "x%d" % i, TYPES[:3] + TYPES[4:]) for i in range(S.case["n"])])
    wrong = S.any_of([count(S, [is_rp(e) for e in d["exchanges"]]) != 1] + [
        S.all_of([e["type"] == "byproduct", e["byproduct classification"] == "allocatable product"]) for e in d["exchanges"]])
    attempt(S, "multi-output activities rejected", check_single_output_activity, d, wrong, InvalidMultioutputDataset, snapshot(d))


def accessors(S):
    """Products, their volumes and names."""
    n = S.case["n"]
    excs = [flow(S, "x%d" % i, TYPES, names=S.case.get("names", ("steel", "power"))) for i in range(n)]
    for i, e in enumerate(excs):
        kind = S.choice("pv%d" % i, ["none", "empty", "both", "amount"]) if i == S.case.get("pv", 0) else "amount"
        if kind != "none":
            e["production volume"] = {}
            if kind in ("both", "amount"):
                e["production volume"]["amount"] = S.real("v%d" % i)
            if kind == "both":
                e["production volume"]["original amount"] = S.real("o%d" % i)
    d = dataset("d", excs)
    before = snapshot(d)
    made, rest = list(allocatable_production(d)), list(nonproduction_exchanges(d))
    ids = lambda xs: [e["id"] for e in xs]
    S.check("products and other exchanges", sorted(ids(made + rest)) == ids(excs) and ids(made) == sorted(ids(made))
            and ids(rest) == sorted(ids(rest)))
    for e in excs:
        S.iff("products and other exchanges", any(e is m for m in made), product(S, e))
    rps = [e for e in excs if bool(is_rp(e))]
    try:
        S.check("one reference product", get_single_reference_product(d) is rps[0] and len(rps) == 1)
        S.check("one reference product", len(rps) == 1)
    except InvalidMultioutputDataset:
        S.check("one reference product", len(rps) > 1)
    except ValueError:
        S.check("one reference product", not rps)
    pv = rps[0].get("production volume", {}) if len(rps) == 1 else {}
    default = S.real("default")
    S.same("production volume", production_volume(d, default), pv.get("amount", default))
    S.same("production volume", production_volume(d), pv.get("amount"))
    S.same("production volume", original_production_volume(d, default), pv.get("original amount", pv.get("amount", default)))
    names = reference_products_as_string(d)
    S.check("names of products", str(names) == ("|".join(sorted(str(e["name"]) for e in rps)) or "None found"))
    S.same("products and other exchanges", d, before)


def originals(S):
    data = [dataset("d%d" % j, [flow(S, "x%d%d" % (j, i)) for i in range(2)]) for j in range(2)]
    for j, d in enumerate(data):
        for i, e in enumerate(d["exchanges"]):
            e["id"] = S.text("id%d%d" % (j, i), ["a", "b"])
            if S.bool("old%d%d" % (j, i)):
                e["original id"] = "older"
    before = snapshot(data)
    out = copy_original_exchange_id(data)
    for d in before:
        for e in d["exchanges"]:
            e["original id"] = e["id"]
    S.same("original ids kept", out, before)


def found(S):
    """Everything with a variable, formula, uncertainty or name is found."""
    excs, things = [], []
    for i in range(S.case["n"]):
        e = flow(S, "x%d" % i, TYPES[:3])
        things.append(e)
        if S.bool("pv%d" % i):
            e["production volume"] = {"amount": S.real("v%d" % i)}
            things.append(e["production volume"])
        if S.bool("pr%d" % i):
            e["properties"] = [prop("price", S.real("p%d" % i)), prop("mass", S.real("m%d" % i))][:S.case["props"]]
            if S.case["props"] > 1:
                e["properties"].insert(0, prop("Mass", S.real("mm%d" % i)))
            things += e["properties"]
        excs.append(e)
    d = dataset("d", excs)
    if S.case["params"]:
        d["parameters"] = [dict(name="p", amount=S.real("pp%d" % i)) for i in range(S.case["params"])]
        things += d["parameters"]
    else:
        del d["parameters"]
    has = []
    for i, t in enumerate(things):
        kind = S.choice("has%d" % i, ["nothing", "variable", "formula", "uncertainty"])
        if kind != "nothing":
            t[kind] = "x" if kind != "uncertainty" else {"type": "lognormal"}
        has.append(kind)
    for f, label, kinds in ((iterate_all_parameters, "parameters found", ("variable", "formula")),
                            (iterate_all_uncertainties, "uncertainties found", ("uncertainty",))):
        got, want = [id(x) for x in f(d)], [id(t) for t, k in zip(things, has) if k in kinds]
        S.check(label, got == want, "%d instead of %d" % (len(got), len(want)))
    for e in excs:
        for name in ("price", "mass", "dry mass", "Price", "mas"):
            values = [p["amount"] for p in e.get("properties", []) if p["name"] == name]
            S.same("properties by name", get_numerical_property(e, name), values[0] if values else None)


KINDS = {"lognormal": ["mean", "variance with pedigree uncertainty", "mu?", "variance?"],
         "normal": ["mean", "variance with pedigree uncertainty", "variance?"], "triangular": ["minimum", "mode", "maximum"],
         "beta": ["minimum", "mode", "maximum"], "uniform": ["minimum", "maximum"],
         "undefined": ["minimum", "maximum", "standard deviation 95%"], "binomial": ["n", "p"], "gamma": ["shape", "scale"]}
PEDIGREE = ["reliability", "completeness", "temporal correlation", "geographical correlation", "further technology correlation"]
ACTIVITY = ["transforming activity", "market activity", "IO activity", "residual activity", "production mix", "import activity",
            "supply mix", "export activity", "re-export activity", "correction activity", "market group"]


def described(kind, scores):
    """A part of the schema: {field: (value, required)}; values: parts, lists of parts, or plain."""
    u = {k.rstrip("?"): (0.5, not k.endswith("?")) for k in KINDS[kind]}
    u["type"] = ([kind], True)
    u["pedigree matrix"] = ({k: (3, "open") for k in PEDIGREE} if scores else {}, True)
    name = {"amount": (1.5, True), "id": ("i", True), "name": ("n", True), "unit": ("kg", True), "formula": ("2 * x", False),
            "variable": ("x", False)}
    full = dict(name, uncertainty=(u, False))
    bare = {k: (v, "open") if k in ("amount", "id", "name", "unit") else (v, r) for k, (v, r) in full.items()}
    pv = {"amount": (1.5, True), "formula": ("x", False), "variable": ("y", False), "uncertainty": (u, False),
          "subtracted activity link volume": (0.5, False)}
    act = dict(full, tag=(["intermediateExchange"], True), type=(["from technosphere", "reference product", "byproduct", "dropped product"],
                                                                  True),
               properties=((full,), False))
    act["activity link"] = ("x", False)
    act["byproduct classification"] = (CLASSES, False)
    act["conditional exchange"] = (True, False)
    act["production volume"] = (pv, False)
    bio = dict(full, tag=(["elementaryExchange"], True), type=(["from environment", "to environment"], True), properties=((full,), False),
               compartment=("air", True), subcompartment=("urban", True))
    ds = {k: ("x", True) for k in ("economic scenario", "end date", "filepath", "id", "location", "name", "start date", "dataset author",
                                   "data entry", "ISIC classification")}
    ds.update({"code": ("x", False), "reference product": ("x", False), "parent": ("x", True), "parameters": ((bare,), True),
               "exchanges": ((act, bio), True), "access restricted": (["public", "licensees", "results only", "restricted"], True),
               "technology level": (["undefined", "new", "modern", "current", "old", "outdated"], True), "type": (ACTIVITY, True)})
    return ds


def built(S, part, path, wrong):
    """The part; ``wrong`` = (path of the field, what is wrong with it)."""
    if isinstance(part, tuple):
        return [built(S, p, "%s/%d" % (path, i), wrong) for i, p in enumerate(part)]
    if isinstance(part, list):
        return wrong[path] if path in wrong else S.text(path, part) if path == wrong.get("vary") else part[0]
    if not isinstance(part, dict):
        return part if path not in wrong else wrong[path]
    out = {}
    for k, (v, required) in part.items():
        p = "%s/%s" % (path, k)
        if wrong.get(p) != "missing":
            out[k] = built(S, v, p, wrong) if wrong.get(p) is None or not isinstance(v, (dict, tuple)) else wrong[p]
    if path + "/?" in wrong:
        out["unknown"] = 1
    return out


def fields(part, path=""):
    """All (path, value, required)."""
    if isinstance(part, tuple):
        for i, p in enumerate(part):
            yield from fields(p, "%s/%d" % (path, i))
    elif isinstance(part, dict):
        if part:
            yield path + "/?", None, None
        for k, (v, r) in part.items():
            yield "%s/%s" % (path, k), v, r
            yield from fields(v, "%s/%s" % (path, k))


def schema(S):
    """The documented format is accepted, and nothing else is."""
    c = S.case
    part = described(c["kind"], S.bool("scores") if c.get("scores") else True)
    spots = [f for f in fields(part) if f[0].startswith(c["at"]) and not f[0][len(c["at"]):].count("/") > c.get("deep", 9)]
    spot, value, required = spots[S.choice("spot", range(len(spots)))] if S.bool("spoil") else (None, None, None)
    wrong = {} if spot is not None else {"vary": S.choice("vary", [f for f, v, _ in fields(part) if isinstance(v, list)])}
    if spot is not None:
        if required is None:
            wrong[spot] = True
            ok = False
        else:
            how = S.choice("how", ["missing", "other"]) if required != "open" else "other"  # documented neither as required nor as optional
            ok = how == "missing" and not required
            other = (S.choice("other", [1.5, "x", None]) if isinstance(value, (dict, tuple)) else
                     S.choice("other", ["not this", 7, None, 1.5] + STRANGE.get(spot, [])) if isinstance(value, list) else
                     S.choice("other", [3, None, "x"]) if isinstance(value, float) else
                     S.choice("other", [None, 1.5, "x"]) if isinstance(value, (bool, int)) else S.choice("other", [None, 1.5, 3, ["x"]]))
            if spot == "/parent" and other is None:
                ok = True if how == "other" else ok
            wrong[spot] = how if how == "missing" else other
            if how != "missing" and other is None:
                wrong[spot] = NOTHING
    data = built(S, part, "", wrong)
    data = {k: v for k, v in clean(data).items()}
    try:
        out = dataset_schema(data)
        done = True
    except Invalid:
        done = False
    S.check("schema", done == ok if spot is not None else done, "%s %s" % (spot, wrong))


NOTHING = object()
STRANGE = {"/exchanges/0/type": ["from environment", "to environment"], "/exchanges/1/type": ["from technosphere", "reference product"],
           "/exchanges/0/tag": ["elementaryExchange"], "/exchanges/1/tag": ["intermediateExchange"],
           "/exchanges/0/byproduct classification": ["allocatable", "Waste"], "/type": ["Market activity", "market"],
           "/access restricted": ["Public"], "/technology level": ["Current"]}


def clean(x):
    if isinstance(x, dict):
        return {k: clean(v) for k, v in x.items()}
    if isinstance(x, list):
        return [clean(v) for v in x]
    return None if x is NOTHING else x


HARNESSES = dict(ids=ids, markets=markets, volumes=volumes, single=single, accessors=accessors, originals=originals, found=found, schema=schema, configured=configured)


def cases(tier):
    out = [dict(h="ids", n=n) for n in (1, 2, 3, 4)]
    for f in ("several", "consumes", "both"):
        out += [dict(h="markets", f=f, sizes=[3]), dict(h="markets", f=f, sizes=[2], links=True), dict(h="markets", f=f, sizes=[1, 2])]
    out += [dict(h="markets", f="several", sizes=[0]), dict(h="markets", f="consumes", sizes=[3], links=True)]
    out += [dict(h="volumes", sizes=s) for s in ([2], [1, 1], [3])]
    out += [dict(h="single", n=n) for n in (0, 1, 2, 3)]
    out += [dict(h="accessors", n=n) for n in (0, 1, 2)] + [dict(h="accessors", n=2, pv=1), dict(h="accessors", n=2, names=(" steel", "power "))]
    out += [dict(h="configured", config=c) for c in ("cutoff", "row", "consequential")]
    out += [dict(h="originals"), dict(h="found", n=1, props=2, params=1), dict(h="found", n=1, props=1, params=0)]
    out += [dict(h="schema", kind="lognormal", at="", deep=1), dict(h="schema", kind="lognormal", at="", deep=2)]
    out += [dict(h="schema", kind=k, at="/exchanges/0/uncertainty", scores=True) for k in KINDS]
    out += [dict(h="schema", kind="normal", at=a, deep=d) for a, d in (
        ("/exchanges/0/", 0), ("/exchanges/1/", 0), ("/exchanges/0/production volume/", 0), ("/exchanges/1/properties", 2), ("/parameters", 2))]
    if tier == "thorough":
        out += [dict(h="markets", f=f, sizes=[3, 2], links=True) for f in ("several", "both")] + [
            dict(h="markets", f=f, sizes=[4]) for f in ("several", "consumes", "both")]
        out += [dict(h="volumes", sizes=[2, 2]), dict(h="single", n=4), dict(h="single", n=5), dict(h="accessors", n=3),
                dict(h="found", n=2, props=2, params=1)]
        out += [dict(h="schema", kind=k, at="") for k in KINDS]
    return out
