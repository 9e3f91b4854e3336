"""C11: variables keep pointing at the same quantities."""
from harness.gen import exchange, prop, dataset, snapshot
from harness.c30 import ds as activity, inp, market, out as made
from ocelot.configuration import cutoff_config, cutoff_config_ecoinvent_row, consequential_config
from ocelot.errors import ParameterizationError
from ocelot.transformations import variable_names_are_unique, create_pv_parameters
from ocelot.transformations.cleanup import deparameterize
from ocelot.transformations.parameterization import replace_implicit_references, fix_ecoinvent_parameters
from ocelot.transformations.parameterization.known_ecoinvent_issues import (fix_known_bad_formula_strings,
                                                                            fix_specific_ecoinvent_issues)
from ocelot.transformations.parameterization.recalculation import recalculate

INFO = dict(
    bounds="up to 3 datasets with up to 4 variables each in exchanges, properties, production volumes and parameters, names "
           "and placement chosen by the solver; references by id to exchanges, parameters and production volumes, with and "
           "without an existing variable; amounts are arbitrary reals up to 1e12; a database of five "
           "activities and markets that goes through the system models",
    outside="references to properties (Ref with two ids); datasets without a list of parameters",
    assumptions=["ids are unique"])
LABELS = ["duplicates rejected", "unique names accepted", "reference has the value of its target", "existing variable used",
          "unknown reference rejected", "production volumes have no formulas", "values unchanged by shifting",
          "new parameter", "nothing else changes", "substitution keeps the value",
          "substitution keeps the value: pounds", "empty refinery gas removed", "other activities untouched", "no parameterisation left"]

U = ["%s-1111-2222-3333-44444444444%d" % (c * 8, i) for i, c in enumerate("aaabbb")]


def unique(S):
    names = ["x", "y", "z"]
    dss, dups = [], False
    for j in range(S.case["n"]):
        seen = []

        def var(o, p):
            n = S.choice(p, ([None] if S.case.get("optional") else []) + names)
            if n is not None:
                o["variable"] = n
                if S.case.get("formulas"):
                    o["formula"] = "1 + 1"
                seen.append(n)
            return o
        e1 = var(exchange(S, "e%d" % j, "reference product"), "n0%d" % j)
        e1["properties"] = [prop("price", 1.0), var(prop("mass", 2.0), "n1%d" % j)]
        e2 = exchange(S, "f%d" % j, "byproduct")
        e2["production volume"] = var({"amount": 1.0}, "n2%d" % j)
        pars = [var({"name": "p", "id": "p", "amount": 1.0}, "n3%d" % j)] if S.case.get("par") else []
        ds = dataset("d%d" % j, [e1, e2], parameters=pars)
        if len(set(seen)) != len(seen):
            dups = True
        dss.append(ds)
    before = snapshot(dss)
    try:
        out = variable_names_are_unique(dss)
        raised = False
    except ParameterizationError:
        raised, out = True, dss
    S.check("duplicates rejected" if dups else "unique names accepted", raised == dups)
    S.same("nothing else changes", out, before)


def references(S):
    """Ref('id') and Ref('id', 'ProductionVolume') become variables of the referenced objects."""
    ids = U[:4]
    e0 = exchange(S, "e0", "from technosphere", id=ids[0])
    e1 = exchange(S, "e1", "reference product", id=ids[1])
    e1["production volume"] = {"amount": S.real("pv1")}
    e2 = exchange(S, "e2", "byproduct", id=ids[2])
    e2["production volume"] = {"amount": S.real("pv2")}
    par = {"name": "p", "id": ids[3], "amount": S.real("par")}
    targets = {"e0": ("Ref('%s')" % ids[0], e0), "e1": ("ref('%s')" % ids[1], e1),
               "par": ("Ref('%s')" % ids[3], par), "pv1": ("Ref('%s', 'ProductionVolume')" % ids[1], e1["production volume"]),
               "pv2": ("ref('%s', 'ProductionVolume')" % ids[2], e2["production volume"])}
    named = {}
    for k in S.case["maybe"]:
        if S.bool("v" + k):
            targets[k][1]["variable"] = named[k] = "old_" + k
            if S.case.get("formulas"):
                targets[k][1].update(formula="5 / 2", amount=2.5)
    a, b = S.choice("a", sorted(targets)), S.choice("b", sorted(targets))
    shape, fn = S.choice("s", [("{a} + 2 * {b}", lambda x, y: x + 2 * y), ("3 - {a}", lambda x, y: 3 - x),
                               ("({a}) * {b} - {a}", lambda x, y: x * y - x)])
    va, vb = targets[a][1]["amount"], targets[b][1]["amount"]
    text = shape.format(a=targets[a][0], b=targets[b][0])
    x = {"formula": text, "amount": 0.0}
    e3 = exchange(S, "e3", "from technosphere")
    where = S.case["where"]
    if where == "exc":
        e3.update(x)
        x = e3
    elif where == "prop":
        x = prop("price", 0.0, formula=text)
        e3["properties"] = [prop("mass", 1.0), x]
    pars = [par]
    if where == "par":
        x.update(name="x", id="x")
        pars.insert(0, x)
    if where == "pv":
        e3["production volume"] = x
    order = [e0, e1, e2, e3] if not S.case.get("rev") else [e3, e2, e1, e0]
    other = dataset("other", [exchange(S, "o", "from technosphere", id=ids[0])])
    ds = dataset("d", order, parameters=pars)
    before = snapshot(ds)
    obefore = snapshot(other)
    datasets = [other, ds]
    out = replace_implicit_references(datasets)
    S.check("nothing else changes", len(out) == 2 and out[0] is other and out[1] is ds)
    S.same("other activities untouched", other, obefore)
    for k, n in named.items():
        S.check("existing variable used", targets[k][1]["variable"] == n)
    used = {a} | ({b} if "{b}" in shape else set())
    for k, (_, o) in targets.items():
        S.check("existing variable used", ("variable" in o) == (k in named or k in used))
    variable_names_are_unique([ds])
    after = snapshot(ds)
    S.check("reference has the value of its target", "Ref" not in x["formula"] and "ref('" not in x["formula"])
    recalculate(ds)
    S.eq("reference has the value of its target", x["amount"], fn(va, vb), text)
    for d in (before, after):
        for lst in (d["exchanges"], d["parameters"]):
            for o in lst:
                for q in [o, o.get("production volume", {})] + o.get("properties", []):
                    q.pop("variable", None)
                    q.pop("formula", None)
    S.same("nothing else changes", after, before)


def unknown(S):
    kind = S.choice("k", ["Ref('%s')" % U[4], "Ref('%s', 'ProductionVolume')" % U[4], "Ref('%s', 'ProductionVolume')" % U[0],
                          "Ref('%s', 'ProductionVolume')" % U[1]])
    ds = dataset("d", [exchange(S, "e", "from technosphere", id=U[0], formula="2 * " + kind)],
                 parameters=[{"name": "p", "id": U[1], "amount": S.real("p")}])
    try:
        replace_implicit_references([ds])
        raised = False
    except ValueError:
        raised = True
    S.check("unknown reference rejected", raised)


def shift(S):
    """Production volumes become constants; everything depending on them is unchanged."""
    x = S.real("x")
    e1 = exchange(S, "e1", "reference product", unit="MJ")
    pv1 = {"amount": x, "id": "keep"}
    e1["production volume"] = pv1
    e2 = exchange(S, "e2", "byproduct", unit="l")
    pv2 = {"amount": S.real("y")}
    e2["production volume"] = pv2
    e3 = exchange(S, "e3", "from technosphere")
    free = S.real("free")
    pars = [{"name": "f", "id": "f", "variable": "free", "amount": free}]
    k1 = S.choice("k1", ["", "v", "f", "vf"])
    k2 = S.choice("k2", ["", "v", "f", "vf"])
    if "v" in k1:
        pv1["variable"] = "pv_one"
    if "f" in k1:
        pv1["formula"] = "free * 2"
        pv1["amount"] = free * 2
    if "v" in k2:
        pv2["variable"] = "pv_two"
    if "f" in k2:
        pv2["formula"] = "pv_one + 1" if "v" in k1 else "free + 1"
        pv2["amount"] = (pv1["amount"] if "v" in k1 else free) + 1
    if "v" in k1:
        e3["formula"] = "pv_one * 3"
        e3["amount"] = pv1["amount"] * 3
    if "v" in k2:
        e3["properties"] = [prop("price", pv2["amount"] - 1, formula="pv_two - 1", variable="prc")]
    ds = dataset("d", [e1, e3, e2], parameters=pars)
    plain = dataset("p", [exchange(S, "z", "reference product", formula="1 + 1", variable="zz")])
    datasets = [plain, ds]
    before = snapshot(datasets)
    out = create_pv_parameters(datasets)
    S.check("nothing else changes", len(out) == 2 and out[0] is plain and out[1] is ds)
    S.same("nothing else changes", plain, before[0])
    for e in ds["exchanges"]:
        pv = e.get("production volume")
        if pv is not None:
            S.check("production volumes have no formulas", "formula" not in pv and "variable" not in pv)
    want = snapshot(before[1])
    new = []
    for e in want["exchanges"]:
        pv = e.get("production volume", {})
        v, f = pv.pop("variable", None), pv.pop("formula", None)
        if v is not None:
            n = {"unit": e["unit"], "variable": v, "amount": pv["amount"]}
            if f is not None:
                n["formula"] = f
            new.append(n)
    got = [p for p in ds["parameters"] if p["id"] != "f"]
    S.check("new parameter", len({p["id"] for p in ds["parameters"]}) == len(ds["parameters"]))
    S.check("new parameter", all(isinstance(p.get("name"), str) and p["name"] for p in got))
    by_var = {p.get("variable"): p for p in got}
    S.check("new parameter", sorted(by_var) == sorted(n["variable"] for n in new) and len(got) == len(new))
    for n in new:
        if n["variable"] in by_var:
            S.same("new parameter", {k: v for k, v in by_var[n["variable"]].items() if k not in ("id", "name")}, n)
    S.same("nothing else changes", {k: v for k, v in ds.items() if k != "parameters"},
           {k: v for k, v in want.items() if k != "parameters"})
    S.same("nothing else changes", [p for p in ds["parameters"] if p["id"] == "f"], want["parameters"])
    after = snapshot(ds["exchanges"])
    recalculate(ds)
    S.same("values unchanged by shifting", ds["exchanges"], after)


SUBST = [("thermoforming of plastic sheets", "1/014000000/50*0.946", 0.946 / 50 / 14000000),
         ("benzene chlorination", "UnitConversion(152000000, 'pound avoirdupois', 'kg')", 152000000 * 0.45359237),
         ("glued laminated timber production, for indoor use",
          "AVERAGE(3.08E04;4.00E04;3.39E04)*(AVERAGE(367561;433458;449963)/AVERAGE(1408383;1631979;1717500))",
          (30800 + 40000 + 33900) / 3 * (367561 + 433458 + 449963) / (1408383 + 1631979 + 1717500)),
         ("cement production, alternative constituents 6-20%", "ABS(blast_furnace_slag/ cement* APV_cement)", None)]


def substitution(S):
    """Known bad formulas are replaced by an expression of the same value, in their activity only."""
    name, bad, value = SUBST[S.case["k"]]
    mine = S.bool("mine")
    where = S.choice("where", ["exc", "pv", "prop", "par"])
    x = {"formula": "2 * %s" % bad, "amount": S.real("old")}
    e = exchange(S, "e", "reference product")
    e["production volume"] = {"amount": 1.0}
    pars = []
    if where == "exc":
        e.update(x)
        x = e
    elif where == "pv":
        e["production volume"] = x
    elif where == "prop":
        x["name"] = "price"
        e["properties"] = [x]
    else:
        x.update(name="x", id="x")
        pars.append(x)
    if value is None:
        vals = {k: S.real(k) for k in ("blast_furnace_slag", "cement", "apv_cement")}
        for k, v in vals.items():
            pars.append({"name": k, "id": k, "variable": "APV_cement" if k == "apv_cement" else k, "amount": v})
        value = 0 if bool(vals["cement"] == 0) else abs(vals["blast_furnace_slag"] / vals["cement"] * vals["apv_cement"])
    ds = dataset(name if mine else "something else", [e], parameters=pars)
    before = snapshot(ds)
    if not mine:
        fix_known_bad_formula_strings([ds])
        S.same("other activities untouched", ds, before)
        return
    fix_ecoinvent_parameters([ds])
    recalculate(ds)
    label = "substitution keeps the value" if S.case["k"] != 1 else "substitution keeps the value: pounds"
    if not S.symbolic:
        S.check(label, abs(x["amount"] - 2 * value) <= 1e-5 * abs(value), "%r instead of %r" % (x["amount"], 2 * value))
    else:
        S.check(label, abs(x["amount"] - 2 * value) <= abs(value * 1e-5))


def refinery(S):
    dss = []
    for j in range(2):
        excs = [exchange(S, "e%d%d" % (j, i), "from technosphere", name=S.choice("n%d%d" % (j, i), ["refinery gas", "oil"]))
                for i in range(3 - j)]
        dss.append(dataset(S.choice("d%d" % j, ["petroleum refinery operation", "other"]), excs))
    before = snapshot(dss)
    out = fix_specific_ecoinvent_issues(dss)
    S.check("other activities untouched", len(out) == 2)
    for ds, old in zip(out, before):
        kept = [e["id"] for e in ds["exchanges"]]
        for e in old["exchanges"]:
            gone = ds["name"] != "other" and e["name"] == "refinery gas" and e["amount"] == 0
            S.iff("empty refinery gas removed", e["id"] not in kept, gone)
        S.same("other activities untouched", ds["exchanges"], [e for e in old["exchanges"] if e["id"] in kept])
        S.same("other activities untouched", {k: v for k, v in ds.items() if k != "exchanges"},
               {k: v for k, v in old.items() if k != "exchanges"})


def deparam(S):
    e = exchange(S, "e", "reference product")
    objs = [e, e.setdefault("production volume", {"amount": S.real("pv")})]
    f = exchange(S, "f", S.choice("type", ["byproduct", "from technosphere", "to environment"]))
    f["production volume"] = {"amount": S.real("pvf")}
    objs += [f, f["production volume"]]
    for i, o in enumerate(objs):
        if S.bool("v%d" % i):
            o["variable"] = "v%d" % i
        if S.bool("f%d" % i):
            o["formula"] = "1 + %d" % i
    if S.bool("props"):
        f["properties"] = [prop("price", 1.0, formula="x")]
    ds = dataset("d", [e, f], parameters=[{"variable": "x", "amount": 1.0}] if S.bool("pars") else [])
    if S.bool("nopars"):
        del ds["parameters"]
    want = snapshot(ds)
    for o in want["exchanges"] + [x["production volume"] for x in want["exchanges"]]:
        for k in ("variable", "formula", "properties"):
            o.pop(k, None)
    if "parameters" in want:
        want["parameters"] = []
    S.same("no parameterisation left", deparameterize(ds), want)


def configured(S):
    """Through a whole system model, formulas keep their values."""
    c = S.case["config"]
    config = dict(cutoff=cutoff_config, row=cutoff_config_ecoinvent_row, consequential=consequential_config)[c]
    x, old = S.real("x"), S.real("old")
    name, bad, value = SUBST[0]
    e = made(S, "e", "power", amount=1.0, pv=5.0)
    e["production volume"].update(variable="Vol", formula="X * 2")
    s = made(S, "s", "steel", amount=1.0, pv=4.0)
    s["production volume"].update(variable="v")
    o = made(S, "o", "steel", amount=1.0, pv=3.0)
    o["production volume"].update(formula="1 + 2")
    ins = [inp(S, "f", "steel", amount=old, formula="vol * 3"), inp(S, "g", "steel", amount=0.0, formula="Ref('%s') + 1" % U[0]),
           inp(S, "h", "steel", amount=0.0, formula=bad)]
    db = [activity(name, [e] + ins, parameters=[{"name": "x", "id": U[0], "variable": "X", "amount": x}]),
          activity("mill", [s, inp(S, "i", "power", amount=0.0, formula="V + 1")]), activity("other mill", [o]),
          market(S, "power"), market(S, "steel")]
    final = {d["name"]: d for d in config(db[::-1] if S.bool("rev") else db)}
    for d in final.values():
        for y in d["exchanges"]:
            pv = y.get("production volume", {})
            S.check("production volumes have no formulas", "formula" not in pv and "variable" not in pv)
    plant, mill, other = (final[n] for n in (name, "mill", "other mill"))
    names = sorted(p["variable"] for p in plant["parameters"])
    S.check("new parameter", names == ["vol", "x"] and [p["variable"] for p in mill["parameters"]] == ["v"]
            and not other["parameters"])
    values = {y["id"]: y["amount"] for y in plant["exchanges"] + mill["exchanges"]}
    S.eq("nothing else changes", values["id-f"], old)
    for d in (plant, mill, other):
        recalculate(d)
    got = {y["id"]: y["amount"] for y in plant["exchanges"] + mill["exchanges"]}
    S.eq("values unchanged by shifting", got["id-f"], 6 * x)
    S.eq("values unchanged by shifting", got["id-i"], 5)
    S.eq("reference has the value of its target", got["id-g"], x + 1)
    S.check("substitution keeps the value", abs(got["id-h"] - value) <= 1e-5 * value)


HARNESSES = dict(configured=configured, unique=unique, references=references, unknown=unknown, shift=shift, substitution=substitution,
                 refinery=refinery, deparam=deparam)


def cases(tier):
    out = [dict(h="unique", n=1, par=True, optional=True), dict(h="unique", n=2), dict(h="unknown"), dict(h="shift"),
           dict(h="refinery"), dict(h="deparam"), dict(h="unique", n=1, par=True, optional=True, formulas=True)]
    for i, w in enumerate(("exc", "prop", "par", "pv")):
        out.append(dict(h="references", where=w, maybe=["e0", "pv1"] if i % 2 else ["par", "e1", "pv2"], rev=bool(i % 2)))
    out.append(dict(h="references", where="exc", maybe=["e0", "par", "pv1"], formulas=True))
    out += [dict(h="substitution", k=k) for k in range(len(SUBST))]
    out += [dict(h="configured", config=m) for m in ("cutoff", "row", "consequential")]
    if tier == "thorough":
        out += [dict(h="references", where=w, maybe=["e0", "e1", "par", "pv1", "pv2"]) for w in ("exc", "prop", "par", "pv")]
        out.append(dict(h="unique", n=2, par=True))
    return out
