"""C12: recalculation makes every amount equal to the value of its formula."""
import math

from harness.gen import exchange, prop, dataset, snapshot
from ocelot.transformations.parameterization.recalculation import recalculate, recalculate_all_parameterized_datasets

INFO = dict(
    bounds="parameter graphs of depth up to 4 over two free symbolic variables, 8 formula shapes per node (chosen by "
           "the solver) placed on parameters, exchanges, production volumes and properties, in several storage orders; "
           "hosts of every exchange type; chains of up to 7 parameters; values are arbitrary reals up to 1e12",
    outside="formulas with functions other than abs and the listed operators; strings as formulas are concrete, the "
            "values they are evaluated on are symbolic",
    assumptions=["variable names are unique within a dataset (checked by C11)"])
LABELS = ["value of formula", "fixed values kept", "division by zero gives zero", "nothing else changes",
          "uncertainty follows amount", "circular dataset skipped", "other datasets recalculated",
          "errors give no numbers"]

SHAPES = [
    ("{x} + {y}", lambda x, y: x + y),
    ("{x} - 2 * {y}", lambda x, y: x - 2 * y),
    ("{x} * {y}", lambda x, y: x * y),
    ("{x} / {y}", lambda x, y: 0 if bool(y == 0) else x / y),
    ("(({x}) if ({y}>1) else (3))", lambda x, y: x if bool(y > 1) else 3),
    ("abs({x}) + {y} + 0.5", lambda x, y: abs(x) + y + 0.5),
    ("({x})**2 - {y}", lambda x, y: x * x - y),
    ("5e-2", lambda x, y: 0.05),
]


HOSTS = ["reference product", "byproduct", "dropped product", "from technosphere", "to environment", "from environment"]


def put(S, ds, place, i, var, formula, amount, hosts):
    """Attach a parameterised object to the dataset; returns it."""
    obj = {"amount": amount}
    host = hosts[i % 2]
    extra = {"byproduct classification": "waste"} if host == "byproduct" else {}
    if var:
        obj["variable"] = var
    if formula:
        obj["formula"] = formula
    if place == "par":
        obj.update(name="parameter %d" % i, id="par%d" % i, unit="kg")
        ds["parameters"].append(obj)
    elif place == "exc":
        obj.update(name="flow %d" % i, id="id%d" % i, type=host or "from technosphere", unit="kg", **extra)
        ds["exchanges"].append(obj)
    elif place == "pv":
        ds["exchanges"].append({"name": "flow %d" % i, "id": "id%d" % i, "unit": "kg",
                                "type": host or "reference product", "amount": S.real("pvx%d" % i),
                                "production volume": obj, **extra})
    elif place == "prop":
        obj.update(name="property %d" % i, unit="kg")
        ds["exchanges"].append({"name": "flow %d" % i, "id": "id%d" % i, "unit": "kg",
                                "type": host or "to environment", "amount": S.real("prx%d" % i), **extra, "properties": [
                                    {"name": "dry mass", "amount": S.real("dm%d" % i)}, obj]})
    return obj


def graph(S):
    c = S.case
    ds = dataset("a", [])
    v0, v1 = S.real("v0"), S.real("v1")
    spec = [("v0", None, v0), ("v1", None, v1)]
    values = {"v0": v0, "v1": v1}
    zero_div = []
    args = [("v0", "v1"), ("n2", "v0"), ("n3", "n2")]
    for k in range(c["nodes"]):
        tpl, fn = S.choice("s%d" % k, SHAPES if c.get("shapes") is None else [SHAPES[j] for j in c["shapes"]])
        x, y = args[k]
        name = "n%d" % (k + 2)
        values[name] = fn(values[x], values[y])
        spec.append((name, tpl.format(x=x, y=y), values[name]))
        if "/" in tpl:
            zero_div.append((name, values[y]))
    anonymous = [j for j in c.get("anonymous", [])]
    hosts = [S.choice("host%d" % i, HOSTS) if c.get("hosts") else None for i in range(2)]
    objs = [None] * len(spec)
    for j in c["order"][:len(spec)] if c.get("order") else range(len(spec)):
        name, formula, val = spec[j]
        start = val if formula is None else S.real("old%d" % j)
        objs[j] = put(S, ds, c["places"][j], j, None if j in anonymous else name, formula, start, hosts)
    bystander = exchange(S, "x", "from technosphere")
    bystander["uncertainty"] = {"type": "undefined", "minimum": 1.0, "maximum": 2.0}
    ds["exchanges"].append(bystander)
    before = snapshot(ds)
    out = recalculate(ds)
    S.check("nothing else changes", out is ds)
    for j, (name, formula, val) in enumerate(spec):
        S.eq("value of formula" if formula else "fixed values kept", objs[j]["amount"], val)
    for name, y in zero_div:
        j = [n for n, _, _ in spec].index(name)
        S.eq("division by zero gives zero", S.ite(y == 0, objs[j]["amount"], 0), 0)
    # frame: put the old amounts back and compare everything
    after = snapshot(ds)
    for j in range(len(spec)):
        _find(after, objs[j], spec[j], c["places"][j], j)["amount"] = 0
        _find(before, objs[j], spec[j], c["places"][j], j)["amount"] = 0
    S.same("nothing else changes", after, before)
    S.observe("amounts", [o["amount"] for o in objs])


def _find(ds, obj, spec, place, j):
    if place == "par":
        return [p for p in ds["parameters"] if p["id"] == "par%d" % j][0]
    e = [e for e in ds["exchanges"] if e["id"] == "id%d" % j][0]
    return e if place == "exc" else (e["production volume"] if place == "pv" else e["properties"][1])


def chain(S):
    """A chain of named parameters stored in reverse order of dependence."""
    n = S.case["n"]
    a = S.real("a")
    ds = dataset("a", [exchange(S, "x", "from technosphere", formula="p%d * 2" % (n - 1))])
    ks = [S.real("k%d" % i) for i in range(1, n)]
    pars = [{"name": "p0", "id": "0", "variable": "p0", "amount": a}]
    val = a
    for i in range(1, n):
        pars.append({"name": "k", "id": "k%d" % i, "variable": "k%d" % i, "amount": ks[i - 1]})
        pars.append({"name": "p", "id": "p%d" % i, "variable": "p%d" % i, "formula": "p%d + k%d" % (i - 1, i),
                     "amount": 0.0})
        val = val + ks[i - 1]
    ds["parameters"] = pars[::-1] if S.case.get("rev") else pars
    recalculate(ds)
    S.eq("value of formula", ds["exchanges"][0]["amount"], 2 * val)


def names(S):
    """The names of flows, properties and parameters are no variables."""
    c = S.case
    a, b = S.real("a"), S.real("b")
    ds = dataset("d", [], parameters=[{"name": "b", "id": "pa", "variable": "a", "amount": a},
                                      {"name": "a", "id": "pb", "variable": "b", "amount": b}])
    other = {"amount": 1.0, "name": c["name"], "formula": "a - b * 3"}
    if c["where"] == "par":
        ds["parameters"].insert(0, dict(other, id="pc"))
    host = exchange(S, "h", "from technosphere", name=c["name"])
    if c["where"] == "exc":
        host["formula"] = other["formula"]
    elif c["where"] == "prop":
        host["properties"] = [other]
    uses = [exchange(S, "x%d" % i, t, formula=f) for i, (t, f) in enumerate((("to environment", "a + 2 * b"),
                                                                          ("from technosphere", "b / 2")))]
    ds["exchanges"] = [uses[0], host, uses[1]]
    recalculate(ds)
    S.eq("value of formula", uses[0]["amount"], a + 2 * b)
    S.eq("value of formula", uses[1]["amount"], b / 2)


def broken(S):
    """A formula that cannot be evaluated never gives a number."""
    a = S.real("a")
    x = {"amount": S.real("old"), "formula": S.choice("formula", ["a * missing", "2 +* a", "unknown(a)", "a + 'text'"])}
    e = exchange(S, "e", "from technosphere")
    if S.bool("exc"):
        e.update(x)
    else:
        e["properties"] = [dict(x, name="price")]
    last = exchange(S, "l", "from technosphere", formula="2 * a")
    ds = dataset("d", [e, last], parameters=[{"name": "a", "id": "a", "variable": "a", "amount": a}])
    # names of other datasets do not count
    recalculate(dataset("b", [exchange(S, "m", "from technosphere", formula="missing + 1")],
                        parameters=[{"name": "m", "id": "m", "variable": "missing", "amount": 7.0}]))
    try:
        recalculate(ds)
        got = e["amount"] if "formula" in e else e["properties"][0]["amount"]
        S.check("errors give no numbers", not S.isnum(got) and not isinstance(got, (int, float)), "amount")
    except Exception as error:
        if type(error).__module__.startswith("symx"):
            raise
        return
    S.eq("value of formula", last["amount"], 2 * a)


def uncertain(S):
    """Uncertainty is consistent with the recalculated amount."""
    kind = S.case["kind"]
    a, b = S.real("a"), S.real("b")
    e = exchange(S, "x", "from technosphere", amount=S.real("old"), formula="a * b - 1")
    u = {"type": kind}
    if kind in ("lognormal", "normal"):
        u.update({"mean": S.real("m"), "mu": S.real("mu"), "variance": S.real("v", 0, 0.5),
                  "variance with pedigree uncertainty": S.pos("vp", 0.5)})
        S.assume(u["variance with pedigree uncertainty"] > 0.1)
    if kind == "triangular":
        u.update({"mode": S.real("m"), "minimum": S.real("lo"), "maximum": S.real("hi")})
    where = S.case.get("where", "exc")
    if where == "exc":
        host = e
    else:
        e.pop("formula")
        host = {"name": "q", "unit": "kg", "id": "z", "amount": S.real("old2"), "formula": "a * b - 1"}
        if where == "pv":
            e["production volume"] = host
        elif where == "prop":
            e["properties"] = [prop("price", 1.0), host]
    host["uncertainty"] = u
    lo, hi = u.get("minimum"), u.get("maximum")
    ds = dataset("a", [e], parameters=[{"name": "a", "id": "a", "variable": "a", "amount": a},
                                       {"name": "b", "id": "b", "variable": "b", "amount": b}])
    if where == "par":
        ds["parameters"].append(host)
    recalculate(ds)
    val, e = a * b - 1, host
    S.eq("value of formula", e["amount"], val)
    if kind == "lognormal":
        S.iff("uncertainty follows amount", "uncertainty" in e, val != 0)
        if "uncertainty" in e:
            S.eq("uncertainty follows amount", e["uncertainty"]["mean"], abs(val))
            S.iff("uncertainty follows amount", e["uncertainty"]["negative"], val < 0)
            S.eq("uncertainty follows amount", e["uncertainty"]["mu"], math.log(abs(val)))
    elif kind == "normal":
        S.eq("uncertainty follows amount", e["uncertainty"]["mean"], val)
    else:
        small, big = S.ite(lo < hi, lo, hi), S.ite(lo < hi, hi, lo)
        if "uncertainty" in e:
            u = e["uncertainty"]
            S.eq("uncertainty follows amount", u["mode"], val)
            S.check("uncertainty follows amount", S.all_of([u["minimum"] <= val, val <= u["maximum"]]))
            S.eq("uncertainty follows amount", u["minimum"], small)
            S.eq("uncertainty follows amount", u["maximum"], big)
        else:
            S.check("uncertainty follows amount", S.any_of([val < small, val > big, small == big]))


def everything(S):
    """One circular dataset does not keep the others from being recalculated."""
    a = S.real("a")

    def good(i):
        return dataset("g%d" % i, [exchange(S, "g%d" % i, "from technosphere", formula="2 * q")],
                       parameters=[{"name": "q", "id": "q", "variable": "q", "amount": a + i}],
                       **{"reference product": "foo"})
    bad = dataset("bad", [exchange(S, "b", "from technosphere", formula="y + 1")],
                  parameters=[{"name": "y", "id": "y", "variable": "y", "amount": S.real("y"), "formula": "z + 1"},
                              {"name": "z", "id": "z", "variable": "z", "amount": S.real("z"), "formula": "y + 1"}],
                  **{"reference product": "foo"})
    datasets = [good(0), good(1), good(2)]
    datasets.insert(S.choice("pos", [0, 1, 2, 3]), bad)
    before = snapshot(bad)
    out = recalculate_all_parameterized_datasets(datasets)
    S.check("other datasets recalculated", len(out) == 4 and all(x is y for x, y in zip(out, datasets)))
    S.same("circular dataset skipped", bad, before)
    for d in datasets:
        if d is not bad:
            S.eq("other datasets recalculated", d["exchanges"][0]["amount"], 2 * d["parameters"][0]["amount"])


HARNESSES = {"graph": graph, "chain": chain, "uncertain": uncertain, "everything": everything, "names": names, "broken": broken}


def cases(tier):
    P = ["par", "par", "par", "exc", "exc"]
    out = [dict(h="graph", nodes=2, places=["par", "par", "par", "exc"]),
           dict(h="graph", nodes=2, places=["exc", "pv", "prop", "exc"], order=[3, 2, 1, 0]),
           dict(h="graph", nodes=2, places=["prop", "exc", "pv", "prop"], anonymous=[3]),
           dict(h="graph", nodes=1, places=["par", "par", "exc"], anonymous=[2]),
           dict(h="graph", nodes=1, places=["par", "par", "pv"], anonymous=[2]),
           dict(h="graph", nodes=3, places=P, shapes=[0, 2, 3, 4], anonymous=[4], order=[4, 2, 3, 1, 0]),
           dict(h="graph", nodes=3, places=["pv", "prop", "exc", "par", "prop"], shapes=[1, 3, 5]),
           dict(h="graph", nodes=2, places=["prop", "exc", "pv", "prop"], shapes=[0, 3], hosts=True),
           dict(h="graph", nodes=2, places=["exc", "pv", "prop", "exc"], shapes=[1, 4], hosts=True, anonymous=[3]),
           dict(h="chain", n=7, rev=True), dict(h="chain", n=4),
           dict(h="uncertain", kind="lognormal"), dict(h="uncertain", kind="normal"),
           dict(h="uncertain", kind="triangular"),
           dict(h="uncertain", kind="lognormal", where="pv"), dict(h="uncertain", kind="normal", where="prop"),
           dict(h="uncertain", kind="triangular", where="par"),
           dict(h="everything"), dict(h="broken")]
    out += [dict(h="names", name=n, where=w) for n, w in (("a", "exc"), ("b", "prop"), ("a", "par"))]
    if tier == "thorough":
        out += [dict(h="graph", nodes=3, places=P, anonymous=[4]),
                dict(h="graph", nodes=3, places=["prop", "pv", "exc", "par", "exc"], order=[4, 3, 2, 1, 0]),
                dict(h="chain", n=12, rev=True)]
    return out
