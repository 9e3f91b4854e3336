"""C10: rewriting ecoinvent formulas to Python keeps their meaning."""
from harness.c30 import ds as activity, inp, market, out as made
from harness.gen import exchange, prop, dataset, snapshot
from ocelot.configuration import consequential_config, cutoff_config, cutoff_config_ecoinvent_row
from ocelot.transformations import fix_ecoinvent_parameters
from ocelot.transformations.parameterization import fix_math_formulas, replace_reserved_words, delete_unparsable_formulas
from ocelot.transformations.parameterization.recalculation import recalculate

INFO = dict(
    bounds="formulas are all trees of depth up to 3 over +, -, *, /, ^, power(;), if(;;), parentheses, percentages and "
           "variables (shape chosen by the solver; depth 3 along selected branches), written in upper, lower or mixed case, "
           "with line breaks, with variables named like reserved words of Python; variables take arbitrary real values up "
           "to 1e6; exponents are the literals -1, 2 and 3; a database with formulas that goes through each system model",
    outside="percent signs after something other than a number; conditions that are not comparisons; division by zero "
            "(C12); formulas in which a conditional word (if, else, and, or, not, in, is) is used as a variable together "
            "with an if()",
    assumptions=["variable names are unique within a dataset"])
LABELS = ["formula keeps its value", "amounts kept", "unparsable formula deleted", "parsable formula kept",
          "every place is rewritten"]


class Bad(Exception):
    pass


def leaf(S, p, names):
    kind = S.choice(p + "leaf", ["v0", "v1", "num", "pct"])
    if kind == "num":
        return "2.5", lambda env: 2.5
    if kind == "pct":
        return "40%", lambda env: 0.4
    n = names[int(kind[1])]
    return n, lambda env: env[n.lower()]


def node(S, p, depth, names, kinds=None):
    """-> (text, evaluator)"""
    if depth == 0:
        return leaf(S, p, names)
    kind = S.choice(p + "op", kinds or ["+", "-", "*", "/", "^", "if", "ifeq", "power", "paren"])
    kids = S.case.get("kids")
    if kind in ("+", "-", "*"):
        a, fa = node(S, p + "a", depth - 1, names, kids)
        b, fb = node(S, p + "b", 0, names)
        op = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y}[kind]
        return "(%s) %s %s" % (a, kind, b), lambda env: op(fa(env), fb(env))
    if kind == "/":
        a, fa = node(S, p + "a", 0, names)
        b, fb = node(S, p + "b", depth - 1, names, kids)

        def div(env):
            d = fb(env)
            S.assume(d != 0)
            return fa(env) / d
        return "%s/(%s)" % (a, b), div
    if kind == "^":
        a, fa = node(S, p + "a", depth - 1, names, kids)
        k = S.choice(p + "k", [2, 3])
        return "(%s)^%d" % (a, k), lambda env: fa(env) ** k
    if kind == "power":
        a, fa = node(S, p + "a", depth - 1, names, kids)
        k = S.choice(p + "k", ["2", "03", "-1"])

        def power(env):
            x = fa(env)
            if k == "-1":
                S.assume(x != 0)
                return 1 / x
            return x ** int(k)
        return "power(%s;%s)" % (a, k), power
    if kind == "paren":
        a, fa = node(S, p + "a", depth - 1, names, kids)
        return "(%s)*(3)" % a, lambda env: fa(env) * 3
    where = S.choice(p + "w", [0, 1, 2])     # which argument is nested
    args = [node(S, p + "cab"[i], depth - 1, names, kids) if i == where else leaf(S, p + "cab"[i], names)
            for i in range(3)]
    if kind == "ifeq":
        args[2] = args[1]
    (c, fc), (a, fa), (b, fb) = args

    sign = S.case.get("cmp", ">")

    def cond(env):
        return fa(env) if bool(COMPARE[sign](fc(env), 1)) else fb(env)
    return "if(%s%s1;%s;%s)" % (c, sign, a, b), cond


COMPARE = {">": lambda x, y: x > y, ">=": lambda x, y: x >= y, "<": lambda x, y: x < y, "<=": lambda x, y: x <= y,
           "==": lambda x, y: x == y, "!=": lambda x, y: x != y}


STYLES = [str, str.upper, str.title]


def put(S, text, where):
    o = {"amount": S.real("old"), "formula": text}
    ds = dataset("some activity", [exchange(S, "rp", "reference product")])
    if where == "exc":
        ds["exchanges"].append(dict(o, id="o", name="o", type="from technosphere", unit="kg"))
        return ds, ds["exchanges"][-1]
    if where == "par":
        ds["parameters"].append(dict(o, id="o", name="o"))
        return ds, ds["parameters"][-1]
    if where == "pv":
        ds["exchanges"][0]["production volume"] = o
        return ds, o
    ds["exchanges"][0]["properties"] = [prop("price", 1.0), dict(o, name="o")]
    return ds, ds["exchanges"][0]["properties"][1]


def meaning(S):
    c = S.case
    names = c["names"]
    text, f = node(S, "n", c["depth"], names, c.get("kinds"))
    text = text if "style" not in c else STYLES[c["style"]](text)
    if c.get("tail"):
        text = text + " + (%s)" % names[1]
        g = f
        f = lambda env: g(env) + env[names[1].lower()]  # noqa
    if c.get("dup"):
        text = "%s + 2 * %s" % (text, text) if text[-1] == ")" and text[0] in "ip" else "(%s) + 2 * (%s)" % (text, text)
        g2 = f
        f = lambda env: g2(env) * 3  # noqa
    if c.get("breaks"):
        text = text.replace(" ", "\r\n ", 1)
    env = {n.lower(): S.real("val" + n.lower(), -10 ** 6, 10 ** 6) for n in names}
    ds, o = put(S, text, c.get("where", "exc"))
    for n in names:
        ds["parameters"].append({"name": n, "id": n, "variable": n, "amount": env[n.lower()]})
    value = f(env)
    before = snapshot(ds)
    out = fix_ecoinvent_parameters([ds])
    S.check("amounts kept", len(out) == 1)
    ds2 = snapshot(out[0])
    strip(before)
    strip(ds2)
    S.same("amounts kept", ds2, before)
    S.check("parsable formula kept", "formula" in o, text)
    recalculate(out[0])
    S.eq("formula keeps its value", o["amount"], value, text)
    S.observe("value", o["amount"])


def strip(x):
    if isinstance(x, dict):
        for k in ("formula", "variable"):
            x.pop(k, None)
        for v in x.values():
            strip(v)
    elif isinstance(x, list):
        for v in x:
            strip(v)


def deleted(S):
    """Only formulas that Python cannot parse are deleted; their amounts stay."""
    good = ["a + b", "abs(a)", "(a if b>1 else 2)", "A_b2 * 3.5e-2", "-a**2", "max(a, b)"]
    bad = ["a +* b", "2a", "(a", "if(a", "a b", "1 +", "a)"]
    objs = []
    ds = dataset("d", [exchange(S, "rp", "reference product")])
    ds["exchanges"][0]["production volume"] = {"amount": S.real("pv")}
    ds["exchanges"][0]["properties"] = [prop("price", S.real("pr"))]
    ds["parameters"] = [{"name": "x", "id": "x", "amount": S.real("pa")}]
    places = [ds["exchanges"][0], ds["exchanges"][0]["production volume"], ds["exchanges"][0]["properties"][0],
              ds["parameters"][0]]
    texts = []
    for i, o in enumerate(places):
        t = S.choice("t%d" % i, [None] + (good + bad if i == S.case["focus"] else ["a + b", "1 +"]))
        texts.append(t)
        if t is not None:
            o["formula"] = t
        if i % 2:
            o["variable"] = "v%d" % i
    before = snapshot([dict(o) for o in places])
    delete_unparsable_formulas([ds])
    for o, b, t in zip(places, before, texts):
        if t in bad:
            S.check("unparsable formula deleted", "formula" not in o)
            b.pop("formula")
        elif t is not None:
            S.check("parsable formula kept", o.get("formula") == t)
        S.same("amounts kept", {k: v for k, v in o.items() if k not in ("production volume", "properties")},
               {k: v for k, v in b.items() if k not in ("production volume", "properties")})


def everywhere(S):
    """Formulas in all places of all datasets are rewritten."""
    dss = []
    for j in range(2):
        v = S.real("v%d" % j, -10 ** 6, 10 ** 6)
        e = exchange(S, "e%d" % j, "reference product", formula="if(V>1;V^2;3)")
        e["production volume"] = {"amount": 0.0, "formula": "power(v;2) + 50%"}
        e["properties"] = [prop("price", 0.0, formula="IF(v>2;5%;Yield)"), prop("mass", 0.0, formula="lambda - v")]
        e2 = exchange(S, "f%d" % j, "from technosphere", formula="Yield * v")
        dss.append(dataset("d%d" % j, [e, e2] if j else [e2, e], parameters=[
            {"name": "v", "id": "v", "variable": "V", "amount": v},
            {"name": "y", "id": "y", "variable": "yield", "amount": 7.0},
            {"name": "l", "id": "l", "variable": "Lambda", "amount": 11.0},
            {"name": "z", "id": "z", "formula": "v^2", "amount": 0.0}]))
    out = fix_ecoinvent_parameters(dss)
    L = "every place is rewritten"
    for j, ds in enumerate(out):
        recalculate(ds)
        v = ds["parameters"][0]["amount"]
        e, e2 = (ds["exchanges"] if j else ds["exchanges"][::-1])
        S.eq(L, e["amount"], S.ite(v > 1, v * v, 3))
        S.eq(L, e["production volume"]["amount"], v * v + 0.5)
        S.eq(L, e["properties"][0]["amount"], S.ite(v > 2, 0.05, 7))
        S.eq(L, e["properties"][1]["amount"], 11 - v)
        S.eq(L, e2["amount"], 7 * v)
        S.eq(L, ds["parameters"][3]["amount"], v * v)


def words(S):
    """Variables named like reserved words, alone and inside longer names."""
    word = S.choice("w", ["yield", "lambda", "for", "class", "in", "is", "as", "with", "from", "import", "pass", "not", "if"])
    longer = S.choice("l", [word + "_total", "my_" + word, word + "2", "a" + word])
    shape = S.choice("s", ["%(w)s + %(l)s * x", "x * %(l)s - %(w)s", "(%(w)s) * %(l)s + x", "%(l)s", "%(w)s",
                           "%(l)s + x", "x + (%(w)s)"])
    if word in ("not", "if") and shape not in ("%(w)s + %(l)s * x", "%(l)s", "%(w)s", "%(l)s + x"):
        S.cut("a conditional word at a place where it is an operator")
    w, lo, x = S.real("wv", -10 ** 6, 10 ** 6), S.real("lv", -10 ** 6, 10 ** 6), S.real("xv", -10 ** 6, 10 ** 6)
    f = {"%(w)s + %(l)s * x": w + lo * x, "x * %(l)s - %(w)s": x * lo - w, "(%(w)s) * %(l)s + x": w * lo + x,
         "%(l)s": lo, "%(w)s": w, "%(l)s + x": lo + x, "x + (%(w)s)": x + w}[shape]
    text = shape % dict(w=word, l=longer)
    ds, o = put(S, text, S.case["where"])
    own = S.choice("own", [None, "Try", "Result"])
    if own and own.lower() != word:
        o["variable"] = own
        ds["exchanges"].insert(0, exchange(S, "user", "to environment", formula="2 * %s - x" % own.upper()))
        if own == "Try":
            ds["exchanges"].append(exchange(S, "user2", "to environment", variable="while", formula="try+1"))
    ds["parameters"] += [{"name": "w", "id": "w", "variable": word, "amount": w},
                         {"name": "l", "id": "l", "variable": longer, "amount": lo},
                         {"name": "x", "id": "x", "variable": "x", "amount": x}]
    fix_ecoinvent_parameters([ds])
    S.check("parsable formula kept", "formula" in o, text)
    recalculate(ds)
    S.eq("formula keeps its value", o["amount"], f, text)
    if "variable" in o:
        S.eq("formula keeps its value", ds["exchanges"][0]["amount"], 2 * f - x, "formula using the variable of a formula")
        if own == "Try":
            S.eq("formula keeps its value", ds["exchanges"][-1]["amount"], f + 1)


UUID = "aaaaaaaa-1111-2222-3333-444444444440"


def configured(S):
    """The system models rewrite formulas, too."""
    config = dict(cutoff=cutoff_config, row=cutoff_config_ecoinvent_row, consequential=consequential_config)[S.case["config"]]
    v = S.real("v", -10 ** 6, 10 ** 6)
    e = made(S, "e", "power", amount=1.0, pv=5.0)
    e["properties"] = [prop("price", 0.0, formula="IF(v>2;5%;Yield)"), prop("mass", 0.0, formula="lambda - Ref('%s')" % UUID)]
    excs = [inp(S, "f%d" % i, "steel", amount=0.0, formula=t) for i, t in enumerate(
        ("Yield * v", "if(V>1;V^2;3)", "power(v;2) + 50%", "Ref('%s') * 2" % UUID, "Yield\r\n + v", "yield * ("))]
    pars = [{"name": "v", "id": UUID, "variable": "V", "amount": v}, {"name": "y", "id": "y", "variable": "yield", "amount": 7.0},
            {"name": "l", "id": "l", "variable": "Lambda", "amount": 11.0}, {"name": "z", "id": "z", "formula": "v^2", "amount": 0.0}]
    db = [activity("plant", [e] + excs, parameters=pars), market(S, "power"), market(S, "steel"),
          activity("mill", [made(S, "s", "steel", amount=1.0, pv=3.0)])]
    final = config(db[::-1] if S.bool("rev") else db)
    ds = [d for d in final if d["name"] == "plant"][0]
    was = {x["id"]: x["amount"] for x in ds["exchanges"]}
    rp = [x for x in ds["exchanges"] if x["type"] == "reference product"][0]
    S.eq("amounts kept", was["id-f0"], 0)
    recalculate(ds)
    now = {x["id"]: x for x in ds["exchanges"]}
    L = "every place is rewritten"
    for i, w in enumerate((7 * v, S.ite(v > 1, v * v, 3), v * v + 0.5, 2 * v, 7 + v)):
        S.eq(L, now["id-f%d" % i]["amount"], w, str(i))
    S.check("unparsable formula deleted", "formula" not in now["id-f5"])
    S.eq(L, rp["properties"][0]["amount"], S.ite(v > 2, 0.05, 7))
    S.eq(L, rp["properties"][1]["amount"], 11 - v)
    S.eq(L, ds["parameters"][3]["amount"], v * v)


HARNESSES = dict(configured=configured, meaning=meaning, deleted=deleted, everywhere=everywhere, words=words)


def cases(tier):
    AB = ["alpha", "B_2"]
    out = [dict(h="meaning", depth=1, names=AB), dict(h="meaning", depth=1, names=AB, style=1, where="par"),
           dict(h="meaning", depth=1, names=AB, style=2, where="pv", breaks=True, cmp="<="),
           dict(h="meaning", depth=1, names=AB, where="prop", tail=True),
           dict(h="meaning", depth=1, names=["yield", "x"], tail=True),
           dict(h="meaning", depth=1, names=["Lambda", "yield_b"], kinds=["if", "power", "+", "ifeq"], cmp=">="),
           dict(h="meaning", depth=1, names=AB, kinds=["if"], cmp="=="), dict(h="meaning", depth=1, names=AB, kinds=["if"], cmp="!="),
           dict(h="meaning", depth=2, names=["x", "y"], kinds=["if"], kids=["if"]),
           dict(h="meaning", depth=2, names=["x", "y"], kinds=["if"], kids=["power", "+"], cmp="<"),
           dict(h="meaning", depth=2, names=["x", "y"], kinds=["power", "^"], kids=["if", "power", "-"], style=1),
           dict(h="meaning", depth=2, names=["x", "y"], kinds=["+", "*", "/", "paren"], kids=["if", "power", "^"]),
           dict(h="meaning", depth=1, names=["x", "y"], dup=True),
           dict(h="everywhere"), dict(h="words", where="exc"), dict(h="words", where="par")]
    out += [dict(h="configured", config=c) for c in ("cutoff", "row", "consequential")]
    out += [dict(h="deleted", focus=i) for i in range(4)]
    if tier == "thorough":
        out += [dict(h="meaning", depth=2, names=["x", "y"]),
                dict(h="meaning", depth=2, names=["yield", "Y"], tail=True, where="par"),
                dict(h="meaning", depth=3, names=["x", "y"], kinds=["if", "power", "+"], kids=["if", "power"])]
    return out
