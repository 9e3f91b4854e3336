"""Not a property: ways of writing Python that the engine has to give their meaning on symbolic values.

Run with tools/idioms.py. Known not to be followed: ``type(x) is str``, ``cond is True``, membership of a symbolic
number in a real set, DataFrame.eval, storing into a float array (the value is concretised)."""
import collections
import functools
import itertools
import math
import operator
import re
import sys
import types

INFO = dict(bounds="", outside="", assumptions=[])
LABELS = ["same"]
functions = []

M = types.ModuleType("ocelot.idioms_under_test")
sys.modules["ocelot.idioms_under_test"] = M
SRC = '''
import re, math, itertools, collections, functools, operator
from copy import copy, deepcopy
import numpy as np
import pandas as pd
import toolz
def s_join(t, u, a, b): return "; ".join([t, u])
def s_join_gen(t, u, a, b): return ", ".join(sorted({t, u}))
def s_format(t, u, a, b): return "{} of {}".format(t, u)
def s_fstring(t, u, a, b): return f"{t}-{u!r}"
def s_percent(t, u, a, b): return "%s in %s" % (t, u)
def s_in_tuple(t, u, a, b): return t in ("x", "y z")
def s_in_set(t, u, a, b): return t in {"x", "y z"}
def s_in_frozenset(t, u, a, b): return t in frozenset(("x", "y z"))
def s_in_dict(t, u, a, b): return {"x": 1, "y z": 2}.get(t, 3)
def s_in_str(t, u, a, b): return t in "xy z"
def s_str_in(t, u, a, b): return "y" in t
def s_dict_key(t, u, a, b): return len({t: 1, u: 2})
def s_defaultdict(t, u, a, b):
    d = collections.defaultdict(list); d[t].append(1); d[u].append(2); return sorted((k, v) for k, v in d.items())
def s_counter(t, u, a, b): return sorted(collections.Counter([t, u, "x"]).items())
def s_sorted(t, u, a, b): return sorted([t, u, "m"])
def s_sorted_key(t, u, a, b): return [x[1] for x in sorted([(t, 1), (u, 2)], key=lambda x: x[0])]
def s_sorted_rev(t, u, a, b): return sorted([t, u, "m"], reverse=True)
def s_groupby(t, u, a, b): return sorted((k, len(v)) for k, v in toolz.groupby(lambda x: x, [t, u, "x"]).items())
def s_itgroupby(t, u, a, b): return [(str(k), len(list(g))) for k, g in itertools.groupby(sorted([t, u, "x"]))]
def s_set_ops(t, u, a, b): return sorted({t, u} | {"x"}), sorted({t} & {u}), sorted({t}.difference([u])), {t}.issubset({u, "x"})
def s_method(t, u, a, b): return t.lower().strip().replace("y", "Q"), t.startswith("y"), t.endswith(("z", "x")), t.split(" ")
def s_slice(t, u, a, b): return t[:1] + t[-1:]
def s_concat(t, u, a, b): return t + " / " + u
def s_radd(t, u, a, b): return "pre" + t
def s_re(t, u, a, b): return bool(re.match("y", t)), re.sub("y", "k", str(t))
def s_compiled(t, u, a, b): return bool(re.compile("y").search(t))
def s_str(t, u, a, b): return str(t) + repr(u)
def s_eq(t, u, a, b): return (t, a > 0) == (u, True)
def s_tuple_cmp(t, u, a, b): return (t, u) == ("x", "x"), [t, u] != ["x", "x"]
def s_tuple_lt(t, u, a, b): return (t, 1) < (u, 2)
def s_list_index(t, u, a, b): return [t, "x"].index("x"), [t, u].count("x")
def s_map(t, u, a, b): return list(map(str.upper, [t, u]))
def s_match(t, u, a, b):
    match t:
        case "x": return 1
        case "y z": return 2
        case _: return 3
def s_match_tuple(t, u, a, b):
    match (t, u):
        case ("x", "x"): return 1
        case ("x", _): return 2
        case _: return 3
def s_isinstance(t, u, a, b): return isinstance(t, str), isinstance(a, float), isinstance(a, (int, float))
def s_any(t, u, a, b): return any(k == "x" for k in (t, u)), all(k != "x" for k in (t, u))
def s_sum_bool(t, u, a, b): return sum(k == "x" for k in (t, u)) >= 2, sum(k == "x" for k in (t, u))
def s_sum_bool_eq(t, u, a, b): return sum(k == "x" for k in (t, u)) == 1
def s_len_filter(t, u, a, b): return len(list(filter(lambda k: k == "x", [t, u])))
def s_next(t, u, a, b): return next((i for i, k in enumerate((t, u)) if k == "x"), None)
def s_ternary(t, u, a, b): return "p" if t == u else "q"
def s_not(t, u, a, b): return not (t == u), t is not None
def s_bool_index(t, u, a, b): return ["n", "y"][t == "x"]
def s_bool_and(t, u, a, b): return (t == "x") & (u == "x"), (t == "x") | (a > 0), (t == "x") ^ (a > 0)
def s_bool_mul(t, u, a, b): return a * (t == "x")
def s_bool_cmp(t, u, a, b): return (t == "x") == (u == "x"), bool(t == "x") != bool(a > 0)
def s_bool_int(t, u, a, b): return int(t == "x") + int(a > 0)
def s_bool_list(t, u, a, b): return [1, 2] * (t == "x")
def s_bool_set(t, u, a, b): return {t == "x", u == "x"} == {True}
def s_bool_sort(t, u, a, b): return [k[1] for k in sorted([(t == "x", 1), (u == "x", 2)], key=lambda k: k[0])]
def s_bool_neg(t, u, a, b): return -(t == "x"), (t == "x") - (u == "x")
def s_bool_dict(t, u, a, b): return {True: 1, False: 2}[t == "x"]
def s_toolz(t, u, a, b): return toolz.pipe(t, str.upper), list(toolz.unique([t, u, "x"]))
def s_partial(t, u, a, b): return functools.reduce(operator.add, [t, u, "k"])
def s_itemgetter(t, u, a, b): return [d["n"] for d in sorted([{"n": t}, {"n": u}], key=operator.itemgetter("n"))]
def s_tuple_hash(t, u, a, b): return len({(t, 1), (u, 1), ("x", 1)})
def s_frozen(t, u, a, b): return frozenset((t, u)) == frozenset(("x",))
def s_dict_eq(t, u, a, b): return {"n": t} == {"n": u}
def s_dict_or(t, u, a, b): return ({"n": t} | {"m": u}) == {"n": "x", "m": "x"}
def s_zip(t, u, a, b): return dict(zip((t, u), (1, 2)))
def s_chain(t, u, a, b): return [k for k in itertools.chain([t], [u]) if k != "x"]
def s_star(t, u, a, b): return [*[t], *[u]] == ["x", "x"]
def s_df(t, u, a, b): return pd.DataFrame([{"n": t, "a": a}, {"n": u, "a": b}])["a"].sum()
def s_casefold(t, u, a, b): return t.casefold() == u.casefold()
def s_max_str(t, u, a, b): return max(t, u), min([t, u])
def s_bool_str(t, u, a, b): return bool(t), t or "empty", t and "full"
def s_bytes(t, u, a, b): return t.encode("utf-8")[:1].decode()
def s_concat_list(t, u, a, b): return "".join([t, " ", u])
def s_dict_comp(t, u, a, b): return {k: v for v, k in enumerate([t, u])}
def s_del(t, u, a, b):
    d = {"x": 1, "y z": 2}; d.pop(t, None); return sorted(d)
def s_setdefault(t, u, a, b):
    d = {}; d.setdefault(t, []).append(1); d.setdefault(u, []).append(2); return sorted(map(len, d.values()))
def s_remove(t, u, a, b):
    l = ["x", "y z", ""]; 
    if t in l: l.remove(t)
    return l
def s_startswith_var(t, u, a, b): return "y z".startswith(t), t.find("z"), len(t), t[0] if t else None
def s_int_parse(t, u, a, b):
    try: return int(t)
    except ValueError: return "bad"
def s_try_key(t, u, a, b):
    try: return {"x": 1}[t]
    except KeyError as e: return "no " + str(e)
def s_walrus(t, u, a, b): return k if (k := t) == "x" else 0
def s_ord(t, u, a, b): return [ord(c) for c in t]
def n_max(t, u, a, b): return max(a, b), min(a, b, 0), max([a, b, 1])
def n_max_key(t, u, a, b): return max([(a, 1), (b, 2)], key=lambda x: x[0])[1], max((a, b), default=0)
def n_sum(t, u, a, b): return sum([a, b]), sum((x for x in (a, b)), 0.0), math.fsum((a, b))
def n_abs(t, u, a, b): return abs(a), math.fabs(b), -a, +b
def n_div(t, u, a, b): return a / b if b else 0
def n_divz(t, u, a, b):
    try: return a / b
    except ZeroDivisionError: return "z"
def n_round(t, u, a, b): return round(a) == 1
def n_bool(t, u, a, b): return bool(a), not b, a or 1, a and 2
def n_cmp_chain(t, u, a, b): return 0 < a <= 1, a == b == 0
def n_isclose(t, u, a, b): return math.isclose(a, b), np.isclose(a, b), np.allclose([a], [b]), np.allclose(a, b)
def n_np_sum(t, u, a, b): return np.array([a, b]).sum(), np.sum([a, b]), float(np.abs(np.array([a, b])).max())
def n_np_zip(t, u, a, b): return (np.array([a, b]) / 2).tolist(), list(np.array([a, b]) * np.array([2, 3]))
def n_pd(t, u, a, b):
    s = pd.Series([a, b]); return s.sum(), bool((s > 0).any()), s[s > 0].sum() * 1.0
def n_pow(t, u, a, b): return a ** 2, pow(b, 2)
def n_float(t, u, a, b): return float(a), a * 1.0, a + 0
def n_int(t, u, a, b): return int(a > 0)
def n_sign(t, u, a, b): return math.copysign(1, a), (a > 0) - (a < 0), 1 if a >= 0 else -1
def n_isnan(t, u, a, b): return math.isnan(a), np.isnan(a), a != a
def n_sorted(t, u, a, b): return sorted([a, b, 0]), sorted([{"a": a}, {"a": b}], key=lambda d: -d["a"])[0]["a"]
def n_in(t, u, a, b): return a in (0, 1), a in [b]
def n_sqrt(t, u, a, b): return math.sqrt(a * a) == abs(a)
def n_iadd(t, u, a, b):
    x = 0
    for k in (a, b): x += k
    x -= 1; x *= 2
    return x
def n_reduce(t, u, a, b): return functools.reduce(lambda x, y: x + y, [a, b], 0), functools.reduce(operator.mul, [a, 2])
def n_accumulate(t, u, a, b): return list(itertools.accumulate([a, b]))
def n_any(t, u, a, b): return any([a, b]), all([a, b]), any(x > 0 for x in (a, b))
def n_format(t, u, a, b): return len("{:.3g}".format(1.0)) + (1 if a else 0)
def n_prod(t, u, a, b): return math.prod([a, 2])
def n_tuple(t, u, a, b): return (a, b) == (0, 1), (a, 1) < (b, 2)
def n_list_eq(t, u, a, b): return [a, b] == [b, a], {"v": a} == {"v": b}
def n_is_integer(t, u, a, b): return a == 1 and isinstance(a, (int, float))
def n_deepcopy(t, u, a, b): return deepcopy({"a": [a]})["a"][0], copy([a])[0]
def n_index_max(t, u, a, b):
    l = [a, b]; return l.index(max(l))
def n_np_argmax(t, u, a, b): return int(np.argmax([1, 2]))
def n_np_where(t, u, a, b): return float(np.where(a > 0, 1, 2))
def n_mean(t, u, a, b): return np.mean([a, b]), np.average([a, b])
def n_dfcols(t, u, a, b):
    df = pd.DataFrame([{"a": a, "n": 1}, {"a": b, "n": 2}]); df["f"] = df["a"] * df["n"]; return df["f"].tolist(), float(df[df["a"] > 0]["n"].sum())
def n_dfgroup(t, u, a, b): return pd.DataFrame([{"a": a, "n": 1}, {"a": b, "n": 2}]).groupby("n")["a"].sum().tolist()
def n_fraction(t, u, a, b):
    from fractions import Fraction
    return a * Fraction(1, 2)
def n_rdiv(t, u, a, b): return 1 / (1 + a * a), 2 - a, 3 * b
def n_divmod(t, u, a, b): return a // 1 == a
def n_mod(t, u, a, b): return a % 1 == 0
def n_hash(t, u, a, b): return len({0: 1, 1: 2}) if a != 5 else 0
def n_numbers(t, u, a, b):
    import numbers
    return isinstance(a, numbers.Number), isinstance(a, numbers.Real)
def n_str_of(t, u, a, b): return isinstance("{} {}".format("k", a), str)
def n_np_array2(t, u, a, b): return (np.array([[a, 1], [b, 2]])[:, 0]).sum(), np.hstack([[a], [b]]).tolist(), np.zeros(2).tolist()
def n_np_assign(t, u, a, b):
    x = np.zeros(2, dtype=object); x[0] = a; return x.sum()
def n_np_any(t, u, a, b): return bool(np.any(np.array([a, b]) > 0)), bool((np.array([a, b]) != 0).all())
def n_np_mult(t, u, a, b): return np.multiply([a, b], 2).tolist(), np.dot([a, b], [1, 2])
def n_np_divide(t, u, a, b): return np.divide([a, b], 2.0).tolist()
def n_float_str(t, u, a, b): return float("1.5") * a
def n_eq_none(t, u, a, b): return a is None, a == None, a == "x"
def n_minmax_default(t, u, a, b): return max((x for x in (a, b) if x > 0), default=0)
'''
exec(compile(SRC, "idioms", "exec"), M.__dict__)
NAMES = [k for k in M.__dict__ if k[:2] in ("s_", "n_")]


def run(S):
    t = S.text("t", ["x", "y z", ""])
    u = S.text("u", ["x", "Y"])
    a, b = S.real("a", -4, 4), S.real("b", -4, 4)
    out = getattr(M, S.case["f"])(t, u, a, b)
    S.check("same", True)
    flat(S, "r", out)


def flat(S, name, out):
    if isinstance(out, (list, tuple)):
        for i, x in enumerate(out):
            flat(S, "%s.%d" % (name, i), x)
        S.observe(name + ".len", len(out))
    elif isinstance(out, dict):
        flat(S, name, sorted(out.items()))
    elif out is None:
        S.observe(name, "None")
    else:
        S.observe(name, out)


HARNESSES = dict(run=run)


def cases(tier):
    return [dict(h="run", f=f) for f in NAMES]
