"""C24: a system model applies every function of its configuration once, in order."""
import contextlib
import functools
import json
import logging
import os
import pickle
import shutil
import tempfile
import wrapt
import ocelot.model as model
from harness.gen import neg
from ocelot.collection import Collection
from ocelot.errors import InvalidTransformationFunction
from ocelot.model import system_model
from ocelot.wrapper import TransformationWrapper
from ocelot.transformations.utils import single_input

INFO = dict(
    bounds="configurations of up to 7 functions (plain, partial, decorated, for single datasets with and without filter) in lists "
           "and collections nested up to 3 deep, on up to 2 datasets; each function multiplies and adds arbitrary reals up "
           "to 1e12, keeps, splits or deletes datasets; interruption or failure in any function; save strategies as listed in "
           "C25; collections of up to 4 functions with any position",
    outside="extraction of the data (C28), the HTML page",
    assumptions=["pickle and json store what they are given"])
LABELS = ["applied once and in order", "result returned", "datasets replaced in place", "functions without metadata rejected",
          "interruption removes the output", "failures are reported", "intermediate results saved", "followed datasets saved",
          "report lists the functions", "collections are sequences", "configuration kept", "configuration by name"]


ERRORS = [ValueError, AssertionError, KeyError, OSError]


class Plan:
    """Functions on datasets {'amount': x}, and what they should do."""

    def __init__(self, S, n_ds):
        self.S, self.calls, self.n, self.order, self.names = S, [], 0, [], []
        self.stop = S.int("stop", -1, S.case["stops"]) if "stops" in S.case else -1
        self.data = [dict(amount=S.real("x%d" % i), filepath=S.text("fp%d" % i, ["a/steel.spold", "a/tin.spold", "steel/Tin"])
                          if S.case.get("follow") else "a/x.spold") for i in range(n_ds)]

    def hit(self, i, k):
        self.calls.append(i)
        if bool(self.stop == i):
            raise KeyboardInterrupt if self.S.case.get("how") != "error" else self.S.choice("error", ERRORS)("x")

    def make(self, kind):
        S, i = self.S, self.n
        self.n += 1
        a, b = S.real("a%d" % i), S.real("b%d" % i)
        one = lambda ds: dict(ds, amount=ds["amount"] * a + b)
        two = lambda ds: [dict(ds, amount=ds["amount"] * a), dict(ds, amount=ds["amount"] + b)]
        if kind in "plsm":
            want = lambda data: [one(d) for d in data]
        if kind == "p":
            def f(data):
                "Doc"
                self.hit(i, kind)
                return [one(d) for d in data]
        elif kind == "m":  # modifies in place
            def f(data):
                self.hit(i, kind)
                for d in data:
                    d["amount"] = d["amount"] * a + b
                return data
            f.__table__ = {"title": "t", "columns": ["c"]}
        elif kind == "l":
            def g(extra, data=None):
                self.hit(i, kind)
                return [one(d) for d in data]
            f = functools.partial(lambda data, extra: g(extra, data), extra=1)
            f.func.__name__ = "_g_"
        elif kind == "s":
            self_hit = []

            @single_input
            def f(dataset):
                if not self_hit:
                    self.hit(i, kind)
                self_hit.append(1)
                return [one(dataset)]
        elif kind == "o":
            @wrapt.decorator
            def twice(wrapped, instance, args, kwargs):
                return wrapped(*args, **kwargs)

            @twice
            def f(data):
                self.hit(i, kind)
                return [one(d) for d in data]
            want = lambda data: [one(d) for d in data]
        elif kind in "wWDd":
            self_hit = []

            def h(dataset):
                "Splits"
                if not self_hit:
                    self.hit(i, kind)
                self_hit.append(1)
                return two(dataset) if kind in "wW" else []
            t = S.real("t%d" % i)
            test = (lambda ds: ds["amount"] > t) if kind in "WD" else None
            f = TransformationWrapper(h, test) if test else TransformationWrapper(h)

            def want(data):
                out = []
                for d in data:
                    out += (two(d) if kind in "wW" else []) if test is None or bool(test(d)) else [d]
                return out
        self.order.append((i, kind, want))
        self.names.append(getattr(f, "__name__", "_g_"))
        return f

    def build(self, shape):
        """p, m...: a function; = the same again; [...]: a list; (...): a collection."""
        stack = [[]]
        for ch in shape:
            if ch in "([":
                stack.append([])
            elif ch in ")]":
                parts = stack.pop()
                stack[-1].append(parts if ch == "]" else Collection("c%d" % len(parts), *parts))
            elif ch == "=":  # the last function once more
                stack[-1].append(f)
                self.order.append(self.order[-1])
                self.names.append(self.names[-1])
            else:
                f = self.make(ch)
                stack[-1].append(f)
        return stack[0][0]

    def expected(self, upto=None):
        data = [dict(d) for d in self.data]
        yield data
        for i, kind, want in self.order:
            data = want(data)
            yield data


def sequence(S):
    """Collections, wrappers and functions as functions."""
    c = S.case
    plan = Plan(S, c.get("n", 2))
    f = plan.build(c["shape"])
    data = [dict(d) for d in plan.data]
    out = f(data)
    want = list(plan.expected())[-1]
    once = [i for i, k, _ in plan.order if k in "pmlo"]
    S.check("applied once and in order", [i for i in plan.calls if i in once] == once, str(plan.calls))
    S.same("datasets replaced in place" if any(k in "wWDs" for _, k, _ in plan.order) else "applied once and in order", out, want)
    again = [dict(d) for d in plan.data]
    S.same("configuration kept", f(again), want)


def saves(S, strategy, i):
    """When the result of function i is saved."""
    if strategy is None:
        return i == 0
    if ":" not in str(strategy):
        return i % int(strategy) == 0
    a, b, *step = [int(x) for x in strategy.split(":")]
    return a <= i <= b and (i - a) % (step[0] if step else 1) == 0


@contextlib.contextmanager
def stubbed(plan, out):
    """Record what would be extracted, stored, deleted and reported; the rest works in a scratch directory."""
    scratch = tempfile.mkdtemp(prefix="c24")
    old = (model.extract_directory, model.HTMLReport, pickle.dump, shutil.rmtree, os.environ.get("OCELOT_OUTPUT"))
    loggers = [logging.getLogger(n) for n in ("ocelot", "ocelot-detailed")]
    was = [(l.disabled, list(l.handlers), l.propagate) for l in loggers]
    copy = lambda o: [dict(d) for d in o] if isinstance(o, list) else dict(o, datasets=copy(o["datasets"]))
    try:
        def extract(path, use_cache=True):
            out["extracted"] = out.get("extracted", 0) + 1
            out["read"] = (path, bool(use_cache))
            return [dict(d) for d in plan.data]

        def report(path, show=False):
            with open(path, encoding="utf8") as f:
                out["log"] = [json.loads(l) for l in f]
            out["report"] = path
        model.extract_directory, model.HTMLReport = extract, report
        pickle.dump = lambda data, f, protocol=None: out["saved"].append((os.path.relpath(f.name, scratch), copy(data)))
        shutil.rmtree = lambda path, *a, **k: out["deleted"].append(os.path.relpath(path, scratch))
        os.environ["OCELOT_OUTPUT"] = scratch
        for l in loggers:
            l.disabled = False
        yield scratch
    finally:
        model.extract_directory, model.HTMLReport, pickle.dump, shutil.rmtree = old[:4]
        if old[4] is None:
            del os.environ["OCELOT_OUTPUT"]
        else:
            os.environ["OCELOT_OUTPUT"] = old[4]
        for l, (d, h, p) in zip(loggers, was):
            for x in l.handlers:
                if x not in h:
                    x.close()
            l.disabled, l.handlers, l.propagate = d, h, p
        shutil.rmtree(scratch, ignore_errors=True)


def run(S):
    """The whole system model, with the functions of the configuration under control."""
    c = S.case
    plan = Plan(S, c.get("n", 1))
    config = plan.build(c["shape"])
    shown = repr([type(x) for x in config])
    out = dict(saved=[], deleted=[])
    how = "done"
    with stubbed(plan, out) as scratch:
        try:
            cached = S.choice("cached", [True, False]) if c.get("cached") else True
            manager, data = system_model("somewhere", config, use_cache=cached, save_strategy=c.get("save"), follow=c.get("follow"))
        except SystemExit as err:
            how = "exit %s" % err.code
        except tuple(ERRORS):
            how = "error"
        made = [d for d in os.listdir(scratch)]
        if len(made) == 1:
            logfile = os.path.join(scratch, made[0], "report.log.json")
            logged = [json.loads(l) for l in open(logfile, encoding="utf8")] if os.path.exists(logfile) else []
    S.check("configuration kept", repr([type(x) for x in config]) == shown)
    S.check("result returned", out.get("extracted") == 1 and len(made) == 1 and out["read"] == ("somewhere", cached))
    if len(made) != 1:
        return
    n = len(plan.order)
    # which function stopped the run?
    at = n
    for i in range(n):
        if plan.order[i][0] in plan.calls and bool(plan.stop == i):
            at = i
            break
    label = "interruption removes the output" if c.get("how") != "error" else "failures are reported"
    S.check(label, how == ("done" if at == n else "error" if c.get("how") == "error" else "exit 1"), "%s at %s" % (how, at))
    S.check(label, out["deleted"] == ([made[0]] if how == "exit 1" else []), str(out["deleted"]))
    S.check(label, ("report" in out) == (how == "done"))
    if how == "done":
        S.check("result returned", os.path.basename(manager.directory) == made[0])
    states = list(plan.expected())
    if how == "done":
        S.same("result returned", data, states[-1])
    once = [i for i, k, _ in plan.order if k in "pmlo"]
    S.check("applied once and in order", [i for i in plan.calls if i in once] == [i for i in once if i <= at], str(plan.calls))
    # what was saved
    want, follow = [], []
    for i in range(min(at, n)):
        if saves(S, c.get("save"), i):
            want.append((str(i), states[i + 1]))
        if c.get("follow"):
            hit = [d for d in states[i + 1] if c["follow"] in str(d["filepath"])]
            if hit:
                follow.append((i, hit))
    if how == "done":
        want.append(("final-results", states[-1]))
    got = [(p.split(os.sep), d) for p, d in out["saved"]]
    plain = [(p[-1].split(".")[0], d) for p, d in got if len(p) == 2]
    S.check("intermediate results saved", all(p[0] == made[0] for p, _ in got))
    S.check("intermediate results saved", [k for k, _ in plain] == [k for k, _ in want], "%s instead of %s" % (
        [k for k, _ in plain], [k for k, _ in want]))
    S.check("intermediate results saved", len({"/".join(p) for p, _ in got}) == len(got))
    for (_, a), (_, b) in zip(plain, want):
        S.same("intermediate results saved", a, b)
    followed = [d for p, d in got if len(p) == 3]
    S.check("followed datasets saved", len(followed) == len(follow) and all(p[1] == "follow" for p, _ in got if len(p) == 3))
    for a, (i, b) in zip(followed, follow):
        S.check("followed datasets saved", a["index"] == i)
        S.same("followed datasets saved", a["datasets"], b)
    # what the log says
    lines = [l for l in logged if l["type"] in ("function start", "function end")]
    want = []
    for i in range(min(at + 1, n)):
        want.append(("function start", i, len(states[i])))
        if i < at:
            want.append(("function end", i, len(states[i + 1])))
    S.check("report lists the functions", [(l["type"], l["index"], l["count"]) for l in lines] == want, str(lines))
    S.check("report lists the functions", [l["name"] for l in lines] == [plan.names[l["index"]] for l in lines])
    S.check("report lists the functions", logged[0]["type"] == "report start" and logged[0]["count"] == len(plan.data)
            and logged[0]["uuid"] == made[0] and (logged[-1]["type"] == "report end") == (how == "done"))


def reject(S):
    """Something that has no metadata cannot be part of a configuration."""
    c = S.case
    plan = Plan(S, 1)

    class NoName:
        def __call__(self, data):
            return data
    config = plan.build(c["shape"])
    bad = {"object": NoName(), "number": 7, "none": None}[S.choice("bad", ["object", "number", "none"])]
    where = S.choice("where", c.get("where", ["start", "end", "nested", "nowhere"]))
    if where == "start":
        config = [bad] + list(config)
    elif where == "end":
        config = list(config) + [bad]
    elif where == "nested":
        config = [Collection("x", *config), [[Collection("y", bad)]]]
    out = dict(saved=[], deleted=[])
    with stubbed(plan, out) as scratch:
        try:
            system_model("somewhere", config)
            done = True
        except InvalidTransformationFunction:
            done = False
        made = os.listdir(scratch)
    S.check("functions without metadata rejected", done == (where == "nowhere"))
    S.check("functions without metadata rejected", done or (not plan.calls and not made and "extracted" not in out))


def strategies(S):
    """Save strategies that make no sense are rejected before any function is applied."""
    plan = Plan(S, 1)
    config = plan.build("(p)")
    bad = S.choice("bad", [0, "0", -1, "x", "", "1:x", None, 3])
    out = dict(saved=[], deleted=[])
    with stubbed(plan, out):
        try:
            system_model("somewhere", config, save_strategy=bad)
            done = True
        except ValueError:
            done = False
    S.check("functions without metadata rejected", done == (bad in (None, 3)) and (done or not plan.calls))


def named(S):
    """The configurations that can be given by name, and the default."""
    plan = Plan(S, 1)
    plan.data = []
    seen = []
    names = sorted(model.mapping)
    which = S.choice("which", names + ["", None, "list", "collection"])
    stub = lambda n: [lambda data: data + [{"amount": n}]]
    fake = {n: stub(i) for i, n in enumerate(names)}
    fake["default"] = stub(99)
    old, default = dict(model.mapping), model.cutoff_config
    out = dict(saved=[], deleted=[])
    try:
        model.mapping.update({n: fake[n] for n in names})
        model.cutoff_config = fake["default"]
        with stubbed(plan, out):
            given = which if which not in ("list", "collection") else stub(7) if which == "list" else Collection("z", *stub(7))
            _, data = system_model("somewhere", given)
    finally:
        model.mapping.clear()
        model.mapping.update(old)
        model.cutoff_config = default
    want = names.index(which) if which in names else 7 if which in ("list", "collection") else 99
    S.check("configuration by name", [d["amount"] for d in data] == [want])
    from ocelot import configuration as conf
    S.check("configuration by name", old == dict(cutoff=conf.cutoff_config, cutoff_ecoinvent_row=conf.cutoff_config_ecoinvent_row,
                                                 consequential=conf.consequential_config) and default is conf.cutoff_config)


def container(S):
    """A collection behaves like the list of its functions."""
    c = S.case
    n = c["n"]
    marks = ["f%d" % i for i in range(n + 2)]
    fs = [functools.partial(lambda data, m: data + [m], m=m) for m in marks]
    coll = Collection("c", *fs[:n]) if not c.get("nested") or n < 2 else Collection("c", fs[0], Collection("d", *fs[1:n]))
    plain = list(fs[:n])
    for step, op in enumerate(c["ops"]):
        k = S.int("k%d" % step, -n - 2, n + 2)
        results = []
        for target in (coll, plain):
            try:
                results.append(apply(op, target, k, fs[n + step]))
            except (IndexError, ValueError) as err:
                results.append(type(err).__name__)
        a, b = results
        S.check("collections are sequences", a is b or a == b, "%s: %s instead of %s" % (op, a, b))
    S.check("collections are sequences", list(coll) == plain and len(coll) == len(plain))
    S.check("collections are sequences", list(reversed(coll)) == plain[::-1])
    S.check("collections are sequences", all((f in coll) == (f in plain) for f in fs))
    want = []
    for f in plain:
        want = f(want)
    S.check("applied once and in order", coll([]) == want)


def apply(op, target, k, f):
    if op == "get":
        return target[k]
    if op == "set":
        target[k] = f
    elif op == "del":
        del target[k]
    elif op == "insert":
        target.insert(k, f)
    elif op == "append":
        target.append(f)
    elif op == "extend":
        target.extend([f])
    elif op == "pop":
        return target.pop(k)
    elif op == "slice":
        return list(target[k:])
    elif op == "reverse":
        target.reverse()
    elif op == "remove":
        target.remove(target[k])


HARNESSES = dict(strategies=strategies, sequence=sequence, run=run, reject=reject, named=named, container=container)


def cases(tier):
    shapes = ["(p)", "(pmp)", "((pl)o)", "(p(m(lp))[op])", "([p[mp]]s)", "()"]
    out = [dict(h="sequence", shape=s) for s in shapes]
    out += [dict(h="sequence", shape=s) for s in ["(w)", "(W)", "(D)", "(Wp)", "(D(Wm))", "(psD)", "(dp)", "(pd)", "(p=)", "(p(=m)=)", "(w=)", "(pmp=ls)"]]
    runs = ["[pmp]", "[(pm)p]", "[p[m(lo)]p]", "(p(Wp))", "[(p)[[m]](sp)]"]
    for s in runs:
        out += [dict(h="run", shape=s, stops=5), dict(h="run", shape=s, save="2"), dict(h="run", shape=s, save="1:3", follow="steel"),
                dict(h="run", shape=s, save="0:4:2", stops=5, how="error", follow="tin", n=2)]
    out += [dict(h="run", shape="[pDm]", save="1"), dict(h="run", shape="(dp)", save="1", follow="tin"), dict(h="run", shape="[p=(m=)=]", save="2"),
            dict(h="run", shape="[p]", save="1", follow="tin", cached=True, n=2), dict(h="strategies")]
    out += [dict(h="reject", shape="[%s]" % ("pm" * 12), where=["end"]), dict(h="reject", shape="[pm]"), dict(h="reject", shape="(p)"), dict(h="named")]
    ops = ["get", "set", "del", "insert", "append", "extend", "pop", "slice", "reverse", "remove"]
    out += [dict(h="container", n=n, ops=[o]) for n in (0, 1, 3) for o in ops]
    out += [dict(h="container", n=3, ops=["insert", o], nested=True) for o in ops]
    if tier == "thorough":
        out += [dict(h="container", n=4, ops=[a, b], nested=True) for a in ops for b in ops]
        out += [dict(h="run", shape="[p(Wm)D[spl]]", stops=7, n=2, save=1, follow="steel"),
                dict(h="sequence", shape="(WDWp)")]
    return out
