"""C26: the report of a model run lists every function with its table."""
import io
import json
import logging
import os
import shutil
import sys
import webbrowser
import jinja2
import ocelot.model as model
import ocelot.report as report
from harness import c30, c32
from harness.gen import prop, neg
from harness.c06 import kinded
from harness.c30 import ds, out, inp, bio, market
from harness.vfs import VirtualFS, FakeFile, ROOT
from ocelot.collection import Collection
from ocelot.configuration import consequential_config, cutoff_config, cutoff_config_ecoinvent_row
from ocelot.model import system_model
from ocelot.transformations import ensure_mandatory_properties
from ocelot.transformations.consequential import delete_activity_links_to_constrained_markets, handle_constrained_markets
from ocelot.transformations.consequential.technology_levels import cleanup_technology_levels
from ocelot.utils import get_function_meta

INFO = dict(
    bounds="the cutoff, ecoinvent and consequential configurations on the databases of C30 and C32 and on a database with "
           "zero amounts, activity links, confidential and consequential exchanges; single functions on small databases; "
           "amounts are arbitrary positive reals up to 1e12 and, one per case, an arbitrary real",
    outside="the layout of the HTML page and the conversion of descriptions to HTML",
    assumptions=["json gives back what it was given; the log files, the report and saved results are kept in memory"])
LABELS = ["every function listed in order", "counts listed", "rows fit their table", "report written",
          "changes listed", "times listed", "descriptions listed",
          "one run per log"]


MARK = "@symbolic"


def restored(o, values):
    """Numbers and strings that stand for symbolic values, put back."""
    if isinstance(o, dict):
        return values[o[MARK]] if set(o) == {MARK} else {k: restored(v, values) for k, v in o.items()}
    return [restored(v, values) for v in o] if isinstance(o, list) else o


class LogFile(FakeFile):
    def __init__(self, name, lines):
        super().__init__(name)
        self.lines = lines

    def text(self):
        return io.StringIO("".join(self.lines))

    def __iter__(self):
        return iter(self.text())

    def write(self, text):
        self.lines.append(text)

    def writelines(self, lines):
        self.lines.extend(lines)

    def read(self, *a):
        return self.text().read(*a)

    def readlines(self):
        return self.text().readlines()


class Stubs(VirtualFS):
    """Also keeps the lines of the log and what the page is made of."""

    def __init__(self, S):
        super().__init__()
        self.S, self.lines, self.page, self.values = S, {}, [], []
        self.shown, self.clock = [], [1000.125]

    def open(self, path, mode="r", *a, **k):
        if not self.mine(path):
            return self._open(path, mode, *a, **k)
        path = self.norm(path)
        if "w" in mode:
            self.put(path)
            self.lines[path] = []
        return LogFile(path, self.lines[path])

    def copytree(self, a, b, *x, dirs_exist_ok=False, **k):
        b = self.norm(b)
        if b in self.nodes and not dirs_exist_ok:
            raise FileExistsError(b)
        self.put(b, True)
        self.put(b + "/new.css")
        return b

    def rmtree(self, path, *a, **k):
        path = self.norm(path)
        if path not in self.nodes:
            raise FileNotFoundError(path)
        self.nodes = {n: v for n, v in self.nodes.items() if not (n + "/").startswith(path + "/")}

    def time(self):
        """A clock that never shows a whole second."""
        if "/ocelot/" not in sys._getframe(1).f_code.co_filename:
            return self._time()
        self.clock.append(self.clock[-1] + 0.25)
        return self.clock[-1]

    def encode(self, encoder, o):
        """Called by json for what it does not know."""
        S = self.S
        if not (S.isnum(o) or S.isbool(o) or type(o).__name__ == "SymStr"):
            raise TypeError("Object of type %s is not JSON serializable" % type(o).__name__)
        self.values.append(o)
        return {MARK: len(self.values) - 1}

    def decode(self, decoder, *a, **k):
        return restored(self._decode(decoder, *a, **k), self.values)

    def _loads_of(self, x):
        return restored(json.loads(x), self.values) if isinstance(x, str) else x

    def render(self, template, *a, **k):
        self.page.append(dict(*a, **k))
        return ""

    def run(self, db, config):
        """The system model, with the rows of its report."""
        return self.within(db, lambda: system_model("somewhere", config, save_strategy=7))

    def within(self, db, work):
        fs = self

        class Handler(logging.Handler):
            def __init__(self, path, *a, **k):
                super().__init__()
                self.path = fs.norm(path)
                fs.put(self.path)
                fs.lines[self.path] = []

            def emit(self, record):
                fs.lines[self.path].append(self.format(record) + "\n")
        places = [(model, "extract_directory", lambda *a, **k: db), (logging, "FileHandler", Handler), (json.JSONEncoder, "default", lambda e, o: self.encode(e, o)),
                  (json.JSONDecoder, "decode", lambda d, *a, **k: self.decode(d, *a, **k)),
                  (shutil, "copytree", self.copytree), (report, "to_html", lambda text: "html of " + text),
                  (webbrowser, "open_new_tab", self.shown.append),
                  (jinja2.Template, "render", lambda t, *a, **k: self.render(t, *a, **k))]
        olds = [getattr(m, n) for m, n, _ in places]
        loggers = [logging.getLogger(n) for n in ("ocelot", "ocelot-detailed")]
        was = [(l.disabled, list(l.handlers), l.propagate) for l in loggers]
        self.put(ROOT + "/out", True)
        try:
            for (m, n, f), o in zip(places, olds):
                setattr(self, "_" + n, o)
                setattr(m, n, f)
            for l in loggers:
                l.disabled = False
            with self.installed(OCELOT_OUTPUT=ROOT + "/out"):
                return work()
        finally:
            for (m, n, f), o in zip(places, olds):
                setattr(m, n, o)
            for l, (d, h, p) in zip(loggers, was):
                l.disabled, l.handlers, l.propagate = d, h, p


class Finished(Exception):
    pass


def reported(S, db, config):
    fs = Stubs(S)
    manager, data = fs.run(db, config)
    functions = list(Collection("all", *config)) if not isinstance(config, Collection) else list(config)
    S.check("report written", len(fs.page) == 1 and manager.directory + "/report.html" in fs.nodes)
    if not fs.page:
        return
    page = fs.page[0]
    listed = page["functions"]
    metas = [get_function_meta(f) for f in functions]
    S.check("every function listed in order", [f["name"] for f in listed] == [m["name"] for m in metas])
    S.check("report written", page["uuid"] == manager.report_id)
    counts = json.loads(page["count_data"])
    S.check("counts listed", len(counts) == len(metas) + 1 and counts[0] == len(page["counts"]) * 0 + S.start and
            counts[1:] == [f["count"] for f in listed] and counts[-1] == len(data), str(counts))
    times = json.loads(page["time_data"])
    S.check("times listed", len(times) == len(metas) + 2 and times[0] == 0 and times == sorted(times) and
            any(t != int(t) for t in times), str(times))
    for f, a, b in zip(listed, times[1:], times):
        S.check("times listed", 0 <= f["time"] <= a - b)
    for f, m in zip(listed, metas):
        if m["table"]:
            S.check("rows fit their table", f["table"]["title"] == m["table"]["title"])
            rows = f["tabledata"]
            columns = m["table"]["columns"]
            S.check("rows fit their table", list(f["table"]["columns"]) == list(columns) if not isinstance(f["table"]["columns"], str)
                    else json.loads(f["table"]["columns"]) == list(columns))
            if isinstance(rows, str):
                rows = json.loads(rows)
            for r in rows:
                S.check("rows fit their table", len(r) == len(columns), "%s: %d entries for %s" % (f["name"], len(r), columns))
        else:
            S.check("rows fit their table", "listdata" in f and "tabledata" not in f)
    return data, {m["name"]: f.get("tabledata", f.get("listdata")) for f, m in zip(listed, metas)}


def pipeline(S):
    """The databases of C30 and C32."""
    c = S.case
    source, name = (c30, "cutoff") if c["from"] == "c30" else (c32, "consequential")
    config = dict(cutoff=cutoff_config, row=cutoff_config_ecoinvent_row, consequential=consequential_config)[c.get("config", name)]
    S.case = dict(c, h=c["name"])

    def run(S, db):
        S.start = len(db)
        reported(S, db, config)
        raise Finished
    old = source.run
    source.run = run
    try:
        source.HARNESSES[c["name"]](S)
    except Finished:
        pass
    finally:
        source.run = old
        S.case = c


def rare(S):
    """What the other databases do not have."""
    c = S.case
    steel = [out(S, "s", "steel"), inp(S, "s1", "power"), inp(S, "s2", "power", **{"activity link": "plant"}), bio(S, "s3"),
             out(S, "s4", "latex", "a", 0, price=True)]
    steel[0]["properties"] = [prop("price", 1), prop("consequential", 0)]
    if S.bool("rplink"):
        steel[0]["activity link"] = "plant"
    steel[4]["properties"] += [prop("true value relation", S.pos("tv"))] if S.bool("true") else []
    steel[4]["amount"] = S.real("amount4", 0)
    steel[1]["properties"] = [prop("consequential", 1)] if S.bool("conseq") else []
    latex = ds("latex production", [out(S, "l", "latex", price=True), inp(S, "l1", "steel"), inp(S, "l2", "other")])
    plant = ds("plant", [out(S, "p", "power"), inp(S, "p1", "power", amount=0, **{"activity link": "ds-plant"}),
                         dict(inp(S, "p2", "steel"), formula="yield * 2", variable="if"), dict(bio(S, "p3"), formula="3 +* 2")],
               id="plant", parameters=[{"name": "yield", "variable": "yield", "amount": 2.0, "id": "par"}])
    plant["exchanges"][2]["amount"] = 4.0
    other = ds("old plant", [out(S, "o", "other")])
    db = [ds("steel production", steel), latex, plant, other] + [market(S, n) for n in ("steel", "power", "latex", "other")]
    S.start = len(db)
    reported(S, db, cutoff_config if c.get("config") != "row" else cutoff_config_ecoinvent_row)


def single(S):
    """Functions of the consequential model list what they change."""
    c = S.case
    make = ds("acid production", [out(S, "a", "acid"), bio(S, "a2")])
    use = ds("cryolite production", [out(S, "c", "cryolite"), inp(S, "c1", "acid"), bio(S, "c2")])
    extra = kinded(S, "m", "a", name="acid", amount=-1, **{"activity link": use["id"], "conditional exchange": True})
    extra["production volume"] = {"amount": 0}
    user = ds("user", [out(S, "u", "thing"), inp(S, "u1", "cryolite")])
    for d in (make, use, user):
        d["technology level"] = S.text(d["name"], ["undefined", "current", "old"])
    if S.bool("linked"):
        user["exchanges"][1]["activity link"] = use["id"] if S.bool("constrained") else make["id"]
    linked = user["exchanges"][1].get("activity link") == use["id"]
    db = [make, use, user, market(S, "acid", more=[extra]), market(S, "cryolite")]
    for d in db:
        d["reference product"] = d["exchanges"][0]["name"]
    S.start = len(db)
    levels = [d["technology level"] for d in (make, use, user)]
    got = reported(S, db, [delete_activity_links_to_constrained_markets, handle_constrained_markets, cleanup_technology_levels])
    if not got:
        return
    rows = got[1]
    S.check("changes listed", len(rows["delete_activity_links_to_constrained_markets"]) == (1 if linked else 0))
    S.check("changes listed", len(rows["handle_constrained_markets"]) == 1)
    S.eq("changes listed", len(rows["switch_undefined_to_current"]), sum(S.ite(l == "undefined", 1, 0) for l in levels))


def mandatory(S):
    """Missing properties are listed, and only they."""
    PROPS = ["carbon content fossil", "carbon content non-fossil", "dry mass", "water content", "water in wet mass", "wet mass"]
    rows = []
    db = []
    for j in range(S.case["n"]):
        excs = []
        for i, kind in enumerate(S.case["kinds"]):
            e = kinded(S, "x%d%d" % (j, i), kind)
            e["properties"] = [prop(p, S.real("a%d%d%d" % (j, i, k))) for k, p in enumerate(PROPS) if k > 2 or S.bool("p%d%d%d" % (j, i, k))] + [prop("price", 1)]
            excs.append(e)
        d = ds("d%d" % j, excs)
        db.append(d)
    S.start = len(db)
    want = []
    for d in db:
        for e in d["exchanges"]:
            missing = set(PROPS) - {p["name"] for p in e["properties"]}
            if missing:
                want.append([d["name"], e["name"], "; ".join(sorted(missing))])
    got = reported(S, db, [ensure_mandatory_properties])
    if got:
        S.check("changes listed", [list(r) for r in got[1]["ensure_mandatory_properties"]] == want, str(got[1]))


def twice(S):
    """The log of a run does not change after the end of the run, and only lists this run."""
    c = S.case
    fs = Stubs(S)
    db = [ds("d", [out(S, "o", "x"), inp(S, "i", "y")]), ds("d2", [out(S, "p", "y"), inp(S, "q", "z")])]
    for d in db:
        d["technology level"] = S.text(d["name"], ["undefined", "current"])
        d["reference product"] = d["exchanges"][0]["name"]
        for e in d["exchanges"]:
            e["properties"] = [prop("price", 1)]
    ends = []

    def start(data):
        return data

    def failing(data):
        raise ValueError

    def count(name, word):
        return sum('"type": "%s"' % word in line for line in fs.lines[name])

    def work():
        configs = [[ensure_mandatory_properties, start], [start, cleanup_technology_levels, start]]
        if c.get("reverse"):
            configs.reverse()
        for config in configs + ([[start]] if c.get("three") else []):
            before = set(fs.lines)
            if c.get("fails") and not ends:
                config = config + [failing]
            try:
                system_model("somewhere", config)
            except ValueError:
                S.check("one run per log", config[-1] is failing)
            # the log and the detailed log
            new = set(fs.lines) - before
            ends.append({n: len(fs.lines[n]) for n in new})
            S.check("one run per log", sum(count(n, "report start") for n in new) == 1 and
                    sum(count(n, "function start") for n in new) == len(Collection("all", *config)))
            if config[-1] is not failing:
                S.check("one run per log", len(fs.page[-1]["functions"]) == len(Collection("all", *config)))
    fs.within(db, work)
    for logs in ends:
        for n, lines in logs.items():
            S.check("one run per log", len(fs.lines[n]) == lines, "%d lines added" % (len(fs.lines[n]) - lines))


def page(S):
    """The page shows what the log says."""
    c = S.case
    fs = Stubs(S)
    clock = [0.5, 2.25, 3.0, 9.5, 11.0, 12.75, 20.0] if c.get("clock") else None
    time = lambda i: S.pos("t%d" % i) if clock is None else clock[i]
    start, first = time(0), S.real("n0", 0)
    lines = [{"type": "report start", "uuid": "abc", "count": first, "time": start}]
    functions = []
    for i, kind in enumerate(c["functions"]):
        a, b = time(2 * i + 1), time(2 * i + 2)
        table = {"title": "title %d" % i, "columns": ["a", "b"]} if kind == "table" else None
        elements = [[["z", "y\u2028"][k % 2], S.real("x%d%d" % (i, k))] if table else ["element", "element\x0cnew", "element"][k]
                    for k in range(3 if S.bool("some%d" % i) else 0)]
        f = dict(name="function %d" % i, count=S.real("n%d" % (i + 1), 0), index=i, table=table, start=a, end=b, elements=elements,
                 description=S.choice("d%d" % i, ["words", None, ""]))
        functions.append(f)
        own = dict(name=f["name"], description=f["description"], table=table, index=i)
        lines += [dict(own, type="function start", count=first, time=a)]
        lines += [{"type": ("table" if table else "list") + " element", "data": e, "time": a} for e in elements]
        lines += [dict(own, type="function end", count=f["count"], time=b)]
    end = time(2 * len(functions) + 1)
    lines.append({"type": "report end", "time": end})
    fs.put(ROOT + "/out", True)
    fs.put(ROOT + "/out/report.log.json")
    encoder = json.JSONEncoder(ensure_ascii=False, default=lambda o: fs.encode(None, o))
    fs.lines[ROOT + "/out/report.log.json"] = [encoder.encode(l) + "\n" for l in lines]
    if S.bool("old assets"):
        fs.put(ROOT + "/out/assets", True)
        fs.put(ROOT + "/out/assets/old.css")
    show = S.bool("show")
    fs.within([], lambda: report.HTMLReport(ROOT + "/out/report.log.json", show))
    S.check("report written", len(fs.page) == 1 and ROOT + "/out/report.html" in fs.nodes)
    S.check("report written", fs.shown == (["file://" + ROOT + "/out/report.html"] if show else []), str(fs.shown))
    S.check("report written", fs.children(ROOT + "/out/assets") == ["new.css"], str(list(fs.nodes)))
    if not fs.page:
        return
    got = fs.page[0]
    S.check("report written", got["uuid"] == "abc")
    if clock:
        S.check("times listed", got["elapsed"] == "%.1f" % (end - start))
    S.eq("counts listed", got["counts"][0][1], first)
    counts, times = fs._loads_of(got["count_data"]), fs._loads_of(got["time_data"])
    S.check("counts listed", len(counts) == len(functions) + 1)
    for x, n in zip(counts, [first] + [f["count"] for f in functions]):
        S.eq("counts listed", x, n)
    S.check("times listed", len(times) == len(functions) + 2)
    for x, t in zip(times, [start] + [f["end"] for f in functions] + [end]):
        S.eq("times listed", x, t - start)
    S.check("counts listed", len(got["count_labels"]) == len(counts) and len(set(got["count_labels"])) == len(counts))
    S.check("times listed", len(got["time_labels"]) == len(times) and len(set(got["time_labels"])) == len(times))
    S.check("every function listed in order", [f["name"] for f in got["functions"]] == [f["name"] for f in functions])
    S.check("every function listed in order", len({f["id"] for f in got["functions"]}) == len(functions))
    for f, w in zip(got["functions"], functions):
        S.eq("times listed", f["time"], w["end"] - w["start"])
        S.eq("counts listed", f["count"], w["count"])
        S.check("descriptions listed", f["description"] == "html of " + (w["description"] or ""))
        S.check("rows fit their table", (f["table"] or None) == w["table"])
        rows = f.get("tabledata" if w["table"] else "listdata")
        S.check("rows fit their table", rows is not None and len(rows) == len(w["elements"]))
        S.same("rows fit their table", [list(r) if w["table"] else r for r in rows], w["elements"])


HARNESSES = dict(page=page, pipeline=pipeline, rare=rare, single=single, mandatory=mandatory, twice=twice)


def cases(tier):
    out = []
    for source, m in (("c30", c30), ("c32", c32)):
        for c in m.cases(tier):
            if c["h"] == "constrained":
                continue
            first = m.PROBES[c["h"]].split()
            if tier == "thorough" or c.get("probe", first[0]) in (first[0], first[1]):
                c = dict(c, name=c.pop("h"), h="pipeline")
                c["from"] = source
                if source == "c32":
                    c["levels"] = c.get("levels", "")[:1]
                out.append(c)
    out += [dict(h="page", functions=f) for f in (["table", "list"], ["list", "table", "list"], [])]
    out += [dict(h="page", functions=["list", "table"], clock=True)]
    out += [dict(h="twice", reverse=r, three=not r, fails=f) for r in (True, False) for f in (False, True)]
    out += [dict(h="rare"), dict(h="rare", config="row"), dict(h="single"), dict(h="mandatory", n=1, kinds="rte")]
    return out
