"""C27: a linked database keeps its meaning when it is converted to Brightway2."""
from ocelot.configuration import consequential_config, cutoff_config
import ocelot.io.brightway2 as bw
from harness import c30, c32
from harness.gen import exchange, dataset, snapshot

INFO = dict(
    bounds="datasets with up to 3 (thorough: 4) exchanges besides the reference product, each an input, byproduct, emission, "
           "resource or dropped product of arbitrary real amount up to 1e12, named refinery gas or not, linked or not, in any place; the databases "
           "that the cutoff and consequential models make of those of C30 and C32; any number of unlinked exchanges up to 3",
    outside="Brightway2 itself, which is replaced by a stand-in",
    assumptions=["every dataset has a code and every exchange but refinery gas that is not an emission has the code of a dataset"])
LABELS = ["one activity per dataset", "activity fields", "production", "inputs", "byproducts", "emissions and resources",
          "nothing else dropped", "input database kept", "same matrix", "written only if linked", "existing databases kept",
          "byproducts of the consequential model linked"]
FIELDS = ("code", "economic scenario", "end date", "filepath", "location", "name", "start date", "technology level",
          "dataset author", "data entry")
ENV = ("to environment", "from environment")
TYPES = {"t": "from technosphere", "a": "byproduct", "e": "to environment", "f": "from environment", "d": "dropped product"}


def flow(S, p, type_):
    e = exchange(S, p, type_, amount=0 if type_ == "dropped product" else None)
    e["unit"] = S.text(p + ".unit", ["kg", "MJ", "KG"])
    if type_ in ENV:
        e["compartment"], e["subcompartment"] = S.text(p + ".c", ["air", "water"]), S.text(p + ".s", ["urban", "unspecified"])
    elif type_ == "from technosphere":
        e["name"] = S.text(p + ".n", ["refinery gas", "steel"])
    return e


def convert(S):
    c = S.case
    dss, drop = [], []
    for j, kinds in enumerate(c["kinds"]):
        rp = exchange(S, "r%d" % j, "reference product", code="code%d" % j, name=S.text("rn%d" % j, ["refinery gas", "steel"]))
        S.assume(rp["amount"] != 0)
        rp["unit"] = S.text("ru%d" % j, ["kg", "MJ"])
        excs = []
        for i, k in enumerate(kinds):
            p = "x%d%d" % (j, i)
            e = flow(S, p, TYPES[S.choice("k" + p, "taefd") if k == "?" else k])
            if e["type"] in ("from technosphere", "byproduct"):
                linked = True if e["type"] == "byproduct" else S.bool("l" + p)
                if linked:
                    e["code"] = S.text("c" + p, ["code%d" % i for i in range(len(c["kinds"]))])
                else:
                    S.assume(e["name"] == "refinery gas")
            excs.append(e)
        excs.insert(c.get("at", 0), rp)
        d = dataset("d%d" % j, excs, code="code%d" % j, **{"data entry": "somebody"})
        d["reference product"] = rp["name"]
        d["type"] = S.text("type%d" % j, ["transforming activity", "market activity", "market group"])
        d["location"] = S.text("loc%d" % j, ["GLO", "RoW", "CH"])
        dss.append(d)
    before = snapshot(dss)
    name = S.text("db", ["cutoff", "x"])
    out = list(bw.Brightway2Converter.convert_to_brightway2(dss, name))
    S.same("input database kept", dss, before)
    S.check("one activity per dataset", len(out) == len(dss))
    for got, d in zip(out, before):
        rp = [e for e in d["exchanges"] if e["type"] == "reference product"][0]
        S.same("activity fields", {k: v for k, v in got.items() if k != "exchanges"},
               dict({k: d[k] for k in FIELDS}, database=name, unit=rp["unit"], **{"reference product": rp["name"], "production amount": rp["amount"]}))
        want = []
        for e in d["exchanges"]:
            if not bool(e["amount"] != 0) or (e["type"] == "from technosphere" and "code" not in e):
                continue
            if e["type"] in ENV:
                want.append(dict(type="biosphere", amount=e["amount"], name=e["name"], unit=e["unit"],
                                 categories=(e["compartment"], e["subcompartment"])))
            else:
                want.append(dict(type="production" if e is rp else "technosphere", input=(name, e["code"]),
                                 amount=-e["amount"] if e["type"] == "byproduct" else e["amount"]))
        label = {"reference product": "production", "byproduct": "byproducts", "from technosphere": "inputs"}
        S.check("nothing else dropped", len(got["exchanges"]) == len(want), "%d instead of %d" % (len(got["exchanges"]), len(want)))
        kept = [e for e in d["exchanges"] if bool(e["amount"] != 0) and not (e["type"] == "from technosphere" and "code" not in e)]
        for g, w, e in zip(got["exchanges"], want, kept):
            # names and units of technosphere exchanges may be given too
            S.same(label.get(e["type"], "emissions and resources"), {k: g.get(k) for k in w}, w)


class Finished(Exception):
    pass


def pipeline(S):
    """What goes into and out of every activity is the same before and after."""
    c = S.case
    source, config = (c30, cutoff_config) if c["from"] == "c30" else (c32, consequential_config)
    S.case = dict(c, h=c["name"])

    def run(S, db):
        final = config(db)
        for d in final:
            for e in d["exchanges"]:
                if e["type"] == "byproduct" and bool(e["amount"] != 0):
                    S.check("byproducts of the consequential model linked", "code" in e)
                    e.setdefault("code", d["code"])
        before = snapshot(final)
        out = list(bw.Brightway2Converter.convert_to_brightway2(final, "db"))
        S.check("one activity per dataset", [d["code"] for d in out] == [d["code"] for d in before])
        codes = {d["code"] for d in out}
        for got, d in zip(out, before):
            net, emitted, made = {}, {}, 0
            for e in got["exchanges"]:
                if e["type"] == "biosphere":
                    k = (e["name"],) + e["categories"]
                    emitted[k] = emitted.get(k, 0) + e["amount"]
                else:
                    S.check("same matrix", e["input"][0] == "db" and e["input"][1] in codes)
                    sign = 1 if e["type"] == "production" else -1
                    made += e["type"] == "production"
                    if e["type"] == "production":
                        S.check("production", e["input"] == ("db", d["code"]))
                    net[e["input"][1]] = net.get(e["input"][1], 0) + sign * e["amount"]
            S.check("production", made == 1)
            S.check("production", got["reference product"] == d["reference product"])
            want, bio = {}, {}
            for e in d["exchanges"]:
                if e["type"] in ENV:
                    k = (e["name"], e["compartment"], e["subcompartment"])
                    bio[k] = bio.get(k, 0) + e["amount"]
                elif e["type"] != "dropped product":
                    want[e["code"]] = want.get(e["code"], 0) + (-1 if e["type"] == "from technosphere" else 1) * e["amount"]
            for a, b in ((net, want), (emitted, bio)):
                for k in sorted(set(a) | set(b)):
                    S.eq("same matrix", a.get(k, 0), b.get(k, 0))
        raise Finished
    old = source.run
    source.run = run
    try:
        source.HARNESSES[c["name"]](S)
    except Finished:
        pass
    finally:
        source.run = old
        S.case = c


def importer(S):
    """Databases are written exactly if everything is linked and the name is free."""
    d = dataset("d", [exchange(S, "r", "reference product", code="c")], code="c", **{"data entry": "x", "reference product": "flow r"})
    S.assume(d["exchanges"][0]["amount"] != 0)
    unlinked = S.int("unlinked", 0, 3)
    name = S.choice("name", ["new", "old"])
    calls = []

    class Importer:
        def __init__(self, db):
            self.strategies, self.data = ["a", "b", "assign products", "c"], None
            calls.append(("made", db))

        def apply_strategies(self, *a, **k):
            calls.append(("strategies", list(self.strategies)))

        def match_database(self, db, *a, **k):
            calls.append(("match", db))

        def statistics(self, *a, **k):
            return 1, 1, unlinked

        def write_database(self, *a, **k):
            calls.append(("write", [dict(x) for x in self.data]))

    class Fake:
        databases = {"old", "biosphere3"}
        projects = type("P", (), {"current": "default"})

        @staticmethod
        def Database(n):
            return ("database", n)
    present = S.bool("present")
    old = bw.bw2, getattr(bw, "LCIImporter", None)
    try:
        bw.bw2, bw.LCIImporter = (Fake if present else None), Importer
        try:
            got = bw.import_into_brightway2([d], name)
        except ImportError:
            got = "missing"
        except AssertionError:
            got = "exists"
    finally:
        bw.bw2, bw.LCIImporter = old
    if not present:
        S.check("written only if linked", got == "missing" and not calls)
        return
    if name == "old":
        S.check("existing databases kept", got == "exists" and not calls)
        return
    done = isinstance(got, tuple)
    S.iff("written only if linked", done, unlinked == 0)
    S.check("written only if linked", got == ("database", "new") if done else isinstance(got, Importer))
    writes = [x for k, x in calls if k == "write"]
    S.check("written only if linked", len(writes) == (1 if done else 0))
    S.check("written only if linked", calls[:3] == [("made", "new"), ("strategies", ["a", "b", "c"]), ("match", "biosphere3")])
    for w in writes:
        S.check("one activity per dataset", len(w) == 1 and w[0]["database"] == "new" and w[0]["code"] == "c")


HARNESSES = dict(convert=convert, pipeline=pipeline, importer=importer)


def cases(tier):
    out = [dict(h="convert", kinds=["??"]), dict(h="convert", kinds=["??"], at=2), dict(h="convert", kinds=["ta", "?"], at=1),
           dict(h="convert", kinds=["", "tea"]), dict(h="convert", kinds=["???"]), dict(h="convert", kinds=[]), dict(h="importer")]
    for source, m in (("c30", c30), ("c32", c32)):
        for c in m.cases(tier):
            if c["h"] in ("constrained", "simple") or source == "c30" and c["h"] == "wastes":
                continue
            first = m.PROBES[c["h"]].split()
            if tier == "thorough" or c.get("probe", first[0]) in (first[0], first[1]):
                c = dict(c, name=c.pop("h"), h="pipeline")
                c["from"] = source
                if source == "c32":
                    c["levels"] = c.get("levels", "")[:1]
                out.append(c)
    if tier == "thorough":
        out += [dict(h="convert", kinds=["????"]), dict(h="convert", kinds=["??", "??"])]
    return out
