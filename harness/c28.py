"""C28: extraction reads what the ecospold2 file says."""
import os
import sys
import ocelot.io.extract_ecospold2 as module
from harness.spold import N, document
from harness.vfs import VirtualFS, ROOT
from voluptuous import Invalid
from ocelot.io import dataset_schema
from ocelot.io.extract_ecospold2 import extract_ecospold2_directory, generic_extractor

INFO = dict(
    bounds="files with up to 3 datasets, each with up to 3 exchanges and parameters, up to 2 properties and classifications; "
           "every number an arbitrary real up to 1e12, pedigree scores 1 to 5; every optional field present or not; every "
           "activity type, technology level, access restriction, exchange group, classification and uncertainty kind; "
           "directories with up to 3 files",
    outside="reading of XML by lxml (in replays the real parser is used), files that the ecospold2 schema does not allow",
    assumptions=["lxml.objectify is replaced by elements with the same interface that hold symbolic numbers"])
LABELS = ["activity fields", "exchanges in order", "exchange fields", "exchange type", "activity links", "byproduct classification",
          "conditional exchanges", "production volumes", "properties", "parameters", "uncertainty", "pedigree", "compartments",
          "one dataset per activity", "all files of a directory", "fits the schema"]
PEDIGREE = {"reliability": "reliability", "completeness": "completeness", "temporalCorrelation": "temporal correlation",
            "geographicalCorrelation": "geographical correlation", "furtherTechnologyCorrelation": "further technology correlation"}
KINDS = {
    "lognormal": {"meanValue": "mean", "mu": "mu", "variance": "variance",
                  "varianceWithPedigreeUncertainty": "variance with pedigree uncertainty"},
    "normal": {"meanValue": "mean", "variance": "variance", "varianceWithPedigreeUncertainty": "variance with pedigree uncertainty"},
    "triangular": {"minValue": "minimum", "mostLikelyValue": "mode", "maxValue": "maximum"},
    "beta": {"minValue": "minimum", "mostFrequentValue": "mode", "maxValue": "maximum"},
    "uniform": {"minValue": "minimum", "maxValue": "maximum"},
    "undefined": {"minValue": "minimum", "maxValue": "maximum", "standardDeviation95": "standard deviation 95%"},
    "binomial": {"n": "n", "p": "p"}, "gamma": {"shape": "shape", "scale": "scale"}}
ACTIVITY = dict(zip("0123456789", ["transforming activity", "market activity", "IO activity", "residual activity", "production mix",
                                   "import activity", "supply mix", "export activity", "re-export activity", "correction activity"]))
ACTIVITY["10"] = "market group"
LEVELS = {"0": "undefined", "1": "new", "2": "modern", "3": "current", "4": "old", "5": "outdated", "-": "undefined"}
ACCESS = {"0": "public", "1": "licensees", "2": "results only", "3": "restricted"}
CLASSES = {"allocatable product": "allocatable product", "Waste": "waste", "Recyclable": "recyclable"}
TYPES = {"i5": "from technosphere", "i4": "from environment", "o0": "reference product", "o2": "byproduct", "o4": "to environment"}


def text(tag, value):
    return N(tag, text=value)


def uncertain(S, p, tag="uncertainty", kind="?"):
    """-> element or None, expected dictionary or None."""
    if kind == "?":
        kind = S.choice(p + ".kind", list(KINDS))
    values = {k: S.real(p + "." + k) for k in KINDS[kind]}
    scores = {k: S.int(p + "." + k, 1, 5) for k in PEDIGREE} if S.bool(p + ".ped") else None
    el = N(tag, children=[N(kind, values), N("pedigreeMatrix", scores) if scores else None, text("comment", "x")])
    want = {KINDS[kind][k]: v for k, v in values.items()}
    want["type"] = kind
    want["pedigree matrix"] = ({PEDIGREE[k]: v for k, v in scores.items()} if scores else
                               {v: 5 for v in PEDIGREE.values()} if kind in ("lognormal", "normal") else {})
    return el, want


def optional(S, p, names, present=()):
    """-> {attribute: value}, {field: value} for variable names and formulas."""
    attrs, want = {}, {}
    for attr, field, value in names:
        if attr in present or S.bool(p + "." + attr):
            attrs[attr] = value
            want[field] = value.strip()
    return attrs, want


def prop(S, p, unc=False, full=False):
    attrs, want = ({}, {}) if not full else optional(S, p, [("variableName", "variable", "price_" + p),
                                                            ("mathematicalRelation", "formula", " 2  * Yield ")])
    a = S.real(p)
    unit = S.choice(p + ".unit", ["EUR2005", None, " EUR2005, net"]) if full else "EUR2005"
    u, uw = uncertain(S, p + ".u") if unc else (None, None)
    el = N("property", dict(attrs, propertyId="id-" + p, amount=a),
           children=[text("name", "price " + p), text("unitName", unit) if unit else None, u])
    want.update(id="id-" + p, amount=a, name="price " + p, unit=unit or "dimensionless")
    if unc:
        want["uncertainty"] = uw
    return el, want


def parameter(S, p, unc=False, full=False):
    attrs, want = ({}, {}) if not full else optional(S, p, [("variableName", "variable", " Yield "),
                                                            ("mathematicalRelation", "formula", " 2 *  Price ")])
    a = S.real(p)
    unit = S.choice(p + ".unit", ["kg", None, " kg, net"]) if full else "kg"
    u, uw = uncertain(S, p + ".u") if unc else (None, None)
    el = N("parameter", dict(attrs, parameterId="id-" + p, amount=a),
           children=[text("name", "yield " + p), text("unitName", unit) if unit else None, u])
    want.update(id="id-" + p, amount=a, name="yield " + p, unit=unit or "dimensionless")
    if unc:
        want["uncertainty"] = uw
    return el, want


def flow(S, p, kind, activity, c):
    """An exchange of the given kind (?: any) in a dataset of the given type; ``c`` tells what varies."""
    kind = S.choice(p + ".group", list(TYPES)) if kind == "?" else kind
    type_ = TYPES[kind]
    env = "environment" in type_
    a = S.real(p)
    attrs, want = optional(S, p, [("variableName", "variable", " V_" + p), ("mathematicalRelation", "formula", " 3 *  Yield\n")]
                           if "names" in c else [])
    attrs.update(id="id-" + p, amount=a)
    kids = [text("name", "flow " + p), text("unitName", "kg"), text("comment", "nothing")]
    want.update(id="id-" + p, amount=a, name="flow " + p, unit="kg", type=type_, properties=[],
                tag="elementaryExchange" if env else "intermediateExchange")
    if "link" in c and not env:
        link = S.choice(p + ".link", ["other activity", "id-" + p[0], "", None])
        attrs["activityLinkId"] = link
        if link:
            want["activity link"] = link
    if "classes" in c and not env:
        for i in range(2):
            system = S.choice("%s.sys%d" % (p, i), ["By-product classification", "CPC", "Co-product classification", None]) if i == 0 else "CPC 2"
            if i and "byproduct classification" in want and S.bool(p + ".twice"):
                kids.append(kids[-1])
            if system:
                value = S.choice("%s.class%d" % (p, i), list(CLASSES)) if system[0] == "B" else "Waste"
                kids.append(N("classification", children=[text("classificationSystem", system), text("classificationValue", value)]))
                if system[0] == "B":
                    want["byproduct classification"] = CLASSES[value]
    for i in range(c.get("props", 0)):
        el, w = prop(S, "%s.p%d" % (p, i), unc=c.get("unc") == "property", full="names" in c)
        kids.append(el)
        want["properties"].append(w)
    if env:
        comp, sub = S.text(p + ".comp", ["air", "water"]), S.text(p + ".sub", ["urban", "ocean"])
        kids.append(N("compartment", children=[text("compartment", comp), text("subcompartment", sub)]))
        want["compartment"], want["subcompartment"] = comp, sub
    # production volume
    if not env and ("pv" in c or type_ in ("reference product", "byproduct")):
        v = {"amount": 0}
        given = S.choice(p + ".pv?", ["number", "0", None]) if "pv" in c else "number"
        if given:
            v["amount"] = S.real(p + ".pv") if given == "number" else 0
            attrs["productionVolumeAmount"] = v["amount"] if given == "number" else "0"
        if "pv" in c:
            at, w = optional(S, p + ".pv", [("productionVolumeVariableName", "variable", " PV_x"),
                                            ("productionVolumeMathematicalRelation", "formula", "2 *  Y ")])
            attrs.update(at)
            v.update(w)
            if c.get("unc") == "pv":
                el, v["uncertainty"] = uncertain(S, p + ".pvu", "productionVolumeUncertainty")
                kids.append(el)
        if type_ in ("reference product", "byproduct"):
            want["production volume"] = v
    if c.get("unc") == "exchange":
        el, want["uncertainty"] = uncertain(S, p + ".u")
        kids.append(el)
    if not env:
        want["conditional exchange"] = S.all_of(["activity link" in want, activity == "market activity", type_ == "byproduct", a < 0])
    kids.append(text("inputGroup" if kind[0] == "i" else "outputGroup", kind[1]))
    return N(want["tag"], attrs, children=kids), want


def activity(S, p, c):
    code = S.choice(p + ".type", list(ACTIVITY)) if "type" in c.get("vary", ()) else c.get("activity", "0")
    level = S.choice(p + ".level", list(LEVELS)) if "level" in c.get("vary", ()) else "3"
    access = S.choice(p + ".access", list(ACCESS)) if "access" in c.get("vary", ()) else "1"
    parent = S.choice(p + ".parent", ["somebody", None]) if "parent" in c.get("vary", ()) else None
    classes, isic = [], None
    for i, s in enumerate(c.get("systems", ["EcoSpold01Categories", "ISIC rev.4 ecoinvent"])):
        s = S.choice("%s.sys%d" % (p, i), ["ISIC rev.4 ecoinvent", "CPC", None]) if s == "?" else s
        if s:
            classes.append(N("classification", children=[text("classificationSystem", s), text("classificationValue", "%d: x" % i)]))
            isic = isic or ("%d: x" % i if "ISIC" in s else None)
    names = {k: S.text(p + "." + k, [k + " 1, of some length", " " + k + "  2 "]) for k in ("name", "place", "scenario", "author", "entry", "start", "end")}
    flows, want_e, want_p = [], [], []
    for i, k in enumerate(c.get("flows", [])):
        if k[0] == "p":
            el, w = parameter(S, "%s%d" % (p, i), unc=c.get("unc") == "parameter", full="names" in c)
            want_p.append(w)
        else:
            el, w = flow(S, "%s%d" % (p, i), k, ACTIVITY[code], c)
            want_e.append(w)
        flows.append(el)
    el = N("activityDataset" if c.get("h") != "files" or S.bool(p + ".first") else "childActivityDataset", children=[
        N("activityDescription", children=[
            N("activity", {"id": "id-" + p, "specialActivityType": code, "parentActivityId": parent}, children=[text("activityName", names["name"])]),
            ] + classes + [
            N("geography", children=[text("shortname", names["place"])]), N("technology", {"technologyLevel": None if level == "-" else level}),
            N("timePeriod", {"startDate": names["start"], "endDate": names["end"]}),
            N("macroEconomicScenario", children=[text("name", names["scenario"])])]),
        N("flowData", children=flows),
        N("administrativeInformation", children=[
            N("dataEntryBy", {"personName": names["entry"]}),
            N("dataGeneratorAndPublication", {"accessRestrictedTo": access, "personName": names["author"]})])])
    want = {"id": "id-" + p, "parent": parent, "name": names["name"], "location": names["place"], "type": ACTIVITY[code],
            "technology level": LEVELS[level], "start date": names["start"], "end date": names["end"],
            "economic scenario": names["scenario"], "access restricted": ACCESS[access], "dataset author": names["author"],
            "data entry": names["entry"], "ISIC classification": isic, "exchanges": want_e, "parameters": want_p}
    return el, want


def uncertainty(S, got, want):
    S.check("uncertainty", (got is None) == (want is None), "%s instead of %s" % (got, want))
    if got is not None and want is not None:
        S.same("uncertainty", {k: v for k, v in got.items() if k != "pedigree matrix"},
               {k: v for k, v in want.items() if k != "pedigree matrix"})
        S.same("pedigree", got.get("pedigree matrix"), want["pedigree matrix"])


def item(S, label, got, want, skip=()):
    keys = [k for k in want if k not in skip]
    S.check(label, set(got) == set(want), "%s instead of %s" % (sorted(got), sorted(want)))
    S.same(label, {k: got.get(k) for k in keys if k != "uncertainty"}, {k: want[k] for k in keys if k != "uncertainty"})
    uncertainty(S, got.get("uncertainty"), want.get("uncertainty"))


def compare(S, got, want, path):
    S.same("activity fields", {k: v for k, v in got.items() if k not in ("exchanges", "parameters")},
           dict({k: v for k, v in want.items() if k not in ("exchanges", "parameters")}, filepath=path))
    S.check("parameters", len(got["parameters"]) == len(want["parameters"]))
    for g, w in zip(got["parameters"], want["parameters"]):
        item(S, "parameters", g, w)
    S.check("exchanges in order", [e["id"] for e in got["exchanges"]] == [e["id"] for e in want["exchanges"]])
    for g, w in zip(got["exchanges"], want["exchanges"]):
        S.check("exchange type", g["type"] == w["type"])
        special = {"activity link": "activity links", "byproduct classification": "byproduct classification",
                   "conditional exchange": "conditional exchanges", "compartment": "compartments", "subcompartment": "compartments"}
        for k, label in special.items():
            S.check(label, (k in g) == (k in w), "%s in %s" % (k, w["id"]))
            if k in g and k in w:
                S.same(label, g[k], w[k])
        S.check("production volumes", ("production volume" in g) == ("production volume" in w))
        if "production volume" in w and "production volume" in g:
            item(S, "production volumes", g["production volume"], w["production volume"])
        S.check("properties", len(g["properties"]) == len(w["properties"]))
        for a, b in zip(g["properties"], w["properties"]):
            item(S, "properties", a, b)
        skip = tuple(special) + ("production volume", "properties")
        strip = lambda d: {k: v for k, v in d.items() if k not in skip}
        item(S, "exchange fields", strip(g), strip(w))


def typed(S, x):
    """Only the structure and types matter for the schema."""
    if isinstance(x, dict):
        return {k: typed(S, v) for k, v in x.items()}
    if isinstance(x, list):
        return [typed(S, v) for v in x]
    if S.isnum(x):
        return 1 if isinstance(x, int) or getattr(x, "isint", False) else 1.5
    if S.isbool(x):
        return True
    return x.options[0] if type(x).__name__ == "SymStr" else x


def fits(S, got):
    try:
        dataset_schema(typed(S, got))
        return True, ""
    except Invalid as err:
        return False, str(err)


def files(S):
    c = S.case
    els, wants = [], []
    for i in range(c.get("datasets", 1)):
        el, w = activity(S, "abc"[i], c)
        els.append(el)
        wants.append(w)
    with document(S, N("ecoSpold", children=els)) as path:
        got = generic_extractor(path)
    S.check("one dataset per activity", len(got) == len(wants))
    for g, w in zip(got, wants):
        compare(S, g, w, path)
        if w["ISIC classification"] is not None:
            S.check("fits the schema", *fits(S, g))


class Pool:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def map(self, f, items, *a, **k):
        return list(map(f, items))

    imap = map

    def terminate(self):
        pass
    close = join = terminate


def directory(S):
    """All files ending with .spold, each once, with all datasets of each file."""
    fs = VirtualFS()
    fs.put(ROOT + "/d", True)
    n, want = S.case["n"], []
    content = {}
    for i in range(n):
        end = S.choice("name%d" % i, [".spold", ".SPOLD", ".Spold", ".spold.txt", ".xml", "spold", "-", "~"])
        name = {"-": ".f%d.spold", "~": "f%d (1) .spold"}.get(end, "f%d" + end) % i
        fs.put(ROOT + "/d/" + name)
        content[ROOT + "/d/" + name] = ["%s-%d" % (name, j) for j in range(int(S.int("n%d" % i, 0, 2)))]
        if name.lower().endswith(".spold"):
            want += content[ROOT + "/d/" + name]
    seen = []

    def extract(path):
        seen.append(path)
        return list(content[path])
    old = module.generic_extractor, module.multiprocessing.Pool, sys.stdout, sys.stderr
    try:
        module.generic_extractor, module.multiprocessing.Pool = extract, Pool
        sys.stdout = sys.stderr = open(os.devnull, "w")
        isdir = os.path.isdir
        with fs.installed():
            got = extract_ecospold2_directory(ROOT + "/d", S.bool("mp"))
    finally:
        sys.stdout.close()
        module.generic_extractor, module.multiprocessing.Pool, sys.stdout, sys.stderr = old
    S.check("all files of a directory", sorted(got) == sorted(want), "%s instead of %s" % (got, want))
    S.check("all files of a directory", len(seen) == len(set(seen)))


HARNESSES = dict(files=files, directory=directory)


def cases(tier):
    f = lambda **k: dict(h="files", **k)
    out = [f(vary=["type", "access", "parent"]), f(vary=["level"], systems=["?", "?"]), f(systems=[]), f(datasets=3),
           f(flows=["?"], link=1, vary=["type"]), f(flows=["?"], classes=1, link=1, activity="1"), f(flows=["o2", "?"], link=1, activity="1"),
           f(flows=["?"], names=1, props=1), f(flows=["?"], pv=1), f(flows=["i5"], props=2), f(flows=["p"], names=1), f(flows=["p"], unc="parameter"),
           f(flows=["i5", "p", "i4", "p", "o0"], props=1), f(flows=["?"], datasets=2)]
    out += [f(flows=["?"], unc="exchange"), f(flows=["i5"], unc="property", props=1), f(flows=["o2"], unc="pv", pv=1)]
    out += [dict(h="directory", n=2)]
    if tier == "thorough":
        out += [dict(h="directory", n=3), f(flows=["?", "?"], unc="exchange"), f(flows=["?", "?", "?"], link=1, classes=1, activity="1"),
                f(flows=["?", "p"], names=1, props=2, pv=1), f(flows=["?"], unc="property", props=2)]
    return out
