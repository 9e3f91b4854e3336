"""C06: wastes and recyclables in the cutoff system model."""
from harness.gen import (exchange, with_uncertainty, prop, dataset, snapshot, scaled, check_exchanges, by_id)
from ocelot.transformations.cutoff import (flip_non_allocatable_byproducts, handle_waste_outputs,
                                           rename_recycled_content_products_after_linking)

SUFFIX = ", Recycled Content cut-off"

INFO = dict(
    bounds="up to 4 datasets with up to 6 exchanges each, every exchange type and by-product classification chosen by the "
           "solver; amounts and uncertainty parameters are arbitrary reals up to 1e12; formulas with up to 2 variables",
    outside="names that contain the recycled content suffix in the middle; lognormal uncertainty on zero amounts",
    assumptions=["the uncertainty is consistent with the amount"])
LABELS = ["outputs become inputs", "formula negated", "everything else kept", "recyclables renamed",
          "one consumer per recyclable", "burden-free consumer", "suffix removed"]

KINDS = {"r": ("reference product", "allocatable product"), "W": ("reference product", "waste"),
         "R": ("reference product", "recyclable"), "a": ("byproduct", "allocatable product"), "w": ("byproduct", "waste"),
         "c": ("byproduct", "recyclable"), "t": ("from technosphere", None), "e": ("to environment", None),
         "d": ("dropped product", "waste"), "f": ("from environment", None)}


def kinded(S, p, code, **kw):
    t, c = KINDS[code]
    e = exchange(S, p, t, **kw)
    if c:
        e["byproduct classification"] = c
    return e


FORMULAS = ["p + q", "p - q", "2 * p", "(p if q>1 else 3)", "-p + q"]


def flip(S):
    c = S.case
    dss = []
    for j in range(c.get("datasets", 1)):
        excs = [kinded(S, "r%d" % j, "W" if j else "r")]
        for i, code in enumerate(c["kinds"]):
            p = "x%d%d" % (j, i)
            k = code if code != "?" else S.choice("k" + p, "awctde")
            e = kinded(S, p, k)
            if i == c.get("formula", -1) and j == 0:
                e["formula"], e["variable"] = S.choice("f" + p, FORMULAS), "z"
                e["properties"] = [prop("price", S.real(p + ".price"), formula="p", variable="pr")]
                e["production volume"] = {"amount": S.real(p + ".pv")}
            if i == c.get("unc", -1) and j == c.get("datasets", 1) - 1:
                with_uncertainty(S, p, e, S.choice("u" + p, [None, "lognormal", "normal", "triangular", "uniform",
                                                              "undefined"]))
            excs.append(e)
        excs.append(excs.pop(0))
        dss.append(dataset("d%d" % j, excs, parameters=[{"name": "p", "variable": "p", "amount": S.real("p%d" % j)},
                                                        {"name": "q", "variable": "q", "amount": S.real("q%d" % j)}]))
    before = snapshot(dss)
    out = flip_non_allocatable_byproducts(dss)
    S.check("everything else kept", len(out) == len(dss))
    for ds, old in zip(out, before):
        S.same("everything else kept", {k: v for k, v in ds.items() if k != "exchanges"},
               {k: v for k, v in old.items() if k != "exchanges"})
        S.check("everything else kept", [e["id"] for e in ds["exchanges"]] == [e["id"] for e in old["exchanges"]])
        new = by_id(ds["exchanges"])
        env = {"p": old["parameters"][0]["amount"], "q": old["parameters"][1]["amount"]}
        for e in old["exchanges"]:
            n = new.get(e["id"])
            if n is None:
                continue
            if e["type"] == "byproduct" and e["byproduct classification"] in ("waste", "recyclable"):
                want = scaled(S, e, -1)
                want["type"] = "from technosphere"
                del want["byproduct classification"]
                if "formula" in e:
                    got = n.get("formula")
                    S.check("formula negated", isinstance(got, str))
                    if isinstance(got, str):
                        S.eq("formula negated", eval(got, {}, dict(env)), -eval(e["formula"], {}, dict(env)))
                    want["formula"] = got
                S.same("outputs become inputs", n, want)
            else:
                S.same("everything else kept", n, e)
    S.observe("amounts", [[e["amount"] for e in ds["exchanges"]] for ds in out])


def handle(S):
    """Renaming recyclables and creating their consumers."""
    dss, recyclables = [], {}
    for j, kinds in enumerate(S.case["sets"]):
        excs = []
        for i, code in enumerate(kinds):
            p = "x%d%d" % (j, i)
            k = code if code != "?" else S.choice("k" + p, "racwt")
            names = S.case.get("names", ["scrap iron", "scrap lead"])
            name = S.choice("n" + p, names) if i < 2 else "flow " + p
            e = kinded(S, p, k, name=name)
            e["unit"] = "kg" if name != names[1] else "l"
            e["properties"] = [prop("price", S.real(p + ".price"))]
            excs.append(e)
        dss.append(dataset("d%d" % j, excs, location="place %d" % j, **{"data entry": "somebody %d" % j, "id": "ds%d" % j,
                                               "type": "market activity" if j == 1 else "transforming activity"}))
    before = snapshot(dss)
    for ds in before:
        for e in ds["exchanges"]:
            if KINDS["c"] == (e["type"], e.get("byproduct classification")):
                recyclables.setdefault(e["name"], []).append((ds, e))
    out = handle_waste_outputs(dss)
    S.check("one consumer per recyclable", len(out) == len(before) + len(recyclables),
            "%d new datasets for %d recyclables" % (len(out) - len(before), len(recyclables)))
    for ds, old in zip(out, before):
        want = snapshot(old)
        for e in want["exchanges"]:
            if KINDS["c"] == (e["type"], e.get("byproduct classification")):
                e["name"] += SUFFIX
        S.same("everything else kept", {k: v for k, v in ds.items() if k != "exchanges"},
               {k: v for k, v in old.items() if k != "exchanges"})
        S.same("recyclables renamed", ds["exchanges"], want["exchanges"])
    new = out[len(before):]
    S.check("one consumer per recyclable", sorted(ds["name"] for ds in new) == sorted(n + SUFFIX for n in recyclables))
    for ds in new:
        producers = recyclables.get(ds["name"][:-len(SUFFIX)], [])
        S.check("burden-free consumer", len(ds["exchanges"]) == 1)
        e = ds["exchanges"][0]
        S.eq("burden-free consumer", e["amount"], 1)
        S.check("burden-free consumer", e["type"] == "reference product" and e["name"] == ds["name"]
                and ds["reference product"] == ds["name"] and e["tag"] == "intermediateExchange"
                and ds["location"] == "GLO" and ds["type"] == "transforming activity" and ds["parameters"] == [])
        S.check("burden-free consumer", any(
            e["id"] == x["id"] and e["unit"] == x["unit"] and all(ds[k] == d[k] for k in (
                "access restricted", "economic scenario", "end date", "filepath", "id", "start date",
                "technology level", "dataset author", "data entry")) for d, x in producers))
        S.check("burden-free consumer", e["production volume"]["amount"] > 0)
        S.check("burden-free consumer", all(e is not x for d in dss for x in d["exchanges"]))


def unrename(S):
    """After linking, flow names lose the suffix; activity names keep it."""
    dss = []
    for j in range(2):
        excs = []
        for i in range(2):
            p = "x%d%d" % (j, i)
            name = "scrap"[:5 - i] + " " * i + (SUFFIX if S.bool("s" + p) else "")
            excs.append(kinded(S, p, S.choice("k" + p, "rat") if j == i == 0 else "rt"[i], name=name))
        name = "scrap" + (SUFFIX if S.bool("n%d" % j) else "")
        ds = dataset(name, excs)
        if S.bool("rp%d" % j):
            ds["reference product"] = "scrap" + (SUFFIX if S.bool("s%d" % j) else "")
        dss.append(ds)
    before = snapshot(dss)
    out = rename_recycled_content_products_after_linking(dss)

    def strip(n):
        return n[:-len(SUFFIX)] if n.endswith(SUFFIX) else n
    S.check("everything else kept", len(out) == 2)
    for ds, old in zip(out, before):
        for e in old["exchanges"]:
            e["name"] = strip(e["name"])
        if "reference product" in old:
            old["reference product"] = strip(old["reference product"])
        S.same("suffix removed", ds, old)


HARNESSES = dict(flip=flip, handle=handle, unrename=unrename)


def cases(tier):
    out = [dict(h="flip", kinds="??", formula=0, unc=1), dict(h="flip", kinds="?", unc=0, formula=0),
           dict(h="flip", kinds="awctdewc", formula=2, unc=1, datasets=3), dict(h="flip", kinds="wwcc", formula=3, unc=0),
           dict(h="flip", kinds="???", datasets=1), dict(h="flip", kinds="w?", datasets=2),
           dict(h="handle", sets=["r?", "?c"]), dict(h="handle", sets=["rcw", "cct", "ac"]),
           dict(h="handle", sets=["??", "r"]), dict(h="handle", sets=["ra", "Wt"]), dict(h="handle", sets=["cc", "cc", "cc"]),
           dict(h="handle", sets=["c?", "c"], names=["scrap", "Scrap", "scrap, cut-off"]), dict(h="unrename"),
           dict(h="handle", sets=["rwc" + 9 * "c"]), dict(h="flip", kinds="wawcwcwcwcwdwcwt", formula=9, unc=12, datasets=1)]
    if tier == "thorough":
        out += [dict(h="flip", kinds="????", unc=2, formula=1), dict(h="flip", kinds="??", unc=0, formula=1, datasets=2),
                dict(h="handle", sets=["???", "??"])]
    return out
