"""C09: pedigree matrices and time."""
from harness.gen import exchange, dataset, snapshot, uncertainty
from ocelot.transformations.uncertainty import adjust_pedigree_matrix_time, get_uncertainty_class
from ocelot.transformations.uncertainty.pedigree import get_pedigree_variance, get_difference_in_years

# ecoinvent data quality guideline, table 10.5
PEDIGREE = {
    "reliability": (0, 0.0006, 0.002, 0.008, 0.04),
    "completeness": (0, 0.0001, 0.0006, 0.002, 0.008),
    "temporal correlation": (0, 0.0002, 0.002, 0.008, 0.04),
    "geographical correlation": (0, 2.5e-5, 0.0001, 0.0006, 0.002),
    "further technological correlation": (0, 0.0006, 0.008, 0.04, 0.12),
    "sample size": (0, 9.8e-05, 0.0006, 0.0023, 0.0083),
    "further technology correlation": (0, 0.0006, 0.008, 0.04, 0.12),  # the name in the data format
}
CIROTH = {
    "reliability": (0.0, 0.047, 0.057, 0.069, 0.069),
    "completeness": (0.0, 0.00022, 0.00038, 0.0015, 0.0015),
    "temporal correlation": (0, 0.00022, 0.0023, 0.0076, 0.016),
    "geographical correlation": (0, 0.00022, 0.0023, 0.0076, 0.016),
    "further technological correlation": (0, 0.00022, 0.0023, 0.0076, 0.016),
    "sample size": (0, 0, 0, 0, 0),
    "further technology correlation": (0, 0.00022, 0.0023, 0.0076, 0.016),
}

INFO = dict(
    bounds="every score 1 to 5 of every indicator (symbolic integers), every subset of up to 6 indicators, both published "
           "tables; matrices in the uncertainty distribution or next to it; data years and target years as symbolic integers from 1900 to 2200; every distribution kind",
    outside="two pedigree matrices for one amount; dates that are not YYYY-MM-DD")
LABELS = ["variance of scores", "variance grows with the score", "years", "temporal score", "score never improves",
          "variance follows the pedigree matrix", "nothing else changes"]


def score(S, name):
    """A score from one to five, resolved by the solver."""
    return S.choice(name, [1, 2, 3, 4, 5])


def variance(S):
    tab = dict(original=PEDIGREE, ciroth=CIROTH)[S.case["version"]]
    args = [] if S.case["version"] == "original" and not S.case.get("named") else [
        {"original": "original", "ciroth": "Ciroth et al"}[S.case["version"]]]
    pm = {k: score(S, k) for k in S.case["keys"]}
    want = sum(tab[k][v - 1] for k, v in pm.items())
    got = get_pedigree_variance(pm, *args)
    S.check("variance of scores", abs(got - want) < 1e-12, "%r for %r" % (got, pm))
    S.check("variance of scores", get_pedigree_variance({}, *args) == 0)
    k = S.case["keys"][0]
    if pm[k] < 5:
        worse = dict(pm, **{k: pm[k] + 1})
        S.check("variance grows with the score", get_pedigree_variance(worse, *args) >= got - 1e-15)


def years(S):
    a, b = S.int("a", 1900, 2200), S.int("b", 1900, 2200)
    d = get_difference_in_years(a, b)
    S.eq("years", d, abs(a - b))
    S.eq("years", get_difference_in_years(b, a), d)
    txt = S.choice("date", ["2002-12-31", "2002-01-01", "1999-06-15"])
    S.eq("years", get_difference_in_years(txt, b), abs(int(txt[:4]) - b))
    S.eq("years", get_difference_in_years(b, txt), abs(int(txt[:4]) - b))


def reference_score(S, old, d):
    """The IFU table: the score after ageing by d years."""
    if bool(d == 0):
        return old
    if old == 1:
        for limit, new in ((3, 2), (7, 3), (12, 4)):
            if bool(d <= limit):
                return new
    elif old == 2:
        if bool(d < 5):
            return 3
        if bool(d == 5):
            return 4
    elif old == 3:
        if bool(d <= 5):
            return 4
    return 5


def adjust(S):
    kind = S.case["kind"]
    e = exchange(S, "x", "from technosphere")
    if kind is not None:
        e["uncertainty"] = uncertainty(S, "u", kind, e["amount"])
    has = S.bool("has")
    if has:
        inside = kind is not None and S.bool("inside")
        place = (lambda x: x["uncertainty"]) if inside else lambda x: x
        place(e)["pedigree matrix"] = {"reliability": score(S, "rel"), "temporal correlation": score(S, "tc"), "completeness": 2,
                                       "further technology correlation" if inside else "geographical correlation": 4}
    elif kind is not None and S.bool("empty"):
        e["uncertainty"]["pedigree matrix"] = {}
    year = S.int("year", 1900, 2200)
    end = S.choice("end", ["2010-12-31", "1995-01-01"])
    ds = dataset("d", [e], **{"end date": end})
    before, bds = snapshot(e), snapshot({k: v for k, v in ds.items() if k != "exchanges"})
    out = adjust_pedigree_matrix_time(ds, e, year)
    S.check("nothing else changes", out is e)
    want = snapshot(before)
    if has:
        old = place(before)["pedigree matrix"]["temporal correlation"]
        d = abs(int(end[:4]) - year)
        new = reference_score(S, old, d)
        S.check("temporal score", place(e)["pedigree matrix"]["temporal correlation"] == new)
        S.check("score never improves", place(e)["pedigree matrix"]["temporal correlation"] >= old)
        place(want)["pedigree matrix"]["temporal correlation"] = new
    if kind == "lognormal":
        want["uncertainty"]["variance with pedigree uncertainty"] = before["uncertainty"]["variance"] + sum(
            PEDIGREE[k][v - 1] for k, v in (place(want)["pedigree matrix"] if has else {}).items())
        S.eq("variance follows the pedigree matrix", e["uncertainty"]["variance with pedigree uncertainty"],
             want["uncertainty"]["variance with pedigree uncertainty"])
    S.same("nothing else changes", e, want)
    S.same("nothing else changes", {k: v for k, v in ds.items() if k != "exchanges"}, bds)


HARNESSES = dict(variance=variance, years=years, adjust=adjust)


def cases(tier):
    keys = sorted(PEDIGREE)
    out = []
    for version in ("original", "ciroth"):
        for k in keys:
            out.append(dict(h="variance", version=version, keys=[k]))
        out.append(dict(h="variance", version=version, keys=keys[:3]))
        out.append(dict(h="variance", version=version, keys=keys[3:], named=True))
        if tier == "thorough":
            out.append(dict(h="variance", version=version, keys=keys[:5]))
    out.append(dict(h="years"))
    out += [dict(h="adjust", kind=k) for k in (None, "lognormal", "normal", "triangular", "uniform", "undefined")]
    return out
