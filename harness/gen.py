"""Symbolic dataset builders shared by the harnesses."""
from copy import deepcopy

from symx.source import BIG

UNCERTAINTY = (None, "lognormal", "normal", "triangular", "uniform", "undefined")


def uncertainty(S, p, kind, amount):
    """An uncertainty dictionary of the given kind that is consistent with
    ``amount``, as produced by the extractor and repair steps."""
    if kind == "lognormal":
        S.assume(amount != 0)
        v = S.real(p + ".var", 0, 2)
        S.assume(v > 0)
        vp = S.real(p + ".varp", 0, 2)
        S.assume(vp > 0)
        neg = amount < 0
        import math
        return {"type": "lognormal", "mean": abs(amount), "mu": math.log(abs(amount)),
                "variance": v, "variance with pedigree uncertainty": vp, "negative": neg}
    if kind == "normal":
        S.assume(amount != 0)
        v = S.real(p + ".var", 0, 10)
        S.assume(v > 0)
        vp = S.real(p + ".varp", 0, 10)
        S.assume(vp > 0)
        return {"type": "normal", "mean": amount, "variance": v,
                "variance with pedigree uncertainty": vp}
    if kind == "triangular":
        lo = S.real(p + ".lo", -BIG, BIG)
        hi = S.real(p + ".hi", -BIG, BIG)
        S.assume(lo < hi)
        S.assume(lo <= amount)
        S.assume(amount <= hi)
        return {"type": "triangular", "mode": amount, "minimum": lo, "maximum": hi}
    if kind == "uniform":
        w = S.real(p + ".w", 0, BIG)
        S.assume(w > 0)
        return {"type": "uniform", "minimum": amount - w, "maximum": amount + w}
    if kind == "undefined":
        lo = S.real(p + ".lo", -BIG, BIG)
        hi = S.real(p + ".hi", -BIG, BIG)
        return {"type": "undefined", "minimum": lo, "maximum": hi,
                "standard deviation 95%": 0.5}
    raise ValueError(kind)


def exchange(S, p, type_, name=None, amount=None, **extra):
    """A plain exchange; ``p`` prefixes the names of its symbolic inputs."""
    e = {"id": "id-" + p, "name": name or "flow " + p, "type": type_, "unit": "kg",
         "tag": "elementaryExchange" if "environment" in type_ else "intermediateExchange",
         "amount": S.real(p) if amount is None else amount}
    e.update(extra)
    return e


def with_uncertainty(S, p, exc, kind):
    if kind is not None:
        exc["uncertainty"] = uncertainty(S, p + ".u", kind, exc["amount"])
    return exc


def prop(name, amount, **kw):
    d = {"name": name, "amount": amount, "unit": "EUR2005", "id": "p-" + name}
    d.update(kw)
    return d


def dataset(name, exchanges, **kw):
    d = {"name": name, "exchanges": exchanges, "type": "transforming activity", "location": "GLO",
         "filepath": "/some/%s.spold" % name, "id": "ds-" + name, "parameters": [],
         "start date": "2000-01-01", "end date": "2010-12-31", "technology level": "current",
         "economic scenario": "Business-as-Usual", "access restricted": "public",
         "dataset author": "nobody"}
    d.update(kw)
    return d


def snapshot(x):
    return deepcopy(x)


def scaled(S, exc, f):
    """Reference: what an exchange looks like after multiplication by ``f``."""
    import math
    e = deepcopy(exc)
    e["amount"] = exc["amount"] * f
    u = e.get("uncertainty")
    if not u:
        return e
    kind = u.get("type")
    zero = bool(f == 0)
    if kind in ("lognormal", "normal", "triangular", "uniform") and zero:
        del e["uncertainty"]
        return e
    if kind == "lognormal":
        if bool(f < 0):
            u["negative"] = not bool(u["negative"])
        u["mean"] = abs(e["amount"])
        u["mu"] = math.log(abs(e["amount"]))
    elif kind == "normal":
        u["mean"] = e["amount"]
        u["variance"] = u["variance"] * f * f
        u["variance with pedigree uncertainty"] = u["variance with pedigree uncertainty"] * f * f
    elif kind in ("triangular", "uniform"):
        lo, hi = u["minimum"] * f, u["maximum"] * f
        if bool(f < 0):
            lo, hi = hi, lo
        u["minimum"], u["maximum"] = lo, hi
        if kind == "triangular":
            u["mode"] = e["amount"]
    elif kind == "undefined":
        u["minimum"], u["maximum"] = u["minimum"] * f, u["maximum"] * f
    return e


def dropped(exc):
    """Reference: a production exchange that was not chosen."""
    e = deepcopy(exc)
    e["type"] = "dropped product"
    e["amount"] = 0
    for k in ("formula", "production volume", "uncertainty"):
        e.pop(k, None)
    return e


def chosen(S, exc):
    """Reference: a production exchange that was chosen and normalised."""
    e = deepcopy(exc)
    e["type"] = "reference product"
    e["amount"] = 1 if bool(exc["amount"] > 0) else -1
    for k in ("byproduct classification", "uncertainty"):
        e.pop(k, None)
    return e


def containers(ds):
    """The lists and dictionaries of a dataset that later steps change in place."""
    out, todo = set(), [ds["exchanges"], ds.get("parameters")]
    while todo:
        x = todo.pop()
        if isinstance(x, (list, dict)) and id(x) not in out:
            out.add(id(x))
            todo.extend(x.values() if isinstance(x, dict) else x)
    return out | {id(ds)}


def check_apart(S, label, *datasets):
    """Changing one of the datasets in place leaves the others alone."""
    seen = set()
    for ds in datasets:
        mine = containers(ds)
        S.check(label, not (seen & mine), "two datasets share their exchanges or parameters")
        seen |= mine


def by_id(exchanges):
    return {e["id"]: e for e in exchanges}


def check_exchanges(S, label, actual, expected):
    """Same exchanges, identified by id, in any order."""
    S.check(label, sorted(e["id"] for e in actual) == sorted(e["id"] for e in expected),
            "exchanges %s instead of %s" % ([e["id"] for e in actual], [e["id"] for e in expected]))
    a = by_id(actual)
    for e in expected:
        if e["id"] in a:
            S.same(label, a[e["id"]], e, e["id"])


def single_output(S, source, product, factor):
    """Reference: ``source`` with ``product`` as its only product, the other
    allocatable products dropped, and the rest scaled by ``factor`` and
    normalised to one unit of ``product``."""
    f = factor / abs(product["amount"])
    expected = []
    for e in source["exchanges"]:
        if e is product:
            expected.append(chosen(S, e))
        elif is_product(e):
            expected.append(dropped(e))
        else:
            expected.append(scaled(S, e, f))
    out = deepcopy({k: v for k, v in source.items() if k != "exchanges"})
    out["exchanges"] = expected
    return out


def check_dataset(S, label, out, expected):
    """Same dataset; exchanges are identified by id, in any order."""
    check_exchanges(S, label, out["exchanges"], expected["exchanges"])
    S.same(label, {k: v for k, v in out.items() if k != "exchanges"},
           {k: v for k, v in expected.items() if k != "exchanges"})


def check_single_output(S, label, out, source, product, factor):
    check_dataset(S, label, out, single_output(S, source, product, factor))


def is_product(e):
    return e["type"] == "reference product" or (
        e["type"] == "byproduct" and e["byproduct classification"] == "allocatable product")


def get_prop(e, name):
    for p in e.get("properties", []):
        if p["name"] == name:
            return p
    return None


def economic_shares(ds):
    """Reference: [(product, share of the burdens)]."""
    prods = [e for e in ds["exchanges"] if is_product(e)]
    rev = [get_prop(e, "price")["amount"] * e["amount"] for e in prods]
    tv = [get_prop(e, "true value relation") for e in prods]
    total = sum(rev)
    tv_sum = sum(t["amount"] * e["amount"] for t, e in zip(tv, prods) if t)
    tv_rev = sum(r for t, r in zip(tv, rev) if t)
    out = []
    for e, r, t in zip(prods, rev, tv):
        if t:
            out.append((e, (t["amount"] * e["amount"] * tv_rev) / (tv_sum * total)))
        else:
            out.append((e, r / total))
    return out


def check_economic(S, label, out, ds):
    """``out`` is the list of single-output datasets of economic allocation."""
    shares = economic_shares(ds)
    S.check(label, len(out) == len(shares), "%d datasets instead of %d" % (len(out), len(shares)))
    for o, (e, share) in zip(out, shares):
        check_single_output(S, label, o, ds, e, share)


def check_waste(S, label, out, ds):
    rp = [e for e in ds["exchanges"] if e["type"] == "reference product"][0]
    byp = [e for e in ds["exchanges"] if is_product(e) and e is not rp]
    S.check(label, len(out) == 1 + len(byp), "%d datasets instead of %d" % (len(out), 1 + len(byp)))
    if not out:
        return
    check_single_output(S, label, out[0], ds, rp, 1)
    for o, e in zip(out[1:], byp):
        S.same(label, {k: v for k, v in o.items() if k != "exchanges"},
               {k: v for k, v in ds.items() if k != "exchanges"})
        check_exchanges(S, label, o["exchanges"], [chosen(S, e)])


def recycled(S, ds):
    """Reference: the activity after its reference product became an input."""
    ds = deepcopy(ds)
    ds["exchanges"] = [e if e["type"] != "reference product" else dict(scaled(S, e, -1), type="from technosphere")
                       for e in ds["exchanges"]]
    return ds


def away_from_one(S, x):
    S.assume(S.any_of([abs(x) == 1, abs(abs(x) - 1) >= 1e-6]))
    return x


TYPES = ("reference product", "byproduct", "dropped product", "from technosphere", "to environment", "from environment")
CLASSES = ("allocatable product", "waste", "recyclable")


def lazy(S, p, types=TYPES, classes=CLASSES, **kw):
    """An exchange whose type and classification are symbolic strings."""
    e = exchange(S, p, types[0], **kw)
    e["type"] = S.text(p + ".type", types)
    e["byproduct classification"] = S.text(p + ".class", classes)
    e["tag"] = "intermediateExchange"
    return e


def product_cond(S, e):
    """Whether an exchange is an allocatable product, as a condition."""
    return S.any_of([e["type"] == "reference product",
                     S.all_of([e["type"] == "byproduct", e.get("byproduct classification") == "allocatable product"])])


def neg(S, c):
    return (not c) if isinstance(c, bool) else ~c
