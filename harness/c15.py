"""C15: geographic relations are those of the sets of faces."""
from itertools import combinations

from harness.gen import neg
from harness.geo import geography, union
from ocelot.errors import OverlappingActivities, MultipleGlobalDatasets
from ocelot.transformations.locations import topology
from ocelot.transformations.locations.validation import no_overlaps, check_single_global_dataset

INFO = dict(
    bounds="all arrangements of 3 regions over 4 faces of the globe (5 in the thorough tier), each face's membership a "
           "symbolic boolean; all locations, all lists of up to 2 subtracted regions, resolved rest-of-world sets are "
           "arbitrary symbolic sets of faces; two queries in a row that differ in any argument",
    outside="the database of real places (constructive_geometries) itself",
    assumptions=["every region covers at least one face"])
LABELS = ["rest of world", "contains", "contained", "order of size", "overlap", "overlap rejected", "no overlap accepted",
          "one global dataset"]
REGIONS = "ABC"
SUBS = (None, [], ["A"], ["B"], ["B", "C"], ["RoW"])


def faces(places, loc, row):
    if isinstance(loc, (set, frozenset)):
        return loc
    if loc == "RoW":
        return set() if row is None else row
    return places[loc]


def area_of(places, parent, sub, row):
    area = faces(places, parent, row)
    if sub:
        out = union([places[s] for s in sub if s != "RoW"])
        area = area - out
    return area


def rest(S):
    c = S.case
    places = geography(S, REGIONS, c["faces"])
    others = S.choice("others", [list(g) for k in (1, 2, 3) for g in combinations(REGIONS + "*G", k)])
    others = [{"*": "RoW", "G": "GLO"}.get(o, o) for o in others]
    got = topology.resolve_row(others)
    S.check("rest of world", got == places["GLO"] - union([places[o] for o in others if o != "RoW"]))


def query(S, p, c, what, first=None):
    """The arguments of a query; with ``first``, one of its arguments changes."""
    n, small = c["faces"], c.get("again")
    change = S.choice("change", ["parent", what, "sub", "row"]) if first else None
    q = dict(first or {})
    if change in (None, "parent"):
        q["parent"] = S.choice(p + "parent", ["A", "GLO", "RoW"] if small else ["A", "B", "GLO", "RoW", "set"])
        if q["parent"] == "set":
            q["parent"] = S.members(p + "pset", n)
    if what == "child" and change in (None, "child"):
        q["child"] = S.choice(p + "child", ["B", "RoW", "set"] if small else ["A", "C", "GLO", "RoW", "set"])
        if q["child"] == "set":
            q["child"] = S.members(p + "cset", n)
    if change in (None, "sub"):
        q["sub"] = S.choice(p + "sub", (None, ["B"]) if small else SUBS)
    if change in (None, "row"):
        q["row"] = S.members(p + "row", n) if S.bool(p + "resolved") else None
    if what == "self" and change in (None, "self"):
        q["self"] = S.bool(p + "exclude")
    return q


def ask_contains(S, places, q):
    parent, child, sub, row = q["parent"], q["child"], q["sub"], q["row"]
    area = area_of(places, parent, sub, row)
    if isinstance(child, set):
        want = S.all_of([S.nonempty(child), child <= area])
    elif child == "RoW":
        want = parent == "GLO" and not sub
    else:
        want = places[child] <= area
        if parent == "RoW":
            want = row is not None and S.all_of([S.nonempty(row), want])
    S.iff("contains", bool(topology.contains(parent, child, subtract=sub, resolved_row=row)), want)


def ask_contained(S, places, q):
    parent, sub, row, ex = q["parent"], q["sub"], q["row"], q["self"]
    area = area_of(places, parent, sub, row)
    got = topology.contained(parent, exclude_self=ex, subtract=sub, resolved_row=row)
    known = parent != "RoW" or row is not None
    for r in places:
        want = False
        if known and not (ex and parent == r):
            want = S.all_of([S.nonempty(area), places[r] <= area])
        S.iff("contained", r in got, want)
    if row is None:
        want = parent == "GLO" and not sub
    elif ex and parent == "RoW":
        want = False
    else:
        want = S.all_of([S.nonempty(row), row <= area])
    S.iff("contained", "RoW" in got, want)


def contains(S):
    c = S.case
    places = geography(S, REGIONS[:2] if c.get("again") else REGIONS, c["faces"])
    q = query(S, "q.", c, "child")
    if c.get("again"):
        topology.contains(q["parent"], q["child"], subtract=q["sub"], resolved_row=q["row"])
        q = query(S, "r.", c, "child", q)
    ask_contains(S, places, q)


def contained(S):
    c = S.case
    places = geography(S, REGIONS[:c.get("regions", 2)], c["faces"])
    q = query(S, "q.", c, "self")
    q["sub"] = [s for s in q["sub"] if s != "C"] if q["sub"] else q["sub"]
    if c.get("again"):
        topology.contained(q["parent"], exclude_self=q["self"], subtract=q["sub"], resolved_row=q["row"])
        q = query(S, "r.", c, "self", q)
    ask_contained(S, places, q)


def order(S):
    c = S.case
    places = geography(S, REGIONS, c["faces"])
    row = S.members("row", c["faces"]) if S.bool("resolved") else None
    if c.get("again"):
        topology.ordered_dependencies([{"location": x} for x in c["locs"]], None)
        topology.ordered_dependencies([{"location": x} for x in c["locs"][1:]], row)
    locs = [{"location": x} for x in c["locs"]]
    got = list(topology.ordered_dependencies(locs + locs[:1], row))
    S.check("order of size", sorted(got) == sorted(c["locs"]), "%s -> %s" % (c["locs"], got))
    for a, b in zip(got, got[1:]):
        ca, cb = (S.card(faces(places, x, row)) for x in (a, b))
        S.check("order of size", ca >= cb if a > b else ca > cb, "%s before %s" % (a, b))


def overlap(S):
    c = S.case
    places = geography(S, REGIONS, c["faces"])
    g = S.choice("group", [g for k in (1, 2, 3) for g in combinations(["A", "B", "C", "GLO", "RoW"], k)] +
                 [("A", "A"), ("A", "B", "A"), ("A", "B", "C", "RoW"), ("RoW", "RoW"), ("GLO", "GLO")])
    want = S.any_of([S.nonempty(faces(places, x, None) & faces(places, y, None)) for x, y in combinations(g, 2)] or [False])
    if c["what"] == "overlaps":
        S.iff("overlap", bool(topology.overlaps(list(g))), want)
        return
    bad = S.any_of([want, "GLO" in g and len(g) > 1])
    try:
        no_overlaps([{"location": x} for x in g])
        raised = False
    except OverlappingActivities:
        raised = True
    S.iff("overlap rejected" if raised else "no overlap accepted", raised, bad)


def single(S):
    n = S.case["n"]
    dss = [{"location": S.text("l%d" % i, ["GLO", "A", "RoW"])} for i in range(n)]
    two = S.any_of([S.all_of([a["location"] == "GLO", b["location"] == "GLO"]) for a, b in combinations(dss, 2)] or [False])
    try:
        check_single_global_dataset(dss)
        raised = False
    except MultipleGlobalDatasets:
        raised = True
    S.iff("one global dataset", raised, two)


HARNESSES = dict(rest=rest, contains=contains, contained=contained, order=order, overlap=overlap, single=single)


def cases(tier):
    n = 4 if tier == "quick" else 5
    out = [dict(h="rest", faces=n), dict(h="contains", faces=n), dict(h="contained", faces=n),
           dict(h="contains", faces=2, again=True), dict(h="contained", faces=2, again=True),
           dict(h="overlap", faces=n, what="overlaps"), dict(h="overlap", faces=n, what="no_overlaps"), dict(h="single", n=4)]
    for locs in (["A"], ["A", "B"], ["A", "GLO"], ["A", "RoW"], ["GLO", "RoW", "A"], ["A", "B", "RoW"], ["C", "B", "A"]):
        out.append(dict(h="order", faces=n, locs=locs))
    out.append(dict(h="order", faces=n - 1, locs=["RoW", "B", "A"], again=True))
    if tier == "thorough":
        out.append(dict(h="contains", faces=3, again=True))
    return out
