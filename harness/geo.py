"""Small symbolic geographies: which faces of the globe each of a few regions covers is symbolic."""
import constructive_geometries as library
from copy import deepcopy

from ocelot.transformations.locations import topology, _topology

COMPATIBILITY = [fixed for _, fixed in type(topology).compatibility]
# module-level containers (caches, if any) are put back for every geography
CONTAINERS = {k: deepcopy(v) for k, v in vars(_topology).items()
              if not k.startswith("__") and isinstance(v, (dict, list)) and not callable(v)}


class Fake:
    """Stands in for the database of real places."""
    places, faces, empty = {}, set(), set()

    def __init__(self, *args, **kwargs):
        self.data = {fixed: Fake.empty.copy() for fixed in COMPATIBILITY}
        self.data.update({k: v.copy() for k, v in Fake.places.items()})
        self.all_faces = Fake.faces.copy()


def install(places, faces):
    Fake.places, Fake.faces = places, faces
    _topology.ConstructiveGeometries = library.ConstructiveGeometries = Fake
    for k, v in CONTAINERS.items():
        now = getattr(_topology, k, None)
        if type(now) is type(v):
            now.clear()
            (now.update if isinstance(now, dict) else now.extend)(deepcopy(v))
    topology.__init__()
    for owner in (type(topology), topology, _topology):
        for f in list(vars(owner).values()):
            if hasattr(f, "cache_clear"):
                f.cache_clear()
    return topology


def geography(S, regions, n, disjoint=False, partition=False):
    """Every arrangement of ``regions`` over ``n`` faces (up to renaming faces); each covers at least one.

    Returns {region: set of faces}, with GLO; the sets are symbolic."""
    places = {r: S.members("area" + r, n) for r in regions}
    if S.symbolic:
        z3, E = S.z3, S.E
        Fake.empty = E.SymSet([z3.BoolVal(False)] * n)
        glo = E.SymSet([z3.BoolVal(True)] * n)
        # faces are interchangeable
        code = [z3.Sum([z3.IntVal(0)] + [z3.If(places[r].bits[f], 2 ** i, 0) for i, r in enumerate(regions)])
                for f in range(n)]
        for a, b in zip(code, code[1:]):
            S.e.add(a >= b)
    else:
        glo = set(range(n))
    for r in regions:
        S.assume(S.nonempty(places[r]))
    if disjoint or partition:
        for i, r in enumerate(regions):
            for q in regions[:i]:
                S.assume(places[r].isdisjoint(places[q]))
    if partition:
        S.assume(union(places.values()) == glo)
    install(places, glo)
    return dict(places, GLO=glo)


def union(areas):
    out = None
    for a in areas:
        out = a if out is None else a | out
    return set() if out is None else out
