"""Where does a case split?  python tools/forks.py C30 CASE [SECONDS]: two-way decisions per line of code."""
import collections
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.environ.get("OCELOT_REPO", "/repo")]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from symx import patches, engine as E, explore  # noqa

patches.install() if hasattr(patches, "install") else None
COUNT = collections.Counter()
for f in ("decide", "enumerate_int"):
    def wrap(orig):
        def g(self, *a):
            n = len(self.queued)
            r = orig(self, *a)
            if len(self.queued) > n:
                st = [x for x in traceback.extract_stack() if "/symx/" not in x.filename and "tools/forks" not in x.filename]
                COUNT[" <- ".join("%s:%d %s" % (os.path.basename(x.filename), x.lineno, (x.line or "")[:60]) for x in st[:-3:-1])] += 1
            return r
        return g
    setattr(E.Engine, f, wrap(getattr(E.Engine, f)))
m = importlib.import_module("harness." + sys.argv[1].lower())
case = dict(m.cases("quick")[int(sys.argv[2])])
out = sys.stdout
sys.stdout = open(os.devnull, "w")
r = explore.explore(m.HARNESSES[case["h"]], case, [[]], 1, float(sys.argv[3]) if len(sys.argv) > 3 else 20, 10000)
sys.stdout = out
print(r["stats"].get("paths"), "paths", len(r["left"]), "left")
for k, n in COUNT.most_common(40):
    print(n, k)
