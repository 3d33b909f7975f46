"""one-off: freezes the published names (and the coefficients the names stand for) of the reviewed tree into qsa/names.json;
the file is data, reviewed against the documentation; checks only read it"""
import json, sys
sys.path.insert(0, "/verif")
from qsa.driver import World
from qsa.h import *
from qsa import tables
w = World(sys.argv[1] if len(sys.argv) > 1 else "/repo"); h = H(w)
out = {"registries": {}, "rk": {}}
for r in (QPKG + ".Q_GENERATORS", "qmat.qcoeff.butcher.RK_SCHEMES", DPKG + ".QDELTA_GENERATORS"):
    out["registries"][r] = {n: c.name for n, c in h.names(r).items()}
for n, c in h.rks().items():
    t = tables.read(w, h, c, what=("nodes", "weights", "Q", "weightsEmbedded", "order"))
    f = lambda x: None if not isinstance(x, np.ndarray) else [round(float(y), 9) for y in np.ravel(x)]
    import numpy as np
    out["rk"][n] = {k: f(v) for k, v in t.items()}
json.dump(out, open("/verif/qsa/names.json", "w"), indent=0)
print({k: len(v) for k, v in out["registries"].items()}, len(out["rk"]))
