"""C09: coupling conditions of the documented implicit-explicit pairs (tables by constant propagation)."""
from ..h import *
from .. import tables, trees
import numpy as np

TOL = 1e-8
# (explicit, implicit, documented order of the pair)
PAIRS = [("ARK548L2SAERK", "ARK548L2SAESDIRK", 5), ("ARK548L2SAERK2", "ARK548L2SAESDIRK2", 5), ("ARK324L2SAERK", "ARK324L2SAESDIRK", 3),
         ("ARK222ERK", "ARK222EDIRK", 2), ("ARK443ERK", "ARK443ESDIRK", 3), ("ARK343ERK", "ARK343ESDIRK", 3), ("ARK4ERK", "ARK4EDIRK", 4)]


def is_arr(x): return isinstance(x, np.ndarray)


def check(w, rep, tier):
    h = H(w)
    names = h.names("qmat.qcoeff.butcher.RK_SCHEMES")
    for e, i, order in PAIRS:
        if e not in names or i not in names: rep.bad("pair", "qmat.qcoeff.butcher.RK_SCHEMES", f"pair {e}/{i}: not registered"); continue
        te, ti = (tables.read(w, h, names[x], what=("nodes", "weights", "Q")) for x in (e, i))
        if not all(is_arr(v) for t in (te, ti) for v in t.values()): rep.und("pair", e, "table not constant"); continue
        q = f"{names[e].qual} / {names[i].qual}"
        c, ci = te["nodes"], ti["nodes"]
        rep.check("stages", e, c.shape == ci.shape, f"{e} has {c.size} stages, {i} has {ci.size}", construct=q)
        if c.shape != ci.shape: continue
        rep.check("stage-times", e, bool(np.abs(c - ci).max() <= TOL), f"{e} and {i} use different stage times at stage {int(np.abs(c - ci).argmax())}", construct=q)
        for (nm, t, k) in ((e, te, 0), (i, ti, 1)):
            up = np.triu(t["Q"], k)
            rep.check("triangular", nm, not np.any(up), f"{nm}: {'explicit' if k == 0 else 'implicit'} member has A{list(map(int, np.unravel_index(np.abs(up).argmax(), up.shape)))} != 0", construct=names[nm].qual)
        rep.check("implicit-member", i, bool(np.any(np.diag(ti["Q"]) != 0)), f"{i}: no implicit stage", construct=names[i].qual)
        A, b = (te["Q"], ti["Q"]), (te["weights"], ti["weights"])
        for k in range(1, order + 1):
            bad = None
            for t in trees.coloured(k):
                r = trees.cresidual(A, b, t)
                if abs(r) > TOL * max(1, max(np.abs(x).max() for x in A) ** (k - 1)): bad = bad or (t, r)
                else: rep.ok("coupling", e)
            if bad:
                rep.bad("coupling", q, f"pair {e}/{i} documented of order {order} violates the order-{k} condition of the tree {trees.cshow(bad[0])} by {bad[1]:.3g}")
                break
