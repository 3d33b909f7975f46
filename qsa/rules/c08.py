"""C08: tables after padding against the unpadded ones, for every registered scheme."""
from ..h import *
from .. import tables
import numpy as np

TOL = 1e-12


def is_arr(x): return isinstance(x, np.ndarray)


def check(w, rep, tier):
    h = H(w)
    what = ("nodes", "weights", "Q", "S", "weightsEmbedded", "nNodes")
    base_q = "qmat.qcoeff.butcher.RK.__init__"
    for name, cls in sorted(h.rks().items()):
        site = h.site_of(cls)
        t0 = tables.read(w, h, cls, None, what)
        c, b, A, b2 = t0["nodes"], t0["weights"], t0["Q"], t0["weightsEmbedded"]
        if not (is_arr(c) and is_arr(b) and is_arr(A)): rep.und("base", name, "table not constant"); continue
        n = c.size
        for pad in ("LEFT", "RIGHT", "BOTH"):
            t = tables.read(w, h, cls, pad, what)
            l, r = pad in ("LEFT", "BOTH"), pad in ("RIGHT", "BOTH")
            m = n + l + r
            z = lambda v, last: np.array(([0.0] if l else []) + v.tolist() + ([last] if r else []))
            wA = np.zeros((m, m))
            wA[l:l + n, l:l + n] = A
            wb = z(b, 0.0)
            if r: wA[-1] = wb
            wc = z(c, 1.0)
            want = {"nodes": wc, "weights": wb, "Q": wA, "nNodes": np.array(float(m)),
                    "S": wA - np.vstack([np.zeros((1, m)), wA[:-1]])}
            if is_arr(b2): want["weightsEmbedded"] = z(b2, 0.0)
            elif isinstance(b2, str): want["weightsEmbedded"] = b2
            for a, e in want.items():
                g = t[a]
                if g is None: rep.und("padded-" + a, name, "not constant"); continue
                if isinstance(e, str) or isinstance(g, str):
                    rep.check("padded-" + a, name, isinstance(e, str) and isinstance(g, str), f"{name}, padding={pad}: {a} gives {g} instead of {'an array' if not isinstance(e, str) else e}", construct=site)
                    continue
                if g.shape != e.shape: rep.bad("padded-" + a, site, f"{name}, padding={pad}: {a} has shape {g.shape} instead of {e.shape}"); continue
                d = np.abs(g - e)
                rep.check("padded-" + a, name, bool(d.max() <= TOL), f"{name}, padding={pad}: {a}{list(map(int, np.unravel_index(d.argmax(), d.shape)))} is {g.flat[d.argmax()]:.6g} instead of {e.flat[d.argmax()]:.6g}", construct=site)
        # whatever the padding, the class tables stay those of the unpadded scheme
        def twice(I):
            for pad in ("LEFT", "RIGHT", "BOTH"): I.call(cls, [], {"padding": Const(pad)})
            o = I.call(cls, [], {})
            return Tup([h.attr(o, x) for x in ("nodes", "weights", "Q")])
        for p in w.explore(twice, max_paths=8):
            if p.kind != "ok": rep.und("unpadded-after", name, p.kind); continue
            g = [tables.const(x) for x in p.value.items]
            if any(x is None for x in g): rep.und("unpadded-after", name, "not constant"); continue
            same = all(x.shape == y.shape and np.abs(x - y).max() <= TOL for x, y in zip(g, (c, b, A)))
            rep.check("unpadded-after", name, same, f"{name}: tables differ after a padded instance was created", construct=site)
        if name in ("RK4", "CashKarp", "BE") or tier == "thorough":
            for v in (Const("left"), Const("TOP"), Const("LEFT-RIGHT"), Num(c=1), Num(c=True), Tup([Const("LEFT")])):
                res = [p.kind for p in w.explore(lambda I: I.call(cls, [], {"padding": v}), max_paths=8)]
                if "abort" in res or not res: rep.und("rejected", name, "no answer"); continue
                rep.check("rejected", name, all(k == "raise" for k in res), f"{name}: padding={v!r} is accepted", construct=base_q)
