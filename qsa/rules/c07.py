"""C07: consistency and rooted-tree order conditions of every registered Butcher table, on the tables obtained by constant
propagation from the class bodies through registration, constructor and accessors."""
from ..h import *
from .. import tables, trees
import numpy as np

TOL = 1e-8


def is_arr(x): return isinstance(x, np.ndarray)


def order_check(rep, name, cls, A, b, order, rule, what):
    """one obligation per rooted tree up to the declared order"""
    for k in range(1, order + 1):
        bad = []
        for t in trees.trees(k):
            r = trees.residual(A, b, t)
            if abs(r) > TOL * max(1, np.abs(A).max() ** (k - 1)): bad.append((trees.show(t), r))
            else: rep.ok(rule, name)
        if bad:
            rep.bad(f"{rule}-{k}", f"{cls.qual}:{','.join(x[0] for x in bad)}",
                    f"{name}: {what} declared of order {order} violate {len(bad)} order-{k} condition(s), e.g. tree {bad[0][0]} by {bad[0][1]:.3g}")


def check(w, rep, tier):
    h = H(w)
    for name, cls in sorted(h.rks().items()):
        t = tables.read(w, h, cls, what=("nodes", "weights", "Q", "weightsEmbedded", "order", "orderEmbedded"))
        c, b, A = t["nodes"], t["weights"], t["Q"]
        q = cls.qual
        if not (is_arr(c) and is_arr(b) and is_arr(A)):
            rep.und("table", name, f"table not constant: nodes={type(c).__name__} weights={type(b).__name__} Q={type(A).__name__}")
            continue
        n = c.size
        dims = c.shape == (n,) and b.shape == (n,) and A.shape == (n, n)
        rep.check("dimensions", name, dims, f"{name}: A {A.shape}, b {b.shape}, c {c.shape}", construct=q)
        if not dims: continue
        d = np.abs(A.sum(axis=1) - c)
        rep.check("row-sums", name, bool(d.max() <= TOL * max(1, np.abs(A).max())),
                  f"{name}: stage time c[{int(d.argmax())}]={c[d.argmax()]:.12g} differs from the row sum {A.sum(axis=1)[d.argmax()]:.12g}", construct=q)
        o = t["order"]
        if is_arr(o): order_check(rep, name, cls, A, b, int(o), "order", "weights")
        else: rep.und("order", name, f"declared order {o}")
        b2 = t["weightsEmbedded"]
        if isinstance(b2, str): continue
        if not is_arr(b2): rep.und("embedded", name, "embedded weights not constant"); continue
        rep.check("embedded-dimensions", name, b2.shape == (n,), f"{name}: embedded weights {b2.shape} for {n} stages", construct=q)
        if b2.shape != (n,): continue
        rep.check("embedded-differs", name, bool(np.abs(b2 - b).max() > TOL), f"{name}: embedded weights equal the weights", construct=q)
        o2 = t["orderEmbedded"]
        if is_arr(o2): order_check(rep, name, cls, A, b2, int(o2), "order-embedded", "embedded weights")
        elif isinstance(o2, str): rep.bad("order-embedded", q, f"{name}: no declared order for the embedded weights ({o2})")
        else: rep.und("order-embedded", name, "declared embedded order unknown")
