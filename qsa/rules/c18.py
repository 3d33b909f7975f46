"""C18: stored diagonal coefficients, read by constant propagation through the look-up code, for every distribution and size."""
from ..h import *
from .. import tables
import numpy as np

# documented content and spectral radius of I - D^-1 Q reached by the published coefficients (upper bounds, rounded up)
DOC = {
    "MIN3": {("LEGENDRE", "LOBATTO"): {2: 1e-6, 3: 5e-4, 4: 2e-3, 5: 1e-2, 7: .07, 9: .2},
             ("LEGENDRE", "RADAU-RIGHT"): {2: 5e-4, 3: 2e-3, 4: 2e-2, 5: 2e-2, 7: .08, 9: .14},
             ("EQUID", "RADAU-RIGHT"): {2: 5e-4, 3: 2e-3, 4: 2e-2, 5: .04, 7: .15, 9: .3}},
    "MIN_VDHS": {("LEGENDRE", "RADAU-RIGHT"): {3: 1e-2, 4: .04}},
}
SIZES = range(1, 13)

JOBS = 8


def legendre_nodes(M, qt):
    """nodes on [0,1] from an independent construction (roots of orthogonal polynomials)"""
    P = np.polynomial.legendre.Legendre.basis
    if qt == "LOBATTO": x = np.concatenate([[-1.0], np.sort(P(M - 1).deriv().roots().real) if M > 2 else [], [1.0]])
    elif qt == "RADAU-RIGHT":
        x = np.sort((P(M) - P(M - 1)).roots().real); x[-1] = 1.0
    return (1 + np.array(x, dtype=float)) / 2


def qmatrix(x):
    M = len(x)
    V = np.vander(x, M, increasing=True)
    W = x[:, None] ** (1 + np.arange(M)) / (1 + np.arange(M))
    return W @ np.linalg.inv(V)


def rho(d, nt, qt):
    M = len(d)
    if nt == "LEGENDRE": x = legendre_nodes(M, qt)
    else: x = np.arange(1, M + 1) / M            # EQUID RADAU-RIGHT
    Q = qmatrix(x)
    s = 1 if x[0] == 0 else 0
    return max(abs(np.linalg.eigvals(np.eye(M - s) - np.linalg.solve(np.diag(d[s:]), Q[s:, s:]))))


def look(w, h, cls, M, nt, qt, form):
    def run(I):
        o = I.call(cls, [], dict(nNodes=Num(c=M), nodeType=Const(nt), quadType=Const(qt)))
        return h.meth(o, form)
    return [(p.kind, p.value if p.kind == "ok" else p.excname() if p.kind == "raise" else p.why, p.desc()) for p in w.explore(run, max_paths=8)]


def check(w, rep, tier):
    h = H(w)
    classes = h.names(DPKG + ".QDELTA_GENERATORS")
    nts = NODE_TYPES + ["legendre", "CHEBY"]
    qts = QUAD_TYPES + ["RADAU"]
    for name, doc in DOC.items():
        cls = classes.get(name)
        if cls is None: rep.bad("registered", DPKG + ".diag", f"{name} is not registered"); continue
        site = f"{cls.qual}"
        for nt in nts:
            for qt in w.share(qts):
                sizes = doc.get((nt, qt), {})
                for M in SIZES:
                    lbl = f"{name}({nt},{qt},{M})"
                    for k, v, d in look(w, h, cls, M, nt, qt, "getQDelta"):
                        if k == "abort": rep.und("lookup", lbl, v); continue
                        if M not in sizes:
                            rep.check("not-stored", lbl, k == "raise" and v == "NotImplementedError", f"{lbl} is not a stored combination and gives {v if k == 'raise' else 'a matrix'} instead of NotImplementedError", construct=h.site_of(cls, "computeQDelta"))
                            continue
                        if k == "raise": rep.bad("stored", site, f"{lbl} raises {v}, the coefficients are documented"); continue
                        c = tables.const(v)
                        if c is None: rep.und("stored", lbl, "not constant"); continue
                        if c.shape != (M, M): rep.bad("stored", site, f"{lbl}: matrix of shape {c.shape}"); continue
                        rep.check("diagonal", lbl, not np.any(c - np.diag(np.diag(c))), f"{lbl}: not diagonal", construct=site)
                        dg = np.diag(c)
                        z = qt in ("LOBATTO", "RADAU-LEFT")
                        rep.check("left-bound", lbl, bool(dg[0] == 0) if z else bool(dg[0] > 0), f"{lbl}: first coefficient is {dg[0]:.6g}", construct=site)
                        rep.check("positive", lbl, bool((dg[1:] > 0).all()), f"{lbl}: coefficient {int(np.argmin(dg[1:])) + 1} is {dg[1:].min():.6g}", construct=site)
                        if (dg[1 if z else 0:] > 0).all():
                            r = rho(dg, nt, qt)
                            rep.check("contraction", lbl, bool(r <= sizes[M]), f"{lbl}: spectral radius of the stiff-limit iteration matrix is {r:.4g} (published coefficients: below {sizes[M]:.4g})", construct=site)
        # the same through the other entry points
        for (nt, qt), sizes in doc.items():
            for M in sizes:
                for k, v, d in look(w, h, cls, M, nt, qt, "genCoeffs"):
                    if k == "abort": rep.und("lookup", f"{name} genCoeffs", v)
                    else: rep.check("genCoeffs", f"{name}({nt},{qt},{M})", k == "ok", f"{name}({nt},{qt},{M}).genCoeffs() raises {v}", construct=site)
