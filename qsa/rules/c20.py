"""C20: the closed terms of every collocation coefficient, interpreted for concrete sizes on generic intervals, are the exact
integrals (values) of the Lagrange polynomials on its nodes, and its quadrature reaches the declared order."""
import numpy as np
from ..h import *
from .. import teval
from ..lagval import basis, integral
from ..covar import Values
from ..rows import Unk
from .c16 import pick

JOBS = 8
INTERVALS = [(0.0, 1.0), (-1.0, 1.0), (-0.6, 1.4), (3.0, 3.5), (0.0, 1e-6), (0.0, 4e6), (-3.0, -2.0)]
ATTRS = ("nodes", "weights", "Q", "S", "hCoeffs", "order", "rightIsNode")


def moments(x, w, a, b, order):
    """largest defect of the rule x, w on [a, b] for the polynomials of degree < order"""
    y, r = (2 * x - a - b) / (b - a), w * 2 / (b - a)
    worst = 0.0
    for k in range(order):
        worst = max(worst, abs(r @ np.polynomial.legendre.legval(y, [0] * k + [1]) - (2.0 if k == 0 else 0.0)))
    return worst


def bad_nodes(x, a, b, nt, qt, M):
    if x.shape != (M,): return f"{x.shape} values"
    if not np.all(np.isfinite(x)): return "not finite"
    t = (b - a) * 1e-9
    if np.any(np.diff(x) <= t): return "nodes not strictly increasing"
    if x[0] < a - t or x[-1] > b + t: return "nodes outside the interval"
    left, right = qt in ("LOBATTO", "RADAU-LEFT"), qt in ("LOBATTO", "RADAU-RIGHT")
    if (abs(x[0] - a) <= t) != left: return "left end"
    if (abs(x[-1] - b) <= t) != right: return "right end"
    y = (2 * x - a - b) / (b - a)
    if nt == "EQUID":
        y0 = np.linspace(-1, 1, M + (not left) + (not right))
        if np.any(np.abs(y0[int(not left):][:M] - y) > 1e-9): return "nodes not equidistant"
        return None
    # nodal polynomial orthogonal, with the weight of the family, to the polynomials of degree < number of free nodes
    z, wt = WEIGHTED[nt]
    om = np.prod(z[:, None] - y[None, :], axis=1)
    for k in range(M - left - right):
        q = np.polynomial.legendre.legval(z, [0] * k + [1])
        if abs(wt @ (om * q)) > 1e-9 * (wt @ np.abs(om * q)): return f"nodes not those of the {nt} family with the fixed ends of {qt}"
    return None


def _weighted(n=40):
    i = np.arange(1, n + 1)
    c1, c2 = (2 * i - 1) * np.pi / (2 * n), i * np.pi / (n + 1)
    c3, c4 = (2 * i - 1) * np.pi / (2 * n + 1), 2 * i * np.pi / (2 * n + 1)
    return {"LEGENDRE": np.polynomial.legendre.leggauss(n), "CHEBY-1": (np.cos(c1), np.ones(n)), "CHEBY-2": (np.cos(c2), np.sin(c2) ** 2),
            "CHEBY-3": (np.cos(c3), 1 + np.cos(c3)), "CHEBY-4": (np.cos(c4), 1 - np.cos(c4))}


WEIGHTED = _weighted()


def want(what, x, a, b):
    M = len(x)
    left = np.concatenate([[a], x[:-1]])
    if what == "Q": return integral(x, [(a, t) for t in x])
    if what == "S": return integral(x, list(zip(left, x)))
    if what == "weights": return integral(x, [(a, b)])[0]
    if what == "hCoeffs": return basis(x, np.array([b]))[0]


def valid(nt, qt, M): return M > 1 or qt in ("GAUSS", "RADAU-RIGHT")


def subjects(h):
    cls, gq = h.w.get("qmat.qcoeff.collocation.Collocation"), h.w.get(QPKG + ".genQCoeffs")
    for nt in NODE_TYPES:
        for qt in QUAD_TYPES:
            def mk_(I, nt=nt, qt=qt, **kw): return h.coll(h.int("M", 1), nt, qt, h.time("tLeft"), h.time("tRight"))
            for a in ATTRS:
                yield f"Collocation({nt},{qt}).{a}", h.site_of(cls, a), nt, qt, lambda I, f=mk_, a=a: h.attr(f(I), a), {"": a}
            for form in ("Z2N", "N2N"):
                q = "Q" if form == "Z2N" else "S"
                ex = {"[0]": "nodes", "[1]": "weights", "[2]": q, "[3]": "hCoeffs"}
                yield (f"Collocation({nt},{qt}).genCoeffs({form})", h.site_of(cls, "genCoeffs"), nt, qt,
                       lambda I, f=mk_, form=form: h.meth(f(I), "genCoeffs", form=Const(form), hCoeffs=Num(c=True)), ex)
                yield (f"genQCoeffs(Collocation,{nt},{qt},{form})", QPKG + ".genQCoeffs", nt, qt,
                       lambda I, nt=nt, qt=qt, form=form: h.call(gq, Const("Collocation"), form=Const(form), hCoeffs=Num(c=True), nNodes=h.int("M", 1), nodeType=Const(nt),
                                                                 quadType=Const(qt), tLeft=h.time("tLeft"), tRight=h.time("tRight")), ex)


# intervals whose bounds are not reproduced by scaling and shifting in floating-point numbers
AWKWARD = [tuple(np.sort(x)) for x in np.random.RandomState(8).uniform(-3, 9, (24, 2))]


def check(w, rep, tier):
    h = H(w)
    sizes = (1, 2, 3, 4, 5, 6) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 8, 10, 13)
    items = [(M, s) for M in sizes for s in subjects(h)]
    if tier == "quick": items += [(9 + i % 5, s) for i, s in enumerate(subjects(h)) if "genCoeffs" not in s[0] and i % 3 == 0]
    for M, (name, site, nt, qt, run, parts) in w.share(items):
        if not valid(nt, qt, M): continue
        if tier == "quick" and M > 4 and "genCoeffs" in name: continue
        h.sizes = {"M": M}
        lab = f"{name}, {M} node(s)"
        cls = w.get("qmat.qcoeff.collocation.Collocation")
        base = Values(w, lambda I: h.attr(h.coll(h.int("M", 1), nt, qt, h.time("tLeft"), h.time("tRight")), "nodes"), 16, [""], pick)
        if "" in parts and parts[""] in ("weights", "order"):
            other = Values(w, lambda I: h.attr(h.coll(h.int("M", 1), nt, qt, h.time("tLeft"), h.time("tRight")), "order"), 16, [""], pick)
        val = Values(w, run, 16, list(parts), pick)
        for path, what in parts.items():
            verdict, why = None, "no model"
            for a, b in INTERVALS + (AWKWARD if what == "rightIsNode" else []):
                e = {"M": M, "tLeft": a, "tRight": b}
                try: x, r = base(e, ""), val(e, path)
                except Unk as z: why = str(z); continue
                except (ValueError, IndexError, TypeError, np.linalg.LinAlgError) as z: why = f"{type(z).__name__} {z}"; continue
                x, r = np.asarray(x, dtype=float), np.asarray(r)
                bad = None
                if what == "nodes": bad = bad_nodes(r, a, b, nt, qt, M)
                elif what == "rightIsNode": bad = None if bool(r) == (abs(x[-1] - b) <= 1e-9 * (b - a)) else f"it is {r}"
                elif what in ("weights", "order"):
                    try: order, ws = (int(r), None) if what == "order" else (int(other(e, "")), r) if path == "" else (None, r)
                    except Unk as z: order, ws = None, r
                    if what == "order": ws = integral(x, [(a, b)])[0]
                    if what == "weights": bad = differs(r, want(what, x, a, b))
                    if bad is None and order is not None:
                        if moments(x, ws, a, b, order) > 1e-8: bad = f"the quadrature does not integrate all polynomials of degree < {order} (the declared order)"
                        elif what == "order" and moments(x, ws, a, b, order + 1) < 1e-10: bad = f"the declared order is {order}, the quadrature has a higher one"
                else: bad = differs(r, want(what, x, a, b))
                verdict = bad is None
                if bad: why = f"on [{a:g}, {b:g}]: {bad}"; break
            rep.check("exact-" + what, lab + path, verdict, f"{lab}: {what} {why}" if verdict is False else why, construct=site)
    h.sizes = {}


def differs(r, ref):
    if r.shape != ref.shape: return f"shape {r.shape}"
    s = max(np.max(np.abs(ref)), 1e-300)
    if np.all(np.isfinite(r)) and np.all(np.abs(r - ref) <= 1e-8 * s): return None
    return f"it is {np.array2string(r.ravel()[:6], precision=6)}, the exact integral (value) is {np.array2string(ref.ravel()[:6], precision=6)}"
