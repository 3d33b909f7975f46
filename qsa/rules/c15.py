"""C15: number of points of the quadrature rule behind integration matrices, as a linear form in the number of interpolation points
(both parities, symbolic) and for every small size, against the degree of the interpolant."""
from ..h import *
import numpy as np
from .. import scen, spec
from ..covar import Values
from ..rows import Unk
from .c16 import pick

RULES = ["FEJER", "LEGENDRE_NUMPY", "LEGENDRE_SCIPY"]

JOBS = 8


def parity(lin):
    if any(k.denominator != 1 or k.numerator % 2 for _, k in lin.t) or lin.c.denominator != 1: return None
    return int(lin.c) % 2


def exact_degree(rule, lin):
    """highest degree integrated exactly by a rule with `lin` points"""
    if rule in ("gauss", "chebgauss"): return lin.scale(2) - 1
    p = parity(lin)
    if p is None: return None
    return lin if p == 1 else lin - 1      # interpolatory symmetric rule: one more degree for an odd number of points


def watch(w, log):
    """record the size asked from the package's own Fejer rule"""
    f = w.get("qmat.lagrange.computeFejerRule")
    if not isinstance(f, Func): return None

    def hook(I, fn, args, kwargs):
        loc = I.bind_args(fn, args, kwargs)
        a = next(iter(loc.values()))
        I.event("quad", rule="fejer", n=a.lin if isinstance(a, Num) and a.lin is not None else None, arg=a)
        return None
    w.I.hooks[f.qual] = hook
    return f.qual


def check(w, rep, tier):
    h, I = H(w), w.I
    q = watch(w, [])
    cls = w.get("qmat.lagrange.LagrangeApproximation")
    site = cls.qual + ".getIntegrationMatrix"
    sizes = [("n=2j", lambda: Sym("j").scale(2), 1), ("n=2j+1", lambda: Sym("j").scale(2) + 1, 1)]
    sizes += [(f"n={k}", lambda k=k: L(k), None) for k in range(1, 17 if tier == "quick" else 65)]
    for rule, (nm, mk_, lo) in w.share([(r, s) for r in RULES for s in sizes]):
        for _ in (1,):
            for wc in ("AUTO",) if tier == "quick" else ("AUTO", "FAST", "STABLE", "CHEBFUN"):
                def run(I):
                    if lo is not None: I.bounds.declare("j", lo, None)
                    n = mk_()
                    o = I.call(cls, [h.arr("points", (n,), T1, V1)], {"weightComputation": Const(wc)})
                    return h.meth(o, "getIntegrationMatrix", h.arr("intervals", (h.int("m", 1), 2), T1, V1), numQuad=Const(rule))
                for p in w.explore(run, max_paths=12):
                    qs = [e for e in p.events if e["kind"] == "quad"]
                    if p.kind == "abort": rep.und("quad-points", site, p.why); continue
                    if p.kind == "raise" and not qs: continue
                    if not qs: rep.und("quad-points", f"{rule} {nm}", f"no known quadrature rule {rule} {nm} {p.kind}"); continue
                    for e in qs:
                        n = e["n"]
                        n = n.lin if isinstance(n, Num) else n
                        d = exact_degree(e["rule"], L(n)) if n is not None else None
                        if d is None: rep.und("quad-points", f"{rule} {nm}", "number of points unknown"); continue
                        short = d - (mk_() - 1)            # must be >= 0
                        if not set(short.syms()) <= {"j"}: rep.und("quad-points", f"{rule} {nm}", f"number of points {n}"); continue
                        g = I.bounds.ge0(short)
                        m = None if g is True else (short.c if short.is_const else None)
                        ok = True if g is True else False
                        rep.check("quad-points", f"{rule} {nm}", ok, f"numQuad={rule}, {nm}: {n} points integrate exactly up to degree {d} only, the interpolant has degree {mk_() - 1}",
                                  construct=site, path=p.desc())
                        if g is not True: break
            if rule != "FEJER": continue
    if q:
        I.hooks.pop(q, None)
        f = w.get("qmat.lagrange.computeFejerRule")
        for nm, mk_, lo in sizes:
            def run(I):
                if lo is not None: I.bounds.declare("j", lo, None)
                return h.call(f, Num(lin=mk_()))
            for p in w.explore(run, max_paths=12):
                if p.kind != "ok": continue
                for path, v in leaves(p.value):
                    if isinstance(v, Arr):
                        I.refresh(v)
                        e = None if v.shape is None or len(v.shape) != 1 else lin_eq(I, v.shape[0], mk_())
                        rep.check("fejer-size", f"computeFejerRule {nm}", e, f"{nm}: the rule has {v.shape} points or weights", construct="qmat.lagrange.computeFejerRule", path=p.desc())
        sizes = range(1, 31 if tier == "quick" else 101)
        values = Values(w, lambda I: h.call(f, h.int("n", 1)), 12, ["[0]", "[1]"], pick)
        for n in w.share(sizes):
            judge(rep, f, n, values, f"computeFejerRule({n})")
            for p in w.explore(lambda I: h.call(f, Num(c=n)), max_paths=4):
                if p.kind == "raise": rep.bad("fejer-exact", f.qual, f"computeFejerRule({n}) raises {p.excname()} at {p.exc.site}", path=p.desc())
            judge(rep, f, n, Values(w, lambda I: h.call(f, Num(c=n)), 4, ["[0]", "[1]"], pick), f"computeFejerRule({n}), literal size")


def judge(rep, f, n, values, lab):
    try: xs, ws = values.all({"n": n}, "[0]"), values.all({"n": n}, "[1]")
    except Unk as z: rep.und("fejer-exact", lab, str(z)); return
    except (ValueError, IndexError, TypeError) as z: rep.und("fejer-exact", lab, f"{type(z).__name__}: {z}"); return
    if len(xs) > 1 or len(ws) > 1: rep.und("fejer-exact", lab, "several paths"); return
    x, q = np.asarray(xs[0]), np.asarray(ws[0])
    if x.shape != (n,) or q.shape != (n,): rep.bad("fejer-exact", f.qual, f"{lab}: {x.shape} points, {q.shape} weights"); return
    err = [abs(np.sum(q * np.cos(d * np.arccos(np.clip(x, -1, 1)))) - (0 if d % 2 else 2 / (1 - d * d))) for d in range(n)]     # Chebyshev polynomials
    d = int(np.argmax(err))
    ok = err[d] < 1e-12 * (n + 1) and np.all(np.abs(x) < 1)
    rep.check("fejer-exact", lab, bool(ok), f"{lab}: the rule integrates the Chebyshev polynomial of degree {d} with an error {err[d]:.2g}", construct=f.qual)
