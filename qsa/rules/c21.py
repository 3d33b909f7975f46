"""C21: MIN-SR coefficients.  The closed terms of Q and Q-Delta are interpreted for concrete sizes: the non-stiff limit matrix of
MIN-SR-NS, and the product of the stiff limit matrices of the first MIN-SR-FLEX sweeps, are tested for nilpotency; the equations
MIN-SR-S hands to the root finder must vanish at every diagonal with a nilpotent stiff limit, and pin the coefficients down."""
import itertools
import numpy as np
from ..h import *
from .. import teval
from ..covar import Values
from ..rows import Unk
from .c16 import pick

JOBS = 8
INTERVALS = [(0.0, 1.0), (-0.6, 1.4), (3.0, 3.5), (0.0, 1e-6), (0.0, 4e6)]


def nilpotent(A):
    n, s = len(A), max(np.linalg.norm(A, 2), 1e-300)
    c = np.poly(A / s)
    return bool(np.all(np.abs(c[1:]) < 1e-9))


def inner(qt, x):
    """positions of the nodes that carry unknown coefficients"""
    return slice(1, None) if qt in ("LOBATTO", "RADAU-LEFT") else slice(None)


def invariants(d, Q): return np.poly(np.eye(len(d)) - Q / d[:, None])[1:]


def solution(Q, x):
    """diagonals with nilpotent I - D^-1 Q (Newton from several starts)"""
    n, out = len(x), []
    r = np.random.RandomState(5)
    starts = [x / n, x / 2, x] + [x * r.uniform(0.1, 1.2, n) for _ in range(20)]
    for d in starts:
        d = d.copy()
        for _ in range(80):
            f = invariants(d, Q)
            if not np.all(np.isfinite(f)): break
            J = np.zeros((n, n))
            for j in range(n):
                e = np.zeros(n); e[j] = 1e-7 * d[j]
                J[:, j] = (invariants(d + e, Q) - invariants(d - e, Q)) / (2 * e[j])
            try: s = np.linalg.solve(J, f)
            except np.linalg.LinAlgError: break
            t = 1.0
            while t > 1e-4 and np.any(d - t * s <= 0): t /= 2
            d = d - t * s
            if np.max(np.abs(s)) < 1e-14: break
        f = invariants(d, Q)
        if np.all(np.isfinite(f)) and np.max(np.abs(f)) < 1e-10 and np.all(d > 0) and not any(np.allclose(d, o) for o in out): out.append(d)
        if len(out) == 2: break
    return out


class Solved(teval.TE):
    """interpretation in which the root finder returns a chosen vector"""
    def __init__(self, env, root): teval.TE.__init__(self, env); self.root, self.calls = root, []

    def op_fsolve(self, r, x0):
        self.calls.append((r, x0))
        return self.root


class Residual(teval.TE):
    """residual of the equations at a vector"""
    def __init__(self, env, x0, at): teval.TE.__init__(self, env); self.x0, self.at = x0, at
    def op_iterate(self, x0):
        if x0 != self.x0: raise Unk("iterate")
        return self.at


LARGER = [("LEGENDRE", "RADAU-RIGHT", 6), ("LEGENDRE", "LOBATTO", 7), ("CHEBY-1", "GAUSS", 6)]


def check(w, rep, tier):
    h = H(w)
    sizes = (1, 2, 3, 4, 5) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 8)
    items = [(nt, qt, M) for M in sizes for nt in NODE_TYPES for qt in QUAD_TYPES if M > 1 or qt in ("GAUSS", "RADAU-RIGHT")]
    if tier == "quick":
        items += [(nt, qt, M) for M in (6, 7, 8) for nt in NODE_TYPES for qt in QUAD_TYPES if (NODE_TYPES.index(nt) + QUAD_TYPES.index(qt) + M) % 4 == 0]
    classes = h.names(DPKG + ".QDELTA_GENERATORS")
    gen = w.get(DPKG + ".genQDeltaCoeffs")
    items += [x for x in LARGER if x not in items]
    for nt, qt, M in w.share(items):
        h.sizes = {"M": M}
        nonstiff(w, h, rep, classes, gen, nt, qt, M)
        flex(w, h, rep, classes, gen, nt, qt, M)
        if M <= 4 or tier != "quick" and M <= 5 or (nt, M) == ("LEGENDRE", 5) or (nt, qt, M) in LARGER: stiff(w, h, rep, classes, nt, qt, M)
    h.sizes = {}


def coll(h, nt, qt): return h.coll(h.int("M", 1), nt, qt, h.time("tLeft"), h.time("tRight"))


def verdict(val, base, paths, envs, test):
    """test(env, matrices...) over the models"""
    v, why = None, "no model"
    for e in envs:
        try: a = base(e, ""); many = [val.all(e, p) for p in paths]
        except Unk as z: why = str(z); continue
        except (ValueError, IndexError, TypeError, np.linalg.LinAlgError) as z: why = f"{type(z).__name__} {z}"; continue
        oks = []
        for ms in itertools.product(*many) if np.prod([len(m) for m in many]) <= 64 else [[m[0] for m in many], [m[-1] for m in many]]:
            try: oks.append(test(e, np.asarray(a, float), *[np.asarray(m) for m in ms]))
            except (ValueError, IndexError, np.linalg.LinAlgError) as z: oks.append(f"{type(z).__name__}: {z}")
        if all(o is True for o in oks): v = True
        elif any(o is True for o in oks): return None, "several paths"
        else: return False, oks[0]
    return v, why


def nonstiff(w, h, rep, classes, gen, nt, qt, M):
    cls = classes.get("MIN_SR_NS")
    if cls is None: rep.und("nonstiff", "MIN_SR_NS", "not registered"); return
    base = Values(w, lambda I: h.attr(coll(h, nt, qt), "Q"), 16, [""], pick)
    cases = [("MIN_SR_NS(qGen).getQDelta", lambda I: h.meth(I.call(cls, [], {"qGen": coll(h, nt, qt)}), "getQDelta"), h.site_of(cls, "computeQDelta")),
             ("genQDeltaCoeffs(MIN-SR-NS, qGen)", lambda I: h.call(gen, Const("MIN-SR-NS"), qGen=coll(h, nt, qt)), DPKG + ".genQDeltaCoeffs")]
    for name, run, site in cases:
        lab = f"{name}, {nt} {qt}, {M} node(s)"
        val = Values(w, run, 16, [""], pick)

        def test(e, Q, D):
            if D.shape != Q.shape: return f"shape {D.shape}"
            return True if nilpotent(Q - D) else f"Q - Q-Delta is not nilpotent on [{e['tLeft']:g}, {e['tRight']:g}] (diagonal {np.array2string(np.diag(D), precision=5)})"
        v, why = verdict(val, base, [""], [{"M": M, "tLeft": a, "tRight": b} for a, b in INTERVALS], test)
        rep.check("nonstiff-nilpotent", lab, v, f"{lab}: {why}" if v is False else why, construct=site)


def flex(w, h, rep, classes, gen, nt, qt, M):
    cls = classes.get("MIN_SR_FLEX")
    if cls is None: rep.und("flex", "MIN_SR_FLEX", "not registered"); return
    base = Values(w, lambda I: h.attr(h.coll(h.int("M", 1), nt, qt), "Q"), 16, [""], pick)
    for name, make in (("MIN_SR_FLEX(nNodes,...)", lambda I: h.make(cls, h.int("M", 1), nodeType=nt, quadType=qt)),
                       ("MIN_SR_FLEX(qGen)", lambda I: I.call(cls, [], {"qGen": h.coll(h.int("M", 1), nt, qt)}))):
        lab = f"{name}, {nt} {qt}, {M} node(s)"

        def run(I): return Tup([h.meth(o, "getQDelta", Num(c=k)) for o in [make(I)] for k in range(1, M + 1)])
        val = Values(w, run, 16, [f"[{k}]" for k in range(M)], pick)

        def test(e, Q, *Ds):
            s = inner(qt, Q)
            n = len(Q[s])
            P = np.eye(n)
            for D in Ds:
                if D.shape != Q.shape or np.any(D[np.eye(M) == 0]): return f"not diagonal ({D.shape})"
                d = np.diag(D)[s]
                if s.start and D[0, 0]: return "the coefficient of the left bound is not zero"
                if np.any(d == 0): return "zero coefficient"
                P = (np.eye(n) - Q[s, s] / d[:, None]) @ P
            return True if np.max(np.abs(P)) < 1e-8 * 4 ** M else f"the stiff limits of the first {M} sweeps do not annihilate the error ({np.max(np.abs(P)):.2g})"
        v, why = verdict(val, base, [f"[{k}]" for k in range(M)], [{"M": M, "tLeft": 0.0, "tRight": 1.0}], test)
        rep.check("flex-annihilates", lab, v, f"{lab}: {why}" if v is False else why, construct=h.site_of(cls, "computeQDelta"))


def stiff(w, h, rep, classes, nt, qt, M):
    base = Values(w, lambda I: Tup([h.attr(h.coll(h.int("M", 1), nt, qt), a) for a in ("Q", "nodes")]), 16, ["[0]", "[1]"], pick)
    e = {"M": M, "tLeft": 0.0, "tRight": 1.0}
    try: Q, x = base(e, "[0]"), base(e, "[1]")
    except (Unk, ValueError, IndexError, TypeError, np.linalg.LinAlgError) as z: rep.und("stiff", f"{nt} {qt} {M}", str(z)); return
    s = inner(qt, x)
    Qs, xs = Q[s, s], x[s]
    sols = solution(Qs, xs)
    subj = []
    for name, args in (("MIN_SR_S", []), ("MIN_SR_FLEX", [M + 1])):
        cls = classes.get(name)
        if cls is None: rep.und("stiff", name, "not registered"); continue
        if name == "MIN_SR_FLEX" and M > 3: continue
        lab = f"{name}({nt}, {qt}), {M} node(s)"
        site = h.site_of(cls, "computeCoeffs")
        if not sols: rep.und("stiff-equations", lab, "no reference solution"); continue
        for p in w.explore(lambda I: h.meth(h.make(cls, h.int("M", 1), nodeType=nt, quadType=qt), "getQDelta", *[Num(c=a) for a in args]), max_paths=16):
            if p.kind == "abort": rep.und("stiff-equations", lab, p.why); continue
            if p.kind != "ok": continue
            adm = teval.admits(p.events, e)
            if adm is False: continue
            if adm is None: rep.und("stiff-equations", lab, "path condition"); continue
            v = p.value
            if isinstance(v, Arr): w.I.refresh(v)
            vid = getattr(v, "vid", None)
            if vid is None: rep.und("stiff-equations", lab, "no term"); continue
            for d in sols:
                ok, why = judge(e, vid, d, Qs, xs, M, s)
                rep.check("stiff-equations", lab, ok, f"{lab}: {why}" if ok is False else why, construct=site, path=p.desc())
                if ok is False: break


def judge(e, vid, d, Qs, xs, M, s):
    te = Solved(e, d)
    n = len(d)
    try: D = np.asarray(te(vid))
    except Unk as z: return None, str(z)
    except (ValueError, IndexError, TypeError) as z: return None, f"{type(z).__name__}: {z}"
    if D.shape != (M, M): return False, f"shape {D.shape}"
    if np.any(D[np.eye(M) == 0]) or s.start and D[0, 0]: return False, "not diagonal with a zero for the left bound"
    got = np.diag(D)[s]
    if np.any(got == 0) or not np.max(np.abs(invariants(got, Qs))) < 1e-7:
        return False, f"even when the root finder returns exact solutions the coefficients {np.array2string(got, precision=5)} do not make the stiff limit nilpotent"
    if not te.calls: return True, ""                # coefficients in closed form
    r, x0 = te.calls[0] if len(te.calls) == 1 else max(te.calls, key=lambda c: c[0])

    def res(at): return np.atleast_1d(Residual(e, x0, at)(r))
    try: f = res(d)
    except Unk as z: return None, str(z)
    except (ValueError, IndexError, TypeError, np.linalg.LinAlgError) as z: return False, f"the equations cannot be evaluated at the solution: {z}"
    if f.shape != (n,): return False, f"{f.shape} equations for {n} coefficients"
    J, ref = np.zeros((n, n)), np.zeros((n, n))
    for j in range(n):
        h_ = np.zeros(n); h_[j] = 1e-6 * d[j]
        J[:, j] = (res(d + h_) - res(d - h_)) / 2e-6
        ref[:, j] = (invariants(d + h_, Qs) - invariants(d - h_, Qs)) / 2e-6
    if np.max(np.abs(f)) > 1e-8 * max(1.0, np.max(np.abs(J))): return False, f"the equations given to the root finder do not hold at a nilpotent diagonal {np.array2string(d, precision=5)} (residual {np.max(np.abs(f)):.2g})"
    sv, sr = np.linalg.svd(J, compute_uv=False), np.linalg.svd(ref, compute_uv=False)
    if sr[-1] > 1e-6 * sr[0] and sv[-1] < 1e-10 * sv[0]: return False, "the equations given to the root finder do not determine the coefficients"
    return True, ""
