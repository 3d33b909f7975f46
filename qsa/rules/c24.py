"""C24: closed terms of every Q-Delta approximation (all call forms of the catalogue) against the documented matrices, for concrete
sizes and generic nodes, bounds and Q matrices (random interpretation)."""
import numpy as np
from ..h import *
from .. import scen, teval
from ..covar import Values
from ..lagval import basis
from ..rows import Unk
from .c16 import pick

JOBS = 8


def ldu(A):
    n = len(A)
    L_, U = np.eye(n), np.array(A, dtype=float)
    for i in range(n):
        for j in range(i + 1, n):
            L_[j, i] = U[j, i] / U[i, i]
            U[j] = U[j] - L_[j, i] * U[i]
    d = np.diag(np.diag(U))
    return L_, d, np.linalg.solve(d, U)


def soe(e):
    x, M = np.concatenate([[e["tLeft"]], e["nodes"]]), e["M"]
    D = np.zeros((M + 1, M))            # row 0: the left bound
    for m in range(2, M + 1):
        am1, a0, ap1 = basis(x[m - 2:m + 1], x[m - 1:m], 1)[0]
        rhs = np.zeros(M)
        rhs[m - 2] = 1.0
        D[m] = (rhs - am1 * D[m - 2] - a0 * D[m - 1]) / ap1
    return D[1:]


def reference(cls, e, k):
    """(documented matrix for iteration k, documented delta-tau coefficients), None where nothing is documented in closed form"""
    M, x, Q = e["M"], e["nodes"], e["Q"]
    k = 1 if k is None else k
    d = np.diff(np.concatenate([[e["tLeft"]], x]))
    z, one = np.zeros(M), np.ones(M)
    low = np.tril(np.ones((M, M)))
    be, fe = low * d[None, :], np.tril(np.ones((M, M)), -1) * np.concatenate([d[1:], [0.0]])[None, :]
    if cls == "PIC": return np.zeros((M, M)), z
    if cls == "Exact": return Q, z
    if cls in ("LU", "LU2"):
        l, dd, u = ldu(Q.T)
        return (dd @ u).T * (2 if cls == "LU2" else 1), z
    if cls == "QPar": return np.diag(np.diag(Q)), z
    if cls == "GS": return np.tril(Q), z
    if cls == "LDU": return ldu(Q)[1], z
    if cls == "BE": return be, z
    if cls == "FE": return fe, one * d[0]
    if cls == "TRAP": return (be + fe) / 2, one * d[0] / 2
    if cls == "BEPAR": return np.diag(x - e["tLeft"]), z
    if cls == "TRAPAR": return np.diag(x - e["tLeft"]) / 2, (x - e["tLeft"]) / 2
    if cls == "SOE": return soe(e), one * d[0]
    if cls == "MIN_SR_NS": return np.diag(x) / M, z
    if cls == "Jumper": return np.diag(x) / (2 * k), z
    if cls == "FlexJumper": return np.diag(x) / (1 if k == 1 else 2 * (k - 1)), z
    if cls.startswith("DNODES"): return np.diag(x) / int(cls[6:] or 1), z
    if cls == "MIN_SR_FLEX": return (np.diag(e["unit"]) / k if k <= M else None), z
    if cls == "MIN": return None, z
    if cls == "MIN_SR_S": return None, z
    return None, None


def models(M, e0):
    r = np.random.RandomState(29)
    for i, (t0, ln) in enumerate([(0.0, 1.0), (-0.6, 2.0), (3.0, 0.5), (0.0, 1e-5), (0.0, 3e4), (-4.0, 1.0), (0.0, 1.0), (-1.0, 2.0)]):
        x = np.sort(r.uniform(0.05, 0.3, M).cumsum() / (0.3 * M)) if M <= 8 else (np.arange(M) + r.uniform(0.4, 0.6, M)) / M
        if i % 2: x[-1] = 1.0
        Q = (r.uniform(-0.2, 0.4, (M, M)) + 1.3 * np.eye(M)) * ln
        yield {"M": M, "tLeft": t0, "tRight": t0 + ln, "nodes": t0 + ln * x, "Q": Q, **e0}


def delta(q): return np.vstack([q[:1], np.diff(q, axis=0)])


def documented(case, cls, e):
    """{path: value} of a case of the catalogue"""
    k, k1, k2, nS = e["k"], e["k1"], e["k2"], e["nSweeps"]
    mats = lambda ks: None if any(reference(cls, e, j)[0] is None for j in ks) else np.array([reference(cls, e, j)[0] for j in ks])
    one = lambda j: reference(cls, e, j)[0]
    dt = reference(cls, e, k)[1]
    n2 = lambda a: None if a is None else delta(a) if a.ndim == 2 else np.array([delta(y) for y in a])
    return {"getQDelta()": lambda: {"": one(None)}, "dTau": lambda: {"": dt}, "getSDelta(k)": lambda: {"": n2(one(k))}, "genCoeffs(k)": lambda: {"": one(k)},
            "getQDelta(k)": lambda: {"": one(k)}, "genCoeffs(list)": lambda: {"": mats([k1, k2])}, "genCoeffs(list,N2N,dTau)": lambda: {"[0]": n2(mats([k1, k2])), "[1]": dt},
            "genCoeffs(N2N)": lambda: {"": n2(one(None))}, "genCoeffs(dTau)": lambda: {"[0]": one(None), "[1]": dt}, "genQDeltaCoeffs()": lambda: {"": one(None)},
            "genQDeltaCoeffs(nSweeps)": lambda: {"": mats(range(1, nS + 1))}, "genQDeltaCoeffs(nSweeps,N2N,dTau)": lambda: {"[0]": n2(mats(range(1, nS + 1))), "[1]": dt},
            "genQDeltaCoeffs([2])": lambda: {"": mats([1, 2])}, "genQDeltaCoeffs([2],nSweeps,dTau)": lambda: {"[0]": mats(range(1, nS + 1)), "[1]": dt},
            "genQDeltaCoeffs([BE,LU])": lambda: {"": np.array([reference("BE", e, 1)[0], reference("LU", e, 1)[0]])}}.get(case, dict)()


def check(w, rep, tier):
    h = H(w)
    sizes = ((1, 1), (2, 2), (3, 1), (3, 5), (4, 3), (5, 2), (12, 2)) if tier == "quick" else ((1, 1), (1, 3), (2, 1), (2, 2), (3, 1), (3, 5), (4, 3), (5, 2), (6, 1), (7, 4), (8, 2), (12, 2), (17, 3))
    every = []
    for M, k in sizes:
        nS = 2 if M % 2 else 3
        sz = {"M": M, "k": k, "k1": 2, "k2": k + 1, "nSweeps": nS}
        h.sizes = sz
        for s in scen.all_scen(h, "thorough", [scen.qdelta]):
            cls, case = s.info["cls"], s.info["case"]
            if cls in ("MIN3", "MIN_VDHS"): continue
            if cls == "MIN_SR_S" and case not in ("dTau",): continue
            if case == "genQDeltaCoeffs([2],nSweeps,dTau)" and nS != 2: continue
            if M == 1 and ("LOBATTO" in s.name or "RADAU-LEFT" in s.name): continue
            if M > 8 and (cls == "MIN_SR_FLEX" or case not in ("getQDelta(k)", "getSDelta(k)", "dTau")): continue
            if tier == "quick" and cls == "MIN_SR_FLEX" and (M > 3 or "RADAU-RIGHT" not in s.name and case != "getQDelta(k)"): continue
            every.append((dict(sz), s, cls, case))
    for sz, s, cls, case in w.share(every):
        h.sizes = sz
        one(w, h, rep, s, cls, case, sz)
    h.sizes = {}
    factors(w, h, rep)


def one(w, h, rep, s, cls, case, sz):
    M = sz["M"]
    lab = f"{s.name}, {M} node(s), k={sz['k']}"
    e0 = dict(sz)
    if cls == "MIN_SR_FLEX":
        qt = s.name.split("(")[1].split(")")[0]
        base = Values(w, lambda I: h.attr(h.coll(h.int("M", 1), "LEGENDRE", qt), "nodes"), 16, [""], pick)
        try: e0["unit"] = np.asarray(base({"M": M}, ""))
        except Unk as z: rep.und("documented", lab, str(z)); return
    envs = list(models(M, e0))
    want = [documented(case, cls, e) for e in envs]
    paths = [p for p, v in want[0].items() if v is not None]
    if not paths: return
    val = Values(w, s.run, 32, paths, pick)
    if not val.paths and not val.broken:
        rep.check("documented", lab, False, f"{lab}: no path returns a result", construct=s.site)
        return
    for path in paths:
        verdict, why = None, "no model"
        for e, ws in zip(envs, want):
            x = ws[path]
            try: rs = [np.asarray(r) for r in val.all(e, path)]
            except Unk as z: why = str(z); continue
            except (ValueError, IndexError, TypeError, np.linalg.LinAlgError) as z: why = f"{type(z).__name__} {z}"; continue
            sc = max([np.max(np.abs(x)), np.max(np.abs(delta_scale(e))) * 1e-6] + ([np.max(np.abs(y)) for y in documented("getQDelta(k)", cls, e).values() if y is not None] if M > 8 else []))
            good = [r.shape == x.shape and bool(np.all(np.isfinite(r)) and np.all(np.abs(r - x) <= 1e-8 * sc)) for r in rs]
            r = rs[0]
            if all(good): verdict = True
            elif any(good): verdict, why = None, "several paths"; break
            else:
                verdict = False
                why = (f"has shape {r.shape}" if r.shape != x.shape else f"it is {np.array2string(r.ravel()[:9], precision=5)}, documented is "
                       f"{np.array2string(x.ravel()[:9], precision=5)}") + f" with tLeft {e['tLeft']:g} and nodes {np.array2string(e['nodes'], precision=4)}"
                break
        rep.check("documented", lab + path, verdict, f"{lab}: {path or 'the result'} is not the documented one: {why}" if verdict is False else why, construct=s.site)


def delta_scale(e): return np.array([e["tRight"] - e["tLeft"]])


def factors(w, h, rep):
    """the LDU factors multiply back to the matrix"""
    if not w.first: return
    f = w.get("qmat.utils.num.lduFactorization") or w.get("qmat.mathutils.lduFactorization")
    if f is None: return
    for M in (1, 2, 3, 4, 5, 12):
        h.sizes = {"M": M}
        val = Values(w, lambda I: h.call(f, h.qmat(h.int("M", 1))), 16, ["[0]", "[1]", "[2]"], pick)
        lab = f"lduFactorization, {M} x {M}"
        for e in models(M, {}):
            ref = ldu(e["Q"])
            for i, nm in enumerate("LDU"):
                try: r = val(e, f"[{i}]")
                except Unk as z: rep.und("ldu", lab, str(z)); continue
                ok = r.shape == ref[i].shape and bool(np.allclose(r, ref[i], rtol=1e-8, atol=1e-9 * np.max(np.abs(ref[i]))))
                rep.check("ldu", f"{lab} {nm}", ok, f"{lab}: factor {nm} is not the one with L D U = A", construct=f.qual if hasattr(f, "qual") else "qmat.utils.num.lduFactorization")
    h.sizes = {}
