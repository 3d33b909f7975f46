"""C04: band (triangular structure) analysis of every Q-Delta approximation, every branch, symbolic number of nodes."""
import numpy as np
from ..h import *
from ..npm import const_band
from .. import scen, spec
from ..covar import Values
from ..rows import Unk
from .c16 import pick

NEED = {"lower": (0, None), "strict": (1, None), "diag": (0, 0)}

JOBS = 8


def band_verdict(I, a, need):
    """True: proved, False: an entry outside the promised structure definitely exists, None: unknown"""
    if not isinstance(a, Arr): return None
    I.refresh(a)
    b = const_band(a.const) if a.const is not None else a.band
    if b is None: return None
    if band_empty(b): return True
    lo, hi = NEED[need]
    ok = True
    for bound, lim, sgn in ((b.lo, lo, 1), (b.hi, hi, -1)):
        if lim is None: continue
        if bound is None: return False if b.tight else None
        g = I.bounds.ge0((L(bound) - lim).scale(sgn))
        if g is True: continue
        if b.tight: return False
        ok = None
    return ok


def judge(rep, I, rule, construct, need, v, p):
    r = band_verdict(I, v, need)
    rep.check(rule, construct, r, f"the result is not {need} ({'band ' + repr(v.band) if isinstance(v, Arr) else v!r})"
              if r is False else f"{construct}: band unknown", construct=construct, path=p.desc())


def values(w, h, rep, tier):
    """the closed terms at concrete sizes: no entry outside the promised structure in any model"""
    every = []
    for M, k in ((1, 1), (2, 1), (3, 2), (4, 5), (5, 3)) if tier == "quick" else ((1, 1), (1, 3), (2, 1), (3, 2), (3, 4), (4, 1), (4, 5), (5, 3), (6, 2), (7, 1), (8, 3)):
        sz = {"M": M, "k": k, "k1": 2, "k2": k + 1, "nSweeps": 2}
        h.sizes = sz
        for s in scen.all_scen(h, "thorough", [scen.qdelta]):
            cls, case = s.info["cls"], s.info["case"]
            if spec.QDELTA[cls][0] == "exact" or cls in spec.TABLES or case in ("dTau", "genQDeltaCoeffs([BE,LU])"): continue
            if spec.QDELTA[cls][1] == "dist" and (tier == "quick" and (case not in ("getQDelta()", "getQDelta(k)") or M > 3) or M > 5): continue
            if M == 1 and ("LOBATTO" in s.name or "RADAU-LEFT" in s.name): continue
            every.append((sz, s, cls, case))
    for sz, s, cls, case in w.share(every):
        h.sizes = sz
        need = spec.QDELTA[cls][0]
        if need == "diag" and ("N2N" in case or "SDelta" in case): need = "lower"
        path = "[0]" if "dTau" in case else ""
        lab = f"{s.name}, {sz['M']} node(s), k={sz['k']}"
        val, verdict, why = Values(w, s.run, 32, [path], pick), None, "no model"
        for e in models(sz):
            try: rs = [np.asarray(r) for r in val.all(e, path)]
            except Unk as z: why = str(z); continue
            except (ValueError, IndexError, TypeError, np.linalg.LinAlgError) as z: why = f"{type(z).__name__} {z}"; continue
            bad = [r for r in rs if r.ndim < 2 or not np.all(np.isfinite(r)) or outside(r, need)]
            bad = [r for r in bad if r.ndim >= 2 and outside(r, need)]
            if bad and len(bad) == len(rs): verdict, why = False, f"not {need}: {np.array2string(bad[0].reshape(-1, sz['M'], sz['M'])[0], precision=3)}"; break
            if bad: verdict, why = None, "several paths"; break
            verdict = True
        rep.check("structure-value", lab, verdict, f"{lab}: the result is {why}" if verdict is False else why, construct=s.site)
    h.sizes = {}


def outside(r, need):
    M = r.shape[-1]
    keep = {"lower": np.tril(np.ones((M, M))), "strict": np.tril(np.ones((M, M)), -1), "diag": np.eye(M)}[need]
    r = np.where(np.isfinite(r), r, 0.0)
    return bool(np.any(r * (1 - keep)))


def models(sz):
    M, r = sz["M"], np.random.RandomState(31)
    for i, (t0, ln) in enumerate([(0.0, 1.0), (-0.6, 2.0), (0.0, 1e-5), (3.0, 3e4), (0.0, 1.0), (1.0, 2.0)]):
        x = (np.arange(M) + r.uniform(0.2, 0.9, M)) / M
        if i % 2: x[-1] = 1.0
        if i == 4 and M > 1: x[0] = 0.0
        Q = r.uniform(-1, 1, (M, M)) * ln
        yield {**sz, "tLeft": t0, "tRight": t0 + ln, "nodes": t0 + ln * x, "Q": Q}


def check(w, rep, tier):
    values(w, H(w), rep, tier)
    h, I = H(w), w.I
    classes = h.names(DPKG + ".QDELTA_GENERATORS")
    gen = w.get(DPKG + ".genQDeltaCoeffs")
    mp = 24 if tier == "quick" else 96
    for name, (need, inp, aliases, kdep) in w.share(spec.QDELTA.items()):
        cls = classes.get(name)
        if cls is None: rep.und("registered", name, "not registered"); continue
        if need == "exact": continue
        site = h.site_of(cls, "computeQDelta")
        if name in spec.TABLES:
            for nt in NODE_TYPES:
                for qt in QUAD_TYPES:
                    for m in range(1, 13):
                        for p in w.explore(lambda I: h.meth(h.make(cls, Num(c=m), nodeType=nt, quadType=qt), "getQDelta")):
                            if p.kind == "ok": judge(rep, I, "table-band", site, need, p.value, p)
            continue
        combos = [("LEGENDRE", "RADAU-RIGHT")]
        if inp == "dist": combos = [(nt, qt) for nt in (NODE_TYPES if tier != "quick" else ["LEGENDRE"]) for qt in QUAD_TYPES]
        for nt, qt in combos:
            def fresh(I):
                M = h.int("M", 2)
                return h.make(cls, M, h.time("tLeft"), nodeType=nt, quadType=qt)
            kw = lambda: {"k": h.int("k", 1)} if kdep else {}
            def entries():
                yield "getQDelta", lambda I: h.meth(fresh(I), "getQDelta", **kw())
                if inp != "dist" or tier != "quick":
                    yield "getSDelta", lambda I: h.meth(fresh(I), "getSDelta", **kw())
                    yield "genCoeffs", lambda I: h.meth(fresh(I), "genCoeffs", **kw())
            for en, fn in entries():
                # node-to-node differences of a diagonal matrix are lower bidiagonal
                nd = need if en != "getSDelta" or need != "diag" else "lower"
                for p in w.explore(fn, max_paths=mp):
                    if p.kind != "ok": continue
                    v = p.value.items[0] if isinstance(p.value, Tup) and p.value.items else p.value
                    judge(rep, I, f"band-{en}", site if en == "getQDelta" else f"{site}/{en}", nd, v, p)
        # several sweeps through the generic function
        if inp in ("Q", "time", "nodes") and isinstance(gen, Func):
            def multi(I):
                M = h.int("M", 2)
                params = {n: f() for n, f in h.fullparams(M, h.time("tLeft")).items() if n in spec.INPUTS[inp]}
                return I.call(gen, [Const(name), h.int("nSweeps", 1)], params)
            for p in w.explore(multi, max_paths=mp):
                if p.kind != "ok": continue
                v = p.value
                if isinstance(v, Arr) and v.ndim == 3 and v.segs:
                    for s in v.segs: judge(rep, I, "band-genQDeltaCoeffs", f"{site}/genQDeltaCoeffs", need, s.val, p)
                else: rep.und("band-genQDeltaCoeffs", site, "stack of matrices without element facts")
