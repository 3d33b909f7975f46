"""Are two closed terms the same function of their symbols?  Random interpretation: both are interpreted in generic models of the
symbols of the catalogue; terms that differ in a model are different, terms that agree in all of them are taken as equal."""
import numpy as np
from .core import *
from . import teval
from .rows import Unk

_models = {}


def models(integer=False):
    """values for the symbols used by the catalogue of entry points"""
    if integer in _models: return _models[integer]
    out = []
    r = np.random.RandomState(17)
    U = (lambda *s: r.randint(1, 5, s)) if integer else (lambda *s: r.uniform(0.1, 1.1, s))
    for M, t0, ln in ((3, 0.0, 1.0), (2, -0.7, 2.1), (4, 3.2, 0.35), (1, 0.4, 1.3), (3, -1.5, 6.0)):
        if integer: t0, ln = float(round(t0)), 11.0
        nodes = np.sort(r.choice(np.arange(1, 11), M, replace=False)) + t0 if integer else t0 + ln * np.sort(r.uniform(0.1, 1.0, M))
        for k, nS, K in ((1, 1, 2), (2, 3, 1), (4, 2, 3)):
            e = {"M": M, "nodes": nodes.astype(int) if integer else nodes, "tLeft": t0, "tRight": t0 + ln, "Q": U(M, M) * (1 if integer else ln), "k": k, "k1": 2, "k2": k, "nSweeps": K,
                 "nSteps": nS, "lam": complex(-0.7, 0.4) if not integer else -2, "u0": 1.1 - 0.3j if not integer else 3, "tEnd": 1.7 if not integer else 2, "c": U(M), "b": U(M), "b2": U(M),
                 "weights": U(M), "A": U(M, M), "QDelta": U(M, M), "uNum": U(nS + 1) + 0j, "t": 0.37 if not integer else 2, "p": max(1, M - 1), "gridPeriod": ln if not integer else 20}
            n, m = max(M, 2), k
            e.update(n=n, m=m, points=(np.cumsum(r.randint(1, 4, n)) if integer else t0 + ln * r.permutation(n + 1)[:n] / n + 0.01 * np.arange(n)))
            e.update(times=U(m), intervals=U(m, 2), fValues=U(n), inPoints=np.arange(n) * (1 if integer else 0.2), outPoints=U(m))
            e[f"nu({n})"] = e["nu(n)"] = n
            out.append(e)
    _models[integer] = out
    return out


OPAQUE = {"fsolve", "minimize", "minfun", "unk"}


def opaque(v): return frozenset(x for x in vsubterms(v) if VN.rev[x][0] == "op" and VN.rev[x][1] in OPAQUE)


_memo = {}


def equal(a, b, integer=False, conds=()):
    """True / False / None (not decided); conds: the events of the paths the terms come from (the models in which the decisions do
    not hold do not tell the terms apart)"""
    if a is None or b is None: return None
    if a == b: return True
    key = (a, b, integer)
    if key not in _memo: _memo[key] = _equal(a, b, integer)
    r = _memo[key]
    if isinstance(r, bool) or r is None: return r
    if not any(ev.get("kind") == "branch" for c in conds for ev in c): return False
    n = 0
    for e, same in r:
        adm = [teval.admits(c, e) for c in conds]
        if False in adm or None in adm and not same: continue
        if not same: return False
        n += 1
    return True if n else None


def _equal(a, b, integer):
    if opaque(a) != opaque(b): return None
    out = []
    for e in models(integer):
        try: x, y = teval.teval(a, e), teval.teval(b, e)
        except Unk: return None
        except (ValueError, IndexError, TypeError, np.linalg.LinAlgError, OverflowError): continue
        r = teval.close(x, y, 1e-8)
        if r is not None: out.append((e, r))
    if not out: return None
    return True if all(r for e, r in out) else out
