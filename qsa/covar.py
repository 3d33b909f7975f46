"""Covariance of the symbolic results: the closed terms are interpreted in a model on one time interval and in its image under a
shift and a change of the time unit; the values must be images of each other."""
import numpy as np
from .core import *
from . import teval
from .rows import Unk

INTERVALS = [((0.0, 1.0), (-0.6, 1.4)), ((0.0, 1.0), (3.0, 3.5)), ((0.0, 1.0), (0.0, 1e-9)), ((0.0, 1.0), (0.0, 4e6)), ((-1.0, 1.0), (0.0, 1.0)), ((0.0, 1.0), (5.0, 5.00001)), ((2.0, 3.0), (-3.0, -2.0)),
             ((0.0, 1.0), (-1.0, 0.0))]


def images(M, k):
    """(model, image, factor, shift)"""
    r = np.random.RandomState(23)
    for left, right in ((False, True), (True, True), (False, False)):
        x = np.sort(r.uniform(0.1, 0.9, M))
        if right: x[-1] = 1.0
        if left and M > 1: x[0] = 0.0
        Q = r.uniform(-0.3, 1.0, (M, M)) + np.eye(M)
        for i, ((a, b), (c, d)) in enumerate(INTERVALS):
            out = []
            for lo, hi in ((a, b), (c, d)):
                n = lo + (hi - lo) * x
                if right: n[-1] = hi
                if left and M > 1: n[0] = lo
                out.append({"M": M, "tLeft": lo, "tRight": hi, "nodes": n, "Q": Q * (hi - lo), "k": k, "k1": 2, "k2": k, "nSweeps": 2})
            f = (d - c) / (b - a)
            yield out[0], out[1], f, c - a * f


class Values:
    """value of a result in a model: the one of the path whose decisions hold there"""

    def __init__(self, w, run, limit, paths, pick):
        n0, self.paths, self.broken = w.truncated, [], False
        for p in w.explore(run, max_paths=limit):
            if p.kind == "abort": self.broken = True
            if p.kind != "ok": continue
            vids = {}
            for path in paths:
                v = pick(p.value, path) if path else p.value
                if isinstance(v, Arr): w.I.refresh(v)
                vids[path] = getattr(v, "vid", None)
            self.paths.append((p.events, vids))         # (the heap is rolled back after the path)
        if w.truncated > n0: self.broken = True

    def all(self, e, path):
        """the values of the paths that hold in the model"""
        hits = []
        for events, vids in self.paths:
            ok = teval.admits(events, e)
            if ok is False: continue
            if ok is None: raise Unk("path condition")
            if vids[path] is None: raise Unk("no value")
            r = teval.teval(vids[path], e)
            if not any(teval.close(x, r) is True for x in hits): hits.append(r)
        if not hits: raise Unk("no path")
        return hits

    def __call__(self, e, path):
        hits = self.all(e, path)
        if len(hits) > 1: raise Unk("several paths")
        return hits[0]


def power(u):
    """exponent of the time dimension, None when there are others"""
    d = dict(u.items()) if isinstance(u, dict) else dict(u)
    if any(k != "T" and x for k, x in d.items()): return None
    return float(d.get("T", 0))


def check(w, h, rep, scens, limit, pick, sizes=((3, 1), (2, 2), (4, 3))):
    """scens() lists the scenarios for the sizes set in h; sizes: (number of nodes, iteration number)"""
    for M, k in sizes:
        h.sizes = {"M": M, "nSweeps": 2, "k": k, "k1": 2, "k2": k}
        for s in w.share(scens()): one(w, rep, s, M, k, limit, pick)
    h.sizes = {}


def one(w, rep, s, M, k, limit, pick):
    exp = [(p, u, a) for p, _, u, a in s.expect if u is not None and a is not None]
    if not exp: return
    lab = f"{s.name}, {M} nodes"
    val = Values(w, s.run, limit, [x[0] for x in exp], pick)
    if val.broken: rep.und("covariance", lab, "paths"); return
    for path, u, a in exp:
        q = power(u)
        sh = {V0: 0, V1: 1}.get(a)
        if q is None or sh is None: continue
        verdict, why = None, "no model"
        for e1, e2, f, d in images(M, k):
            try: x, y = val(e1, path), val(e2, path)
            except Unk as z: why = str(z); continue
            except (ValueError, IndexError, TypeError, np.linalg.LinAlgError): continue
            want = x * f ** q + sh * d
            if x.shape != y.shape: verdict, why = False, "shape"; break
            if not np.all(np.isfinite(want)): continue
            tol = 1e-5 * max(np.max(np.abs(x)) * f ** q, sh * f, 1e-300) + 1e-13 * (abs(e2["tLeft"]) + abs(e2["tRight"])) * (f ** (q - 1))
            if not np.all(np.isfinite(y)) or np.any(np.abs(y - want) > tol):
                verdict = False
                why = f"on [{e1['tLeft']:g}, {e1['tRight']:g}] it is {np.array2string(x.ravel()[:6], precision=5)}, on [{e2['tLeft']:g}, {e2['tRight']:g}] {np.array2string(y.ravel()[:6], precision=5)}"
                break
            verdict = True
        rep.check("covariance", lab + path, verdict, f"{lab}: {path or 'the result'} does not follow the interval: {why}" if verdict is False else why, construct=s.site)
