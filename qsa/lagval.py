"""Documented values of the Lagrange matrices, for comparison with the closed terms of the results (random interpretation)."""
import itertools
import numpy as np
from . import teval
from .rows import Unk as NotClosed


def basis(u, t, d=0):
    """values at t of the d-th derivative of the Lagrange polynomials on the distinct points u, from their roots"""
    t = np.asarray(t, dtype=float)
    out = np.zeros((t.size, len(u)))
    for j in range(len(u)):
        others = np.delete(u, j)
        w = np.prod(u[j] - others)
        for i, x in enumerate(t.ravel()):
            f = x - others
            n = len(f)
            if d > n: continue
            s = 0.0
            for drop in itertools.permutations(range(n), d): s += np.prod(np.delete(f, list(drop)))
            out[i, j] = s / w
    return out


def integral(u, iv):
    x, w = np.polynomial.legendre.leggauss(len(u) // 2 + 1)
    out = []
    for a, b in np.asarray(iv, dtype=float): out.append((b - a) / 2 * w @ basis(u, (b - a) / 2 * x + (a + b) / 2))
    return np.array(out)


def spread(m, pts, dup, keep):
    """columns of the distinct points put at the selected positions of the points"""
    u, first, inv = np.unique(pts, return_index=True, return_inverse=True)
    if u.size == pts.size: return m
    if not keep: return m
    sel = first if dup == "USE_LEFT" else np.array([np.max(np.flatnonzero(pts == x)) for x in u])
    out = np.zeros((len(m), pts.size))
    out[:, sel] = m
    return out


def reference(inf, e):
    """documented matrix of a scenario in a model, {path in the result: value}"""
    pts = np.asarray(e["points"], dtype=float)
    u = np.unique(pts)
    if u.size == pts.size: u = pts
    w = inf["what"]
    f = lambda m: spread(m, pts, inf["dup"], inf["dupl"])
    if w == "interp": return {"": f(basis(u, e["times"]))}
    if w == "call": return {"": f(basis(u, e["times"])) @ e["fValues"]}
    if w == "integ": return {"": f(integral(u, e["intervals"]))}
    if w in ("deriv1", "deriv2"): return {"": f(basis(u, u, int(w[-1])))}
    if w == "derivALL": return {"[0]": f(basis(u, u, 1)), "[1]": f(basis(u, u, 2))}
    return {}


def models(n, m, dups=True):
    r = np.random.RandomState(11)
    base = {1: [[0.3]], 2: [[0.1, 0.9]], 3: [[-0.2, 0.5, 1.1]], 4: [[0.0, 0.3, 0.8, 1.3]]}.get(n) or [list(np.cumsum(r.uniform(0.2, 0.5, n)))]
    sets = [np.array(b) for b in base]
    sets += [p[::-1].copy() for p in sets[:1]]
    if n > 2: sets += [sets[0][[n - 2, 0] + [i for i in range(n) if i not in (0, n - 2)]], np.roll(sets[0], 1)]
    if dups and n > 1:
        b = sets[0]
        pats = {2: [[0, 0]], 3: [[0, 0, 1], [0, 1, 1], [1, 0, 1], [0, 0, 0], [1, 0, 0]],
                4: [[0, 1, 1, 2], [2, 0, 2, 1], [0, 0, 1, 1], [1, 0, 1, 0], [0, 0, 0, 1], [0, 1, 2, 2]]}.get(n, [[0, 1, 1, 2, 2][:n] + list(range(3, n - 2)), [2, 0, 1, 0, 2][:n] + list(range(3, n - 2))])
        sets += [b[np.array(p)] for p in pats if len(p) == n]
    for pts in sets:
        for sc, sh in ((1.0, 0.0), (1e-10, 0.0), (1e5, 0.0), (1.0, 5.0), (-1.0, 0.0), (2e-6, 1.0)):
            q = pts * sc + sh
            lo, w = q.min(), max(np.ptp(q), abs(sc))
            t = np.array([q[0], lo + 0.37 * w, lo + 1.4 * w, lo - 0.2 * w, q[-1]][:m]) if m != 2 else np.array([lo + 0.37 * w, q[-1]])
            iv = np.stack([np.resize([lo, lo + 0.2 * w, lo + w], m), np.resize([lo + 0.7 * w, q[0], lo - 0.3 * w], m)], axis=1)
            d = np.unique(q).size
            yield {"points": q, "times": t, "intervals": iv, "fValues": r.uniform(-1, 1, n), "n": n, "m": m, f"nu({n})": d, "nu(n)": d}


def compare(rep, rule, site, lab, p, wanted, envs, pick, vshow, least=lambda e: 0):
    """wanted(env) -> {path: value or None}; one verdict for each path of the result"""
    hold = [(e, teval.admits(p.events, e)) for e in envs]
    good = [e for e, x in hold if x] or [e for e, x in hold if x is None]
    sure = any(x for _, x in hold)
    if not good: return None
    done = {}
    for e in good:
        for path, want in wanted(e).items():
            if want is None or not np.all(np.isfinite(want)): continue
            if done.get(path, (1,))[0] is False: continue
            v = pick(p.value, path) if path else p.value
            vid = getattr(v, "vid", None)
            if vid is None: done[path] = (None, "no term"); continue
            try: r = teval.teval(vid, e)
            except NotClosed as x: done[path] = (None, f"operator {x}"); continue
            s = max(np.max(np.abs(want)), least(e)) if np.size(want) else 1
            same = r.shape == np.shape(want) and bool(np.all(np.isfinite(r))) and bool(np.all(np.abs(r - want) <= 1e-6 * s))
            if not same:
                done[path] = (False if sure else None, "differs from the documented value")
                if sure: done[path] += ({k: np.round(np.asarray(x), 9).tolist() for k, x in e.items() if isinstance(x, (np.ndarray, float))},)
            else: done.setdefault(path, (True, ""))
    for path, t in done.items():
        v = pick(p.value, path) if path else p.value
        rep.check(rule, lab, t[0], f"{lab}: result{path} is not the documented one, in the model {t[2]} (term {vshow(v.vid, 5):.160})" if t[0] is False else t[1], construct=site, path=p.desc())
    return done


# ----------------------------------------------------------------------------- sparse interpolation and extrapolation

def sparse(e, p, period):
    """each row interpolates from the p closest points (of the periodic extension), the others do not count"""
    x, n = np.asarray(e["inPoints"]), len(e["inPoints"])
    out = np.zeros((len(e["outPoints"]), n))
    for i, t in enumerate(e["outPoints"]):
        if period:
            P = e["gridPeriod"]
            path = np.concatenate([x + q * P for q in (-3, -2, -1, 0, 1, 2, 3)]) - t % P
        else: path = x - t
        d = np.sort(np.abs(path))
        if len(d) > p and d[p] - d[p - 1] < 1e-7 * d[-1]: return None       # a tie: the choice is not specified
        idx = np.argsort(np.abs(path), kind="stable")[:p]
        if len(set(i % n for i in idx)) < p: return None
        out[i, idx % n] = basis(path[idx], np.zeros(1))[0]
    return out


def sparse_models(n, m, p):
    r = np.random.RandomState(3)
    grids = [np.linspace(0, 1, n, endpoint=False), np.sort(r.uniform(0, 1, n))]
    for x in grids:
        dx = x[1] - x[0] if n > 1 else 0.5
        for t in (x[0] + dx * (np.arange(m) + 0.29), r.uniform(0, 1, m), x[:1].repeat(m) + 0.013 * np.arange(m), x[-1] - dx * 0.3 * np.arange(m), np.array([0.31, 0.77, 0.02, 0.44])[:m]):
            if len(t) != m: continue
            for sc in (1.0, 1e-9, 1e4): yield {"inPoints": x * sc, "outPoints": t * sc, "gridPeriod": sc, "n": n, "m": m, "p": p}
            # other periods, and a grid that does not begin at zero
            for sc, o, q in ((1.0, 0, 1), (2.5, 0, -1), (1.0, 0, 2), (0.3, -0.4, 0), (1.0, -0.25, 3)):
                yield {"inPoints": (x + o) * sc, "outPoints": (t + o + q * (1 + np.arange(m) % 2)) * sc, "gridPeriod": sc, "n": n, "m": m, "p": p}


def extrapolation(e, p):
    x = np.asarray(e["nodes"], dtype=float)
    return np.vander(e["times"], p + 1, increasing=True) @ np.linalg.pinv(np.vander(x, p + 1, increasing=True))


def extra_models(n, m, p):
    r = np.random.RandomState(4)
    for s, t0 in ((1.0, 0.0), (2.0, -0.5)):
        yield {"nodes": s * (np.sort(r.uniform(0, 1, n)) + np.arange(n)) / n + t0, "times": s * r.uniform(-0.5, 1.8, m) + t0, "n": n, "m": m, "p": p}
