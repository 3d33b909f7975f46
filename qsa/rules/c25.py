"""C25: forms of one Q generator agree.  The closed terms of T, Tinv, S, hCoeffs, nNodes, rightIsNode and of every genCoeffs form are
compared with what they are documented to be in terms of the nodes, Q and weights of the same generator."""
import numpy as np
from ..h import *
from .. import teval, scen
from ..covar import Values
from ..lagval import basis, spread
from ..rows import Unk
from .c16 import pick

JOBS = 8


def right(e, kind): return e["tRight"] if kind == "coll" else 1.0


def at(x, t):
    """documented interpolation row on nodes that may coincide (the first of equal nodes counts)"""
    u = np.unique(x)
    if u.size == x.size: u = x
    return spread(basis(u, np.array([t])), x, "USE_LEFT", True)[0]


def padded(b, pad):
    """the table with stages at the bounds of the interval"""
    x, w, Q, v = b["nodes"], b["weights"], b["Q"], b["emb"]
    if pad in ("LEFT", "BOTH"):
        n = len(x)
        Q = np.vstack([np.zeros((1, n + 1)), np.hstack([np.zeros((n, 1)), Q])])
        x, w, v = np.append(0, x), np.append(0, w), np.append(0, v)
    if pad in ("RIGHT", "BOTH"):
        n = len(x)
        Q = np.vstack([np.hstack([Q, np.zeros((n, 1))]), np.append(w, 0)[None, :]])
        x, w, v = np.append(x, 1), np.append(w, 0), np.append(v, 0)
    return {"nodes": x, "weights": w, "Q": Q, "emb": v}


def user_models(M):
    r = np.random.RandomState(41)
    for i in range(6):
        A = r.uniform(-0.5, 1, (M, M))
        if i == 1: A = np.tril(A) + 1e-4 * np.triu(A, 1)
        if i == 2: A = np.tril(A, -1)
        if i == 3: A = A * 1e-7
        if i == 4: A = A * 1e5
        c = np.sort(r.uniform(0.1, 1.2, M)) if i != 2 else np.round(np.linspace(0, 1, M), 3)
        if i == 5: c[-1] = 1.0
        yield {"M": M, "A": A, "b": r.uniform(-0.3, 1, M), "b2": r.uniform(-0.3, 1, M), "c": c}


def documented(what, b, e, kind):
    """value of a part of a result from nodes, weights, Q (b) of the same generator"""
    x, Q = b["nodes"], b["Q"]
    M = len(x)
    T = np.eye(M) - np.eye(M, k=-1)
    if what in ("nodes", "weights", "Q"): return b[what]
    if what == "T": return T
    if what == "Tinv": return np.tril(np.ones((M, M)))
    if what == "S": return T @ Q
    if what == "hCoeffs": return at(x, right(e, kind))
    if what == "nNodes": return M
    if what == "rightIsNode": return abs(x[-1] - right(e, kind)) < 1e-12 * max(1.0, abs(right(e, kind)))
    if what == "both": return np.vstack([b["weights"], b["emb"]])


BASE = ["nodes", "weights", "Q"]


def subjects(h, tier):
    gq = h.w.get(QPKG + ".genQCoeffs")
    emb_of = lambda cls: cls.lookup("b2")[0] is not None and not isinstance(cls.lookup("b2")[0], Const)
    def cases(tag, kind, cls, mk_, gen, emb):
        ps = {f"[{i}]": a for i, a in enumerate(BASE + (["emb"] if emb else []))}
        base = lambda I: Tup([h.attr(mk_(I), a) for a in BASE] + ([h.attr(mk_(I), "weightsEmbedded")] if emb else []))
        for a in ("T", "Tinv", "S", "hCoeffs", "nNodes", "rightIsNode"):
            yield f"{tag}.{a}", kind, h.site_of(cls, a), base, ps, lambda I, a=a: h.attr(mk_(I), a), {"": a}
        for form in ("Z2N", "N2N"):
            for hc in (False, True):
                for e in ((False, True) if emb else (False,)):
                    kw = dict(form=Const(form), hCoeffs=Num(c=hc), embedded=Num(c=e))
                    ex = {"[0]": "nodes", "[1]": "both" if e else "weights", "[2]": "Q" if form == "Z2N" else "S"}
                    if hc: ex["[3]"] = "hCoeffs"
                    lab = f"({form},hCoeffs={hc},embedded={e})"
                    yield f"{tag}.genCoeffs{lab}", kind, h.site_of(cls, "genCoeffs"), base, ps, lambda I, kw=kw: h.meth(mk_(I), "genCoeffs", **kw), ex
                    yield f"genQCoeffs({tag}){lab}", kind, QPKG + ".genQCoeffs", base, ps, lambda I, kw=kw: gen(kw), ex
            if form == "Z2N":
                yield f"{tag}.genCoeffs()", kind, h.site_of(cls, "genCoeffs"), base, ps, lambda I: h.meth(mk_(I), "genCoeffs"), {"[0]": "nodes", "[1]": "weights", "[2]": "Q"}
    for n, cls in h.rks().items():
        yield from cases(n, "rk", cls, lambda I, cls=cls: I.call(cls, [], {}), lambda kw, n=n: h.call(gq, Const(n), **kw), emb_of(cls))
    for M in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 6, 9):
        g = h.w.get("qmat.qcoeff.QGenerator")
        def own(I):
            o = Obj(scen.OP(h, g), {}, I.epoch)
            n = h.int("M", 1)
            o.attrs.update(_nodes=h.arr("c", (n,), ONE, V0), _w=h.arr("b", (n,), ONE, V0), _Q=h.arr("A", (n, n), ONE, V0, band=FULL), _we=h.arr("b2", (n,), ONE, V0))
            return o
        if g is not None and M > 1:
            for x in cases(f"user-defined method, {M} node(s)", f"user:{M}", g, own, None, True):
                if not x[0].startswith("genQCoeffs("): yield x
        for pad in (None, "LEFT", "RIGHT", "BOTH"):
            if scen.user_rk(h) is None: break
            for x in cases(f"user-defined RK, {M} stage(s), padding={pad}", f"user:{M}:{pad}", scen.user_rk(h), lambda I, pad=pad: I.call(scen.user_rk(h), [], {"padding": Const(pad)}), None, True):
                if x[0].startswith("genQCoeffs("): continue
                un = lambda I: Tup([h.attr(I.call(scen.user_rk(h), [], {}), a) for a in BASE + ["weightsEmbedded"]])
                yield x[:3] + (un,) + x[4:]
    coll = h.w.get("qmat.qcoeff.collocation.Collocation")
    for M in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5, 6, 8):
        for nt in NODE_TYPES:
            for qt in QUAD_TYPES:
                if M == 1 and qt in ("LOBATTO", "RADAU-LEFT") or tier == "quick" and (NODE_TYPES.index(nt) + QUAD_TYPES.index(qt) + M) % 4: continue
                args = lambda nt=nt, qt=qt, M=M: dict(nNodes=Num(c=M), nodeType=Const(nt), quadType=Const(qt), tLeft=h.time("tLeft"), tRight=h.time("tRight"))
                yield from cases(f"Collocation({nt},{qt},{M})", "coll", coll, lambda I, args=args: I.call(coll, [], args()), lambda kw, args=args: h.call(gq, Const("Collocation"), **{**args(), **kw}), False)


def check(w, rep, tier):
    h = H(w)
    envs = {"coll": [{"tLeft": a, "tRight": b} for a, b in ((0.0, 1.0), (-0.6, 1.4), (3.0, 3.5), (0.0, 1e-6), (0.0, 4e6))], "rk": [{}]}
    for lab, kind, site, base, ps, run, parts in w.share(list(subjects(h, tier))):
        pad = None
        if kind.startswith("user"):
            M = int(kind.split(":")[1])
            h.sizes, pad = {"M": M}, kind.split(":")[2] if kind.count(":") > 1 else None
            envs[kind] = list(user_models(M))
        else: h.sizes = {}
        ref, val = Values(w, base, 16, list(ps), pick), Values(w, run, 16, list(parts), pick)
        for path, what in parts.items():
            verdict, why = None, "no model"
            if val.broken: why = "paths"
            elif not val.paths: verdict, why = False, "no path returns a result"
            else:
                for e in envs[kind]:
                    try:
                        b = {a: np.asarray(ref(e, q)) for q, a in ps.items()}
                        if pad not in (None, "None"): b = padded(b, pad)
                        rs = [np.asarray(r) for r in val.all(e, path)]
                        x = np.asarray(documented(what, b, e, kind))
                    except Unk as z: why = str(z); continue
                    except (ValueError, IndexError, TypeError, np.linalg.LinAlgError) as z: why = f"{type(z).__name__} {z}"; continue
                    good = [r.shape == x.shape and bool(np.all(np.abs(r.astype(float) - x.astype(float)) <= 1e-9 * max(np.max(np.abs(x)), 1e-300))) for r in rs]
                    if all(good): verdict = True; continue
                    if any(good): verdict, why = None, "several paths"; break
                    verdict, why = False, f"it is {np.array2string(rs[0].ravel()[:8], precision=5)} (shape {rs[0].shape}), by the nodes, weights and Q of the same generator {np.array2string(x.ravel()[:8], precision=5)} (shape {x.shape})"
                    break
            rep.check("form-" + what, lab + path, verdict, f"{lab}: {what} {why}" if verdict is False else why, construct=site)
    h.sizes = {}
