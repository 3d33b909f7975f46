"""C06: Lagrange matrices: physical dimension, invariance under weight scaling, pairing with the caller's points, duplicates."""
import numpy as np
from ..h import *
from .. import scen, spec, lagval
from .c16 import pick
from ..facts import check_facts, weights_unit


def ops(v):
    """names of the operations a value is built with"""
    return {VN.rev[x][1] for x in vsubterms(v) if VN.rev[x][0] == "op"}


def find(v, name):
    """argument tuples of every application of an operation"""
    return [VN.rev[x][2:] for x in vsubterms(v) if VN.rev[x][0] == "op" and VN.rev[x][1] == name]


def result(p):
    v = p.value
    if isinstance(v, Tup) and v.items: v = v.items[0]
    return v


REORDER = {"sort", "unique"}
PAIRED = {"unique_inv", "unique_index", "takeinv", "argsort", "searchsorted", "lexsort"}


JOBS = 8


def check(w, rep, tier):
    h, I = H(w), w.I
    decided = values(w, h, rep, tier)
    ss = list(scen.all_scen(h, tier, [scen.lagrange]))
    # -- pairing of columns with points, duplicates: how the matrix is put together, for any number of points
    for s in w.share(ss):
        if s.group != "lagrange" or s.info.get("what") == "call": continue
        inf = s.info

        def judge(rule, good, what, p):
            # an unusual construction that gives the right matrices for every small set of points is not known to be wrong
            if good is False and decided.get(s.name): good = None
            rep.check(rule, s.name, good, what, construct=s.site, path=p.desc())
        for p in w.explore(s.run, max_paths=16):
            if p.kind != "ok": continue
            v = result(p)
            if not isinstance(v, Arr): continue
            I.refresh(v)
            d = distinct(I, p)
            o = ops(v.vid)
            if d is True:
                bad = REORDER & o and not (PAIRED & o)
                judge("pairing", not bad, f"{s.name}: distinct points are re-ordered ({sorted(REORDER & o)}) without mapping the columns back to the caller's order", p)
            elif d is False:
                if not inf["dupl"]:
                    want = v.shape[-1] is not None and "nu(" in repr(v.shape[-1])
                    full = v.shape[-1] is not None and v.shape[-1] == Sym("n")
                    rep.check("distinct-columns", s.name, True if want else False if full else None,
                              f"{s.name}: duplicates=False keeps the columns of duplicated points", construct=s.site, path=p.desc())
                else:
                    k = VN.rev[v.vid]
                    spread = k[0] == "op" and k[1] in ("take", "takeinv", "idx")
                    zeroed = any(isinstance(a[1], Vid) and visconst(a[1]) == 0 for a in find(v.vid, "upd") if len(a) > 1)
                    judge("zero-columns", True if zeroed else False if spread else None, f"{s.name}: the columns of the points that are not selected are not set to zero", p)
                    sel = selector(v.vid)
                    if sel is not None:
                        judge("selected-duplicate", sel == inf["dup"], f"{s.name}: with {inf['dup']} the {'first' if sel == 'USE_LEFT' else 'last'} of the duplicated points is selected", p)
                    else: rep.und("selected-duplicate", s.name, "selection of the duplicates not recognised")
    # -- AUTO must have a way out of an overflow
    if w.first: auto(w, rep, ss)
    weights_unit(w)
    check_facts(w, h, rep, ss, max_paths=32 if tier == "quick" else 200)


def auto(w, rep, ss):
    vids = {}
    for wc in ("AUTO", "FAST"):
        for s in ss:
            if s.info.get("wc") == wc and s.info.get("what") == "interp" and s.info["dupl"] and s.info["dup"] == "USE_LEFT" and s.info["sr"] == "MAX" and not s.info["sc"]:
                for p in w.explore(s.run): 
                    if p.kind == "ok" and isinstance(result(p), Arr): vids.setdefault(wc, set()).add(result(p).vid)
    if vids.get("AUTO") and vids.get("FAST"):
        only_fast = vids["AUTO"] <= vids["FAST"]
        rep.check("auto-fallback", "LagrangeApproximation(AUTO)", not only_fast, "weightComputation='AUTO' never leaves the fast formula: an overflow of the weights goes undetected",
                  construct="qmat.lagrange.LagrangeApproximation.__init__")



def least(what):
    """size of the derivatives, for those that vanish"""
    d = {"deriv1": 1, "deriv2": 2, "derivALL": 2}.get(what)
    def f(e):
        x = np.ptp(e["points"])
        return x ** -d if d and x else 0
    return f


def values(w, h, rep, tier):
    """closed terms of the matrices for small numbers of points, as functions of the points, against the documented ones; {scenario: all equal}"""
    out = {}
    for n, m in [(3, 2), (1, 1), (2, 3), (4, 1), (5, 2), (11, 2)] + ([(6, 3), (7, 1)] if tier != "quick" else []):
        h.sizes = {"n": n, "m": m}
        envs = list(lagval.models(n, m))
        for s in w.share(scen.all_scen(h, tier, [scen.lagrange])):
            if s.group != "lagrange": continue
            es = envs if s.info["wc"] != "CHEBFUN" else [e for e in envs if e[f"nu({n})"] > 1]
            lab = f"{s.name}, {n} point(s)"
            for p in w.explore(s.run, max_paths=16):
                if p.kind == "abort": rep.und("value", lab, p.why)
                elif p.kind == "ok":
                    d = lagval.compare(rep, "value", s.site, lab, p, lambda e: lagval.reference(s.info, e), es, pick, vshow, least(s.info["what"]))
                    if d is not None: out[s.name] = out.get(s.name, True) and all(x[0] is True for x in d.values())
    for n, m, o in [(4, 3, 2), (3, 2, 3), (4, 2, 1), (5, 2, 4), (12, 3, 6)] + ([(6, 4, 3), (7, 3, 5)] if tier != "quick" else []):
        h.sizes = {"n": n, "m": m, "p": o}
        for s in w.share(scen.all_scen(h, tier, [scen.lagrange])):
            if s.group not in ("sparse", "extrap"): continue
            if s.group == "sparse": envs, want = list(lagval.sparse_models(n, m, o)), lambda e: {"": lagval.sparse(e, o, "True" in s.name)}
            else:
                d = n - 1 if "None" in s.name else min(o, n - 1)
                if d > 6: continue                   # monomials of that degree: the reference is not accurate enough
                h.sizes["p"] = d
                envs, want = list(lagval.extra_models(n, m, d)), lambda e: {"": lagval.extrapolation(e, d)}
            lab = f"{s.name}, {n} point(s), order {h.sizes['p']}"
            for p in w.explore(s.run, max_paths=64):
                if p.kind == "abort": rep.und("value", lab, p.why)
                elif p.kind == "ok": lagval.compare(rep, "value", s.site, lab, p, want, envs, pick, vshow)
    h.sizes = {}
    return out


def distinct(I, p):
    """are the points distinct on this path? (from what the path has assumed about the number of unique points)"""
    for s in list(I.bounds.b):
        if s == "nu(n)":
            e = I.bounds.eq0(Sym("n") - Sym(s))
            return e
    return None


def selector(v):
    """which duplicate the zeroed complement keeps, when it is one of the recognised idioms"""
    for a in find(v, "setdiff1d"):
        t = a[1]
        if not isinstance(t, Vid): continue
        o = ops(t)
        if "unique_index" in o:
            rev = bool({"flip", "rev"} & o) or any("-1" in str(x) for y in find(t, "slice") for x in y)
            return "USE_RIGHT" if rev else "USE_LEFT"
        if "nonzero" in o:
            if "max" in o and "min" not in o: return "USE_RIGHT"
            if "min" in o and "max" not in o: return "USE_LEFT"
    return None
