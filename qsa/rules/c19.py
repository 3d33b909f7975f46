"""C19: first and last node of every collocation, as the very value stored (arithmetic is kept as rounded operations, so an
end point that is recomputed is not the boundary bit for bit)."""
from .. import core
from ..h import *
from .. import npm

ROUNDED = ("fl+", "fl*", "fl/")

JOBS = 8


def first_last(h, I, v):
    n = v.shape[0] if v.shape else None
    if n is None: return None, None
    return npm.elem(I, v, [L(0)]), npm.elem(I, v, [n - 1])


def first(v):
    if isinstance(v, Tup): return v.items[0]
    if isinstance(v, Lst) and v.segs and v.segs[0].n == L(1): return v.segs[0].val
    return v


def rounded(v):
    k = VN.rev[v]
    return k[0] == "op" and k[1] in ROUNDED


def check(w, rep, tier):
    core.FL[0] = True
    try: _check(w, rep, tier)
    finally: core.FL[0] = False


def _check(w, rep, tier):
    h, I = H(w), w.I
    coll = w.get("qmat.qcoeff.collocation.Collocation")
    ng = w.get("qmat.nodes.NodesGenerator")
    gq = w.get(QPKG + ".genQCoeffs")
    sizes = ["M", 1, 2, 3, 4, 5] + ([6, 7, 8, 12, 20] if tier == "thorough" else [])
    tl, tr = vatom("tLeft"), vatom("tRight")
    for nt, qt in w.share([(nt, qt) for nt in NODE_TYPES for qt in QUAD_TYPES]):
        for _ in (1,):
            inc = (qt in ("LOBATTO", "RADAU-LEFT"), qt in ("LOBATTO", "RADAU-RIGHT"))
            for M in sizes:
                if M == 1 and inc[0]: continue
                m = lambda: h.int("M", 2) if M == "M" else Num(c=M)
                T = lambda: dict(tLeft=h.time("tLeft"), tRight=h.time("tRight"))
                cases = [("Collocation", h.site_of(coll), lambda I: h.attr(I.call(coll, [], dict(nNodes=m(), nodeType=Const(nt), quadType=Const(qt), **T())), "nodes"), (tl, tr)),
                         ("NodesGenerator", ng.qual + ".getNodes", lambda I: h.meth(I.call(ng, [], dict(nodeType=Const(nt), quadType=Const(qt))), "getNodes", m()), (vconst(-1), vconst(1)))]
                if M in ("M", 3):
                    cases += [("Collocation[0,1]", h.site_of(coll), lambda I: h.attr(I.call(coll, [], dict(nNodes=m(), nodeType=Const(nt), quadType=Const(qt))), "nodes"), (vconst(0), vconst(1))),
                              ("Collocation.genCoeffs", h.site_of(coll, "genCoeffs"), lambda I: first(h.meth(I.call(coll, [], dict(nNodes=m(), nodeType=Const(nt), quadType=Const(qt), **T())), "genCoeffs")), (tl, tr)),
                              ("genQCoeffs", QPKG + ".genQCoeffs", lambda I: first(h.call(gq, Const("Collocation"), nNodes=m(), nodeType=Const(nt), quadType=Const(qt), **T())), (tl, tr))]
                for what, site, run, ends in cases:
                    lbl = f"{what}({nt},{qt},M={M})"
                    for p in w.explore(run, max_paths=16):
                        if p.kind == "abort": rep.und("nodes", lbl, p.why); continue
                        if p.kind != "ok" or not isinstance(p.value, Arr): continue
                        I.refresh(p.value)
                        e = first_last(h, I, p.value)
                        for side, x, want, included in (("left", e[0], ends[0], inc[0]), ("right", e[1], ends[1], inc[1])):
                            if x is None or x.vid is None: rep.und("boundary-" + side, lbl, "unknown value"); continue
                            v = x.vid if x.c is None else vconst(x.c)
                            if included:
                                r = True if v == want else False if rounded(v) or visconst(v) is not None or VN.rev[v][0] == "atom" else None
                                rep.check("boundary-" + side, lbl, r, f"{lbl}: the {side} end {'node is ' + vshow(v, 3) if r is False else ''}, not exactly the boundary {vshow(want)}" if r is False else f"value {vshow(v, 2)} not decided",
                                          construct=site, path=p.desc())
                            else:
                                rep.check("inner-" + side, lbl, v != want, f"{lbl}: the {'first' if side == 'left' else 'last'} node is put on the {side} boundary although the type excludes it", construct=site, path=p.desc())
