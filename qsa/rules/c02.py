"""C02: no store reaches an object that came in through an argument (effect analysis on the abstract heap, every path, also
the ones that raise)."""
from ..h import *
from .. import heap, scen, spec

JOBS = 8


def extra(h, tier):
    """entry points not in the catalogue, or with containers as arguments"""
    w = h.w
    gqd = w.get(DPKG + ".genQDeltaCoeffs")
    classes = h.names(DPKG + ".QDELTA_GENERATORS")
    M = lambda: h.int("M", 2)
    coll = lambda I, qt="RADAU-RIGHT": h.coll(M(), "LEGENDRE", qt, h.time("tLeft"), h.time("tRight"))
    P = lambda: dict(Q=h.qmat(M()), nodes=h.nodes(M()), tLeft=h.time("tLeft"))
    for names in (["BE"], ["BE", "LU"], ["PIC", "FE", "TRAP"]):
        for ns in (None, 2, 5):
            yield f"genQDeltaCoeffs({names},nSweeps={ns})", DPKG + ".genQDeltaCoeffs", lambda I, names=names, ns=ns: h.call(
                gqd, h.lst([Const(x) for x in names]), **({"nSweeps": Num(c=ns)} if ns else {}), **P())
    yield "genQDeltaCoeffs(unknown)", DPKG + ".genQDeltaCoeffs", lambda I: h.call(gqd, h.lst([Const("BE"), Const("no-such-name")]), nSweeps=Num(c=4), **P())
    for name, cls in classes.items():
        if cls.name != name: continue
        if name in ("MIN_SR_S", "MIN_SR_FLEX") and tier == "quick": continue
        def fromgen(I, cls=cls):
            g = coll(I)
            argobj(h, I, g)
            o = I.call(cls, [], {"qGen": g})
            return Tup([h.meth(o, "genCoeffs", h.int("k", 1), dTau=Num(c=True)), h.meth(o, "getSDelta", h.int("k", 1))])
        if name not in spec.TABLES: yield f"{name}(qGen)", h.site_of(cls), fromgen
    lag = w.get("qmat.lagrange.LagrangeApproximation")
    for pts in ("arr", "list"):
        for wc in ("AUTO", "FAST", "STABLE", "CHEBFUN"):
            for fv in (False, True):
                def lg(I, pts=pts, wc=wc, fv=fv):
                    n = h.int("n", 2)
                    p = h.arr("points", (n,), T1, V1) if pts == "arr" else h.symlst("points", n, T1, V1)
                    kw = {"fValues": h.arr("fValues", (n,))} if fv else {}
                    o = I.call(lag, [p], {"weightComputation": Const(wc), **kw})
                    t = h.arr("times", (h.int("m", 1),), T1, V1) if pts == "arr" else h.symlst("times", h.int("m", 1), T1, V1)
                    return h.call(o, t) if fv else h.meth(o, "getInterpolationMatrix", t)
                yield f"Lagrange({pts},{wc},fValues={fv})", lag.qual, lg
    no = w.get("qmat.utils.sdc.getOrderSDC")
    if isinstance(no, Func):
        for su in ("LASTNODE", "QUADRATURE"):
            yield f"getOrderSDC({su})", no.qual, lambda I, su=su: h.call(no, argobj(h, I, coll(I)), h.int("K", 1), Const("BE"), Const(su))


def objs(g):
    """the mutable objects reachable from a value"""
    out, seen, todo = [], set(), [g]
    while todo:
        v = todo.pop()
        if id(v) in seen: continue
        seen.add(id(v))
        if isinstance(v, (Obj, Lst, Dct, Arr)): out.append(v)
        if isinstance(v, Obj): todo += list(v.attrs.values())
        elif isinstance(v, Tup): todo += list(v.items)
        elif isinstance(v, Lst): todo += [s.val for s in v.segs]
        elif isinstance(v, Dct): todo += [x for _, x in v.d.values()]
    return out


def argobj(h, I, g):
    """everything mutable behind g came from the caller"""
    for b in heap.reach(g): I.buf_origin[b] = "arg"
    for x in objs(g):
        if not isinstance(x, Obj): x.origin = "arg"
    return g


def subjects(h, tier):
    for s in scen.all_scen(h, tier): yield s.name, s.site, s.run
    for e in heap.entries(h, tier): yield e.name, e.site, lambda I, e=e: e.call(I, e.make(I) if e.make else None, "")
    yield from extra(h, tier)


def check(w, rep, tier):
    h, I = H(w), w.I
    for name, site, run in w.share(subjects(h, tier)):
        n = 0
        for p in w.explore(run, max_paths=24 if tier == "quick" else 128):
            if p.kind == "abort" and not p.effects: rep.und("arguments-unchanged", name, p.why); continue
            bad = False
            for e in p.effects:
                n += 1
                if e.origin == "arg" and not isinstance(e.obj, Obj):
                    what = f"{name}: {e.kind} ({e.detail}) modifies an argument of the caller, at {e.site}"
                    rep.bad("arguments-unchanged", (e.stack[-1] if e.stack else site), what, path=p.desc())
                    bad = True
            if not bad:
                if p.kind == "abort": rep.und("arguments-unchanged", name, p.why)
                else: rep.ok("arguments-unchanged", name)
