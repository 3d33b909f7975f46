"""Catalogue of entry points with symbolic arguments and the facts promised for their results.

expect entries: (path, shape, unit, aff) where shape is a tuple of Lin/int (() for a scalar), None = not promised;
unit None = not promised; aff is V0 / V1 (multiple of the shift of the time axis) or None."""
from .h import *
from . import spec

T2 = unit(T=2)
TM1, TM2 = unit(T=-1), unit(T=-2)
U = unit(U=1)


class Scen:
    def __init__(self, name, site, run, expect, group, **info):
        self.name, self.site, self.run, self.expect, self.group, self.info = name, site, run, expect, group, info


def S(n): return Sym(n)


def collocation(h, tier):
    M = S("M")
    full = tier != "quick"
    types = [(n, q) for n in NODE_TYPES for q in QUAD_TYPES]
    cls = h.w.get("qmat.qcoeff.collocation.Collocation")
    gq = h.w.get(QPKG + ".genQCoeffs")
    attrs = [("nodes", (M,), T1, V1), ("weights", (M,), T1, V0), ("Q", (M, M), T1, V0), ("S", (M, M), T1, V0),
             ("T", (M, M), ONE, V0), ("Tinv", (M, M), ONE, V0), ("hCoeffs", (M,), ONE, V0), ("nNodes", (), None, V0),
             ("order", (), ONE, V0), ("rightIsNode", (), None, None)]
    for i, (nt, qt) in enumerate(types):
        if not full and nt not in ("LEGENDRE", "EQUID") and not (nt == "CHEBY-2" and qt == "LOBATTO"): continue

        def mk_(I, nt=nt, qt=qt, lo=2):
            return h.coll(h.int("M", lo), nt, qt, h.time("tLeft"), h.time("tRight"))
        for a, sh, u, af in attrs:
            if i and not full and a in ("T", "Tinv"): continue
            yield Scen(f"Collocation({nt},{qt}).{a}", h.site_of(cls, a), lambda I, a=a, f=mk_: h.attr(f(I), a),
                       [("", sh, u, af)], "coll", nodeType=nt, quadType=qt, attr=a)
        for form in ("Z2N", "N2N"):
            for hc in (False, True):
                if not full and (i or hc != (form == "N2N")): continue
                ex = [("[0]", (M,), T1, V1), ("[1]", (M,), T1, V0), ("[2]", (M, M), T1, V0)] + ([("[3]", (M,), ONE, V0)] if hc else [])
                yield Scen(f"Collocation({nt},{qt}).genCoeffs({form},hCoeffs={hc})", h.site_of(cls, "genCoeffs"),
                           lambda I, f=mk_, form=form, hc=hc: h.meth(f(I), "genCoeffs", form=Const(form), hCoeffs=Num(c=hc)), ex, "coll-gen", form=form)
                yield Scen(f"genQCoeffs(Collocation,{nt},{qt},{form},hCoeffs={hc})", QPKG + ".genQCoeffs",
                           lambda I, nt=nt, qt=qt, form=form, hc=hc: h.call(gq, Const("Collocation"), form=Const(form), hCoeffs=Num(c=hc), nNodes=h.int("M", 2),
                                                       nodeType=Const(nt), quadType=Const(qt), tLeft=h.time("tLeft"), tRight=h.time("tRight")), ex, "coll-gen", form=form)


def rk(h, tier):
    gq = h.w.get(QPKG + ".genQCoeffs")
    for n, cls in h.rks().items():
        emb = cls.lookup("b2")[0] is not None and not (isinstance(cls.lookup("b2")[0], Const))
        s = None
        b = cls.lookup("b")[0]
        if isinstance(b, Arr) and b.shape: s = b.shape[0]
        if s is None: continue
        mk_ = lambda I, cls=cls: I.call(cls, [], {})
        for a, sh in [("nodes", (s,)), ("weights", (s,)), ("Q", (s, s)), ("S", (s, s)), ("T", (s, s)), ("Tinv", (s, s)), ("order", ())] + ([("weightsEmbedded", (s,))] if emb else []):
            yield Scen(f"{n}.{a}", h.site_of(cls, a), lambda I, f=mk_, a=a: h.attr(f(I), a), [("", sh, None, None)], "rk", cls=n, attr=a)
        for form in ("Z2N", "N2N"):
            for e in ((False, True) if emb else (False,)):
                ex = [("[0]", (s,), None, None), ("[1]", (L(2), s) if e else (s,), None, None), ("[2]", (s, s), None, None)]
                yield Scen(f"{n}.genCoeffs({form},embedded={e})", h.site_of(cls, "genCoeffs"),
                           lambda I, f=mk_, form=form, e=e: h.meth(f(I), "genCoeffs", form=Const(form), embedded=Num(c=e)), ex, "rk-gen", cls=n, form=form)
                yield Scen(f"genQCoeffs({n},{form},embedded={e})", QPKG + ".genQCoeffs",
                           lambda I, n=n, form=form, e=e: h.call(gq, Const(n), form=Const(form), embedded=Num(c=e)), ex, "rk-gen", cls=n, form=form)


def qdelta(h, tier):
    M = S("M")
    full = tier != "quick"
    classes = h.names(DPKG + ".QDELTA_GENERATORS")
    gen = h.w.get(DPKG + ".genQDeltaCoeffs")
    for name, (need, inp, aliases, kdep) in spec.QDELTA.items():
        cls = classes.get(name)
        if cls is None: continue
        # promised unit: the families defined on the interval itself scale with its length
        u = T1 if inp in ("Q", "time", "nodes") and name != "MIN" else None
        af = V0 if u is not None and inp != "nodes" else None
        for qt in (QUAD_TYPES if inp == "dist" and name not in spec.TABLES else ["RADAU-RIGHT"]):
            m_ = Num(c=3) if name in spec.TABLES else None
            Mx = L(3) if name in spec.TABLES else M

            def mk_(I, cls=cls, qt=qt, m_=m_): return h.make(cls, m_ or h.int("M", 2), h.time("tLeft"), quadType=qt)

            def params(I, inp=inp, qt=qt, m_=m_):
                fp = h.fullparams(m_ or h.int("M", 2), h.time("tLeft"), quadType=qt)
                return {n: fp[n]() for n in spec.INPUTS[inp]}
            nm = f"{name}{'' if inp != 'dist' else '(' + qt + ')'}"
            sq = (Mx, Mx)
            kk = lambda I: h.int("k", 1)
            site = h.site_of(cls, "computeQDelta")
            cases = [("getQDelta()", lambda I, f=mk_: h.meth(f(I), "getQDelta"), [("", sq, u, af)]),
                     ("dTau", lambda I, f=mk_: h.attr(f(I), "dTau"), [("", (Mx,), T1 if inp in ("time",) else None, V0 if inp == "time" else None)])]
            heavy = name in ("MIN_SR_S", "MIN_SR_FLEX")
            if not heavy or full or qt == "RADAU-RIGHT":
                cases += [("getSDelta(k)", lambda I, f=mk_: h.meth(f(I), "getSDelta", kk(I)), [("", sq, u, af)]),
                          ("genCoeffs(k)", lambda I, f=mk_: h.meth(f(I), "genCoeffs", kk(I)), [("", sq, u, af)])]
            if not heavy or full:
                tu = T1 if inp == "time" else None
                cases += [
                    ("getQDelta(k)", lambda I, f=mk_: h.meth(f(I), "getQDelta", kk(I)), [("", sq, u, af)]),
                    ("genCoeffs(list)", lambda I, f=mk_: h.meth(f(I), "genCoeffs", h.lst([h.int("k1", 1), h.int("k2", 1)])), [("", (2, Mx, Mx), u, af)]),
                    ("genCoeffs(list,N2N,dTau)", lambda I, f=mk_: h.meth(f(I), "genCoeffs", h.lst([h.int("k1", 1), h.int("k2", 1)]), form=Const("N2N"), dTau=Num(c=True)),
                     [("[0]", (2, Mx, Mx), u, af), ("[1]", (Mx,), tu, None)]),
                    ("genCoeffs(N2N)", lambda I, f=mk_: h.meth(f(I), "genCoeffs", form=Const("N2N")), [("", sq, u, af)]),
                    ("genCoeffs(dTau)", lambda I, f=mk_: h.meth(f(I), "genCoeffs", dTau=Num(c=True)), [("[0]", sq, u, af), ("[1]", (Mx,), tu, None)]),
                    ("genQDeltaCoeffs()", lambda I, p=params, n=name: h.call(gen, Const(n), **p(I)), [("", sq, u, af)]),
                    ("genQDeltaCoeffs(nSweeps)", lambda I, p=params, n=name: h.call(gen, Const(n), nSweeps=h.int("nSweeps", 1), **p(I)), [("", (S("nSweeps"), Mx, Mx), u, af)]),
                    ("genQDeltaCoeffs(nSweeps,N2N,dTau)", lambda I, p=params, n=name: h.call(gen, Const(n), nSweeps=h.int("nSweeps", 1), form=Const("N2N"), dTau=Num(c=True), **p(I)),
                     [("[0]", (S("nSweeps"), Mx, Mx), u, af), ("[1]", (Mx,), tu, None)]),
                    ("genQDeltaCoeffs([2])", lambda I, p=params, n=name: h.call(gen, h.lst([Const(n), Const(n)]), **p(I)), [("", (2, Mx, Mx), u, af)]),
                    ("genQDeltaCoeffs([2],nSweeps,dTau)", lambda I, p=params, n=name: h.call(gen, h.lst([Const(n), Const(n)]), nSweeps=h.int("nSweeps", 2), dTau=Num(c=True), **p(I)),
                     [("[0]", (S("nSweeps"), Mx, Mx), u, af), ("[1]", (Mx,), tu, None)]),
                ]
            if name in ("BE", "LU"):
                cases += [("genQDeltaCoeffs([BE,LU])", lambda I: h.call(gen, h.lst([Const("BE"), Const("LU")]), Q=h.qmat(h.int("M", 2)), nodes=h.nodes(h.int("M", 2)), tLeft=h.time("tLeft")),
                           [("", (2, Mx, Mx), T1, V0)])]
            for c, run, ex in cases:
                yield Scen(f"{nm}.{c}", site if c.startswith("get") else f"{site}" if c.startswith("gen") else h.site_of(cls, "dTau"), run, ex, "qdelta", cls=name, inp=inp, case=c)


def lagrange(h, tier):
    n, m = S("n"), S("m")
    cls = h.w.get("qmat.lagrange.LagrangeApproximation")
    q = cls.qual
    full = tier != "quick"
    opts = [("AUTO", "MAX", False)]
    opts += [(wc, sr, sc) for wc in ("FAST", "STABLE", "CHEBFUN") for sr in ("MAX", "ZERO") for sc in (False, True)
             if full or (sr == "ZERO") == sc]
    for dup in ("USE_LEFT", "USE_RIGHT"):
        for oi, (wc, sr, sc) in enumerate(opts):
            if not full and oi and dup == "USE_RIGHT" and wc != "FAST": continue

            def mk_(I, wc=wc, sr=sr, sc=sc, dup=dup):
                pts = h.arr("points", (h.int("n", 2),), T1, V1)
                return I.call(cls, [pts], dict(weightComputation=Const(wc), scaleRef=Const(sr), scaleWeights=Num(c=sc), duplicates=Const(dup)))
            ivs = lambda I: h.arr("intervals", (h.int("m", 1), 2), T1, V1)
            tms = lambda I: h.arr("times", (h.int("m", 1),), T1, V1)
            nm = f"Lagrange({wc},{sr},{sc},{dup})"
            I0 = dict(wc=wc, sr=sr, sc=sc, dup=dup)
            yield Scen(nm + ".interpolation", q + ".getInterpolationMatrix", lambda I, f=mk_: h.meth(f(I), "getInterpolationMatrix", tms(I)),
                       [("", (m, n), ONE, V0)], "lagrange", what="interp", dupl=True, **I0)
            yield Scen(nm + ".interpolation(nodup)", q + ".getInterpolationMatrix", lambda I, f=mk_: h.meth(f(I), "getInterpolationMatrix", tms(I), duplicates=Num(c=False)),
                       [("", (m, "nu"), ONE, V0)], "lagrange", what="interp", dupl=False, **I0)
            for nq in ("FEJER", "LEGENDRE_NUMPY", "LEGENDRE_SCIPY"):
                if oi and not full and nq != "FEJER": continue
                yield Scen(nm + f".integration({nq})", q + ".getIntegrationMatrix", lambda I, f=mk_, nq=nq: h.meth(f(I), "getIntegrationMatrix", ivs(I), numQuad=Const(nq)),
                           [("", (m, n), T1, V0)], "lagrange", what="integ", dupl=True, nq=nq, **I0)
                yield Scen(nm + f".integration({nq},nodup)", q + ".getIntegrationMatrix", lambda I, f=mk_, nq=nq: h.meth(f(I), "getIntegrationMatrix", ivs(I), numQuad=Const(nq), duplicates=Num(c=False)),
                           [("", (m, "nu"), T1, V0)], "lagrange", what="integ", dupl=False, nq=nq, **I0)
            for o, ex in ((1, [("", (n, n), TM1, V0)]), (2, [("", (n, n), TM2, V0)]), ("ALL", [("[0]", (n, n), TM1, V0), ("[1]", (n, n), TM2, V0)])):
                for mt in ("getDerivativeMatrix", "getDerivationMatrix"):
                    if mt == "getDerivationMatrix" and (oi or o != 1): continue
                    yield Scen(nm + f".{mt}({o})", q + ".getDerivativeMatrix", lambda I, f=mk_, o=o, mt=mt: h.meth(f(I), mt, order=h.s(o)),
                               [(p, ("nd", "nd"), u, a) for p, s_, u, a in ex], "lagrange", what=f"deriv{o}", dupl=True, **I0)
                    yield Scen(nm + f".{mt}({o},nodup)", q + ".getDerivativeMatrix", lambda I, f=mk_, o=o, mt=mt: h.meth(f(I), mt, order=h.s(o), duplicates=Num(c=False)),
                               [(p, ("nu", "nu"), u, a) for p, s_, u, a in ex], "lagrange", what=f"deriv{o}", dupl=False, **I0)
            if not oi:
                def ev(I, f=mk_, where="call"):
                    fv = h.arr("fValues", (h.int("n", 2),), U, V0)
                    o = f(I)
                    return h.call(o, tms(I), fv)
                yield Scen(nm + "(t, fValues)", q + ".__call__", ev, [("", (m,), U, V0)], "lagrange", what="call", dupl=True, **I0)
    sp = h.w.get("qmat.lagrange.getSparseInterpolationMatrix")
    ex = h.w.get("qmat.utils.num.getExtrapolationMatrix")
    if isinstance(ex, Func):
        for po in (None, "p"):
            yield Scen(f"getExtrapolationMatrix(pOrder={po})", "qmat.utils.num.getExtrapolationMatrix",
                       lambda I, po=po: h.call(ex, h.nodes(h.int("n", 2)), h.arr("times", (h.int("m", 1),), T1, V1), **({} if po is None else {"pOrder": h.int("p", 0)})),
                       [("", (m, n), None, None)], "extrap")
    if isinstance(sp, Func):
        for per in (False, True):
            yield Scen(f"getSparseInterpolationMatrix(period={per})", "qmat.lagrange.getSparseInterpolationMatrix",
                       lambda I, per=per: h.call(sp, h.arr("inPoints", (h.int("n", 3),), T1, V1), h.arr("outPoints", (h.int("m", 1),), T1, V1), h.int("p", 1),
                                                 **({"gridPeriod": h.real("gridPeriod", T1, V0)} if per else {})),
                       [("", (m, n), ONE, None if per else V0)], "sparse")


def orthog(h, I, cls, t):
    g = I.call(cls, [], {})
    ab = h.meth(g, "getOrthogPolyCoefficients", h.int("n", 2))
    return h.meth(g, "evalOrthogPoly", t, I.getitem(ab, Num(c=0)), I.getitem(ab, Num(c=1)))


def nodesgen(h, tier):
    cls = h.w.get("qmat.nodes.NodesGenerator")
    for nt in NODE_TYPES:
        for qt in QUAD_TYPES:
            yield Scen(f"NodesGenerator({nt},{qt}).getNodes", cls.qual + ".getNodes",
                       lambda I, nt=nt, qt=qt: h.meth(I.call(cls, [], dict(nodeType=Const(nt), quadType=Const(qt))), "getNodes", h.int("M", 2)),
                       [("", (S("M"),), ONE, V0)], "nodes", nodeType=nt, quadType=qt)
            if nt != "EQUID" and (qt == "GAUSS" or nt == "LEGENDRE"):
                yield Scen(f"NodesGenerator({nt},{qt}).getTridiagCoefficients", cls.qual + ".getTridiagCoefficients",
                           lambda I, nt=nt, qt=qt: h.meth(I.call(cls, [], dict(nodeType=Const(nt), quadType=Const(qt))), "getTridiagCoefficients", h.int("M", 2)),
                           [("[0]", (S("M"),), ONE, V0), ("[1]", (S("M"),), ONE, V0)], "nodes", nodeType=nt, quadType=qt)
        if nt != "EQUID": yield Scen(f"NodesGenerator({nt}).getOrthogPolyCoefficients", cls.qual + ".getOrthogPolyCoefficients",
                   lambda I, nt=nt: h.meth(I.call(cls, [], dict(nodeType=Const(nt))), "getOrthogPolyCoefficients", h.int("M", 1)),
                   [("[0]", (S("M"),), ONE, V0), ("[1]", (S("M"),), ONE, V0)], "nodes", nodeType=nt)
    for what, t, sh in (("number", lambda: h.real("t"), ()), ("array", lambda: h.arr("t", (h.int("m", 1),)), (S("m"),))):
        yield Scen(f"NodesGenerator.evalOrthogPoly({what})", cls.qual + ".evalOrthogPoly",
                   lambda I, t=t: orthog(h, I, cls, t()),
                   [("[0]", sh, None, None), ("[1]", sh, None, None)], "nodes")


def dahlquist(h, tier):
    N, Mx, K = S("nSteps"), S("M"), S("nSweeps")
    lam = lambda: h.real("lam", TM1, V0, "c")
    u0 = lambda: h.real("u0", U, V0, "c")
    tEnd = lambda: h.real("tEnd", T1, V0)
    rkc = h.w.get("qmat.qcoeff.QGenerator")
    cls = h.w.get("qmat.qcoeff.collocation.Collocation")

    def gen(I):
        # a method on the unit interval: dimensionless coefficients
        g = Obj(OP(h, rkc), {}, I.epoch)
        M = h.int("M", 2)
        g.attrs.update(_nodes=h.arr("c", (M,), ONE, V0), _w=h.arr("b", (M,), ONE, V0), _Q=h.arr("A", (M, M), ONE, V0, band=FULL), _we=h.arr("b2", (M,), ONE, V0))
        return g
    for emb in (False, True):
        yield Scen(f"solveDahlquist(embedded={emb})", "qmat.qcoeff.QGenerator.solveDahlquist",
                   lambda I, emb=emb: h.meth(gen(I), "solveDahlquist", lam(), u0(), tEnd(), h.int("nSteps", 1), useEmbeddedWeights=Num(c=emb)), [("", (N + 1,), U, V0)], "dahl", emb=emb, what="solve")
        yield Scen(f"errorDahlquist(embedded={emb})", "qmat.qcoeff.QGenerator.errorDahlquist",
                   lambda I, emb=emb: h.meth(gen(I), "errorDahlquist", lam(), u0(), tEnd(), h.int("nSteps", 1), useEmbeddedWeights=Num(c=emb)), [("", (), U, V0)], "dahl", emb=emb, what="error")
    yield Scen("errorDahlquist(uNum)", "qmat.qcoeff.QGenerator.errorDahlquist",
               lambda I: h.meth(gen(I), "errorDahlquist", lam(), u0(), tEnd(), h.int("nSteps", 1), uNum=h.arr("uNum", (h.int("nSteps", 1).lin + 1,), U, V0, "c")), [("", (), U, V0)], "dahl", what="error-given")
    sdc = h.w.get("qmat.utils.sdc.solveDahlquistSDC")
    esdc = h.w.get("qmat.utils.sdc.errorDahlquistSDC")

    def args(I, nd):
        M = h.int("M", 2); K_ = h.int("nSweeps", 1)
        QD = h.arr("QDelta", (M, M), ONE, V0, band=FULL) if nd == 2 else h.arr("QDelta", (K_, M, M), ONE, V0)
        return [lam(), u0(), tEnd(), h.int("nSteps", 1), K_, h.arr("Q", (M, M), ONE, V0, band=FULL), QD]
    for nd in (2, 3):
        for wgt in (False, True):
            kw = lambda I, wgt=wgt: {"weights": h.arr("weights", (h.int("M", 2),), ONE, V0)} if wgt else {}
            for mon in (None, ["residuals"], ["errors"], ["residuals", "errors"]):
                if mon is None: ex = [("", (N + 1,), U, V0)]
                else: ex = [("[0]", (N + 1,), U, V0)] + [(f"[1][{k}]", (K + 1, N, Mx), U, V0) for k in mon]
                mk = lambda I, mon=mon: {} if mon is None else {"monitors": h.lst([Const(x) for x in mon])}
                yield Scen(f"solveDahlquistSDC({nd}D,weights={wgt},monitors={mon})", "qmat.utils.sdc.solveDahlquistSDC",
                           lambda I, nd=nd, kw=kw, mk=mk: h.call(sdc, *args(I, nd), **kw(I), **mk(I)), ex, "sdc", nd=nd, wgt=wgt, mon=mon, what="solve")
            yield Scen(f"errorDahlquistSDC({nd}D,weights={wgt})", "qmat.utils.sdc.errorDahlquistSDC",
                       lambda I, nd=nd, kw=kw: h.call(esdc, *args(I, nd), **kw(I)), [("", (), U, V0)], "sdc", nd=nd, wgt=wgt, mon=None, what="error")
    yield Scen("errorDahlquistSDC(uNum)", "qmat.utils.sdc.errorDahlquistSDC",
               lambda I: h.call(esdc, *args(I, 2), uNum=h.arr("uNum", (h.int("nSteps", 1).lin + 1,), U, V0, "c")), [("", (), U, V0)], "sdc", mon=None, what="error-given")


_op = {}


def OP(h, base):
    """an opaque concrete subclass of QGenerator with symbolic tables"""
    key = id(base)
    if key in _op: return _op[key]
    import ast
    src = ("class AnyMethod(QGenerator):\n"
           "    nodes = property(lambda self: self._nodes)\n    Q = property(lambda self: self._Q)\n"
           "    weights = property(lambda self: self._w)\n    weightsEmbedded = property(lambda self: self._we)\n"
           "    order = property(lambda self: 1)\n")
    I = h.I
    from .interp import Frame
    m = h.w.mod("qmat.qcoeff")
    fr = Frame(m); fr.locals = {"QGenerator": base}
    mark = len(I.undo)
    I.exec_block(ast.parse(src).body, fr)
    del I.undo[mark:]
    _op[key] = fr.locals["AnyMethod"]
    return _op[key]


def user_rk(h):
    """a Runge-Kutta method defined by a user, with symbolic tables"""
    base = h.w.get("qmat.qcoeff.butcher.RK")
    if base is None: return None
    key = "rk", id(base)
    if key not in _op:
        import ast
        I = h.I
        from .interp import Frame
        fr = Frame(h.w.mod("qmat.qcoeff.butcher")); fr.locals = {"RK": base}
        mark = len(I.undo)
        I.exec_block(ast.parse("class AnyRK(RK):\n    @property\n    def order(self): return 1\n").body, fr)
        del I.undo[mark:]
        _op[key] = fr.locals["AnyRK"]
    cls = _op[key]
    M = h.int("M", 1)
    cls.ns.update(A=h.arr("A", (M, M), ONE, V0, band=FULL), b=h.arr("b", (M,), ONE, V0), c=h.arr("c", (M,), ONE, V0), b2=h.arr("b2", (M,), ONE, V0))
    return cls


def num(h, tier):
    f = h.w.get("qmat.utils.num.lduFactorization")
    M = S("M")
    if isinstance(f, Func):
        yield Scen("lduFactorization", "qmat.utils.num.lduFactorization", lambda I: h.call(f, h.arr("A", (h.int("M", 2), h.int("M", 2)), T1, V0, band=FULL)),
                   [("[0]", (M, M), ONE, V0), ("[1]", (M, M), T1, V0), ("[2]", (M, M), ONE, V0)], "ldu")
    g = h.w.get("qmat.utils.num.numericalOrder")
    if isinstance(g, Func):
        yield Scen("numericalOrder", "qmat.utils.num.numericalOrder", lambda I: h.call(g, h.arr("nSteps", (h.int("n", 2),), ONE, V0, "i"), h.arr("err", (h.int("n", 2),), ONE, V0)),
                   [("[0]", (), None, None), ("[1]", (), None, None)], "num")


GROUPS = [collocation, rk, qdelta, lagrange, nodesgen, dahlquist, num]


def all_scen(h, tier, groups=GROUPS):
    for g in groups: yield from g(h, tier)
