"""C12: every path of a call with an invalid option must raise; no path of a call with documented options may reach a
rejection (data-dependent numerical failures excepted). Sentinels stand for 'any other value'."""
from ..h import *
from .. import scen, spec, heap, sem, teval

JOBS = 8
BAD = "no-such-option"
NUM_EXC = ("FloatingPointError", "LinAlgError", "ZeroDivisionError", "OverflowError")


def invalid(h, w, full):
    """(name, site, run): every path has to raise"""
    S_, N = Const, lambda i: Num(c=i)
    M = lambda: h.int("M", 2)
    ng = w.get("qmat.nodes.NodesGenerator")
    coll = w.get("qmat.qcoeff.collocation.Collocation")
    gq = w.get(QPKG + ".genQCoeffs")
    qg = w.get("qmat.qcoeff.QGenerator")
    gqd = w.get(DPKG + ".genQDeltaCoeffs")
    qdg = w.get(DPKG + ".QDeltaGenerator")
    lag = w.get("qmat.lagrange.LagrangeApproximation")
    sdc = w.get("qmat.utils.sdc.solveDahlquistSDC")
    classes = h.names(DPKG + ".QDELTA_GENERATORS")
    rks = h.rks()
    bads = [S_(BAD), S_(""), NONE] if full else [S_(BAD)]
    case = lambda l: [S_(BAD)] + [S_(x.lower()) for x in l[:2]] + bads[1:]

    # ---- nodes and collocation
    q = ng.qual + ".__init__"
    for b in case(NODE_TYPES):
        for qt in QUAD_TYPES:
            yield f"NodesGenerator(nodeType={b.v!r}, quadType={qt})", q, lambda I, b=b, qt=qt: I.call(ng, [], dict(nodeType=b, quadType=S_(qt)))
            yield f"Collocation(nodeType={b.v!r}, quadType={qt})", q, lambda I, b=b, qt=qt: I.call(coll, [M(), b, S_(qt)], {})
            yield f"genQCoeffs(Collocation, nodeType={b.v!r}, quadType={qt})", q, lambda I, b=b, qt=qt: h.call(gq, S_("Collocation"), nNodes=M(), nodeType=b, quadType=S_(qt))
    for b in case(QUAD_TYPES):
        for nt in NODE_TYPES:
            yield f"NodesGenerator({nt}, quadType={b.v!r})", q, lambda I, b=b, nt=nt: I.call(ng, [], dict(nodeType=S_(nt), quadType=b))
            yield f"Collocation({nt}, quadType={b.v!r})", q, lambda I, b=b, nt=nt: I.call(coll, [M(), S_(nt), b], {})
            yield f"genQCoeffs(Collocation, {nt}, quadType={b.v!r})", q, lambda I, b=b, nt=nt: h.call(gq, S_("Collocation"), nNodes=M(), nodeType=S_(nt), quadType=b)
    yield "NodesGenerator(no-such, no-such)", q, lambda I: I.call(ng, [S_(BAD), S_(BAD)], {})
    for nt in NODE_TYPES:
        for qt in QUAD_TYPES:
            for n in [0, -1, "any<1"] + ([1] if qt in ("LOBATTO", "RADAU-LEFT") else []):
                nn = (lambda: h.int("M", None, 0)) if n == "any<1" else (lambda n=n: N(n))
                yield f"NodesGenerator({nt}, {qt}).getNodes({n})", ng.qual + ".getNodes", lambda I, nt=nt, qt=qt, nn=nn: h.meth(I.call(ng, [S_(nt), S_(qt)], {}), "getNodes", nn())
                yield f"Collocation({n}, {nt}, {qt})", ng.qual + ".getNodes", lambda I, nt=nt, qt=qt, nn=nn: I.call(coll, [nn(), S_(nt), S_(qt)], {})

    # ---- Q coefficients
    g = lambda I, emb=True: scen_gen(h, I)
    q = "qmat.qcoeff.QGenerator.genCoeffs"
    for b in [S_(BAD), S_("z2n"), S_(""), NONE, N(True)]:
        for hc in (False, True):
            for emb in (False, True):
                o = dict(hCoeffs=N(hc), embedded=N(emb))
                yield f"genCoeffs(form={show(b)}, hCoeffs={hc}, embedded={emb})", q, lambda I, b=b, o=o: h.meth(g(I), "genCoeffs", form=b, **o)
                if not emb: yield f"Collocation.genCoeffs(form={show(b)}, hCoeffs={hc})", q, lambda I, b=b, o=o: h.meth(h.coll(M()), "genCoeffs", form=b, **o)
                for s in ("Collocation", "RK4", "ESDIRK43"):
                    if s != "ESDIRK43" and emb: continue
                    p = {"nNodes": M(), "nodeType": S_("LEGENDRE"), "quadType": S_("LOBATTO")} if s == "Collocation" else {}
                    if s in h.names(QPKG + ".Q_GENERATORS"):
                        yield f"genQCoeffs({s}, form={show(b)}, hCoeffs={hc}, embedded={emb})", q, lambda I, s=s, b=b, o=o: h.call(gq, S_(s), form=b, **o, **({"nNodes": M(), "nodeType": S_("LEGENDRE"), "quadType": S_("LOBATTO")} if s == "Collocation" else {}))
    for b in [S_(BAD), S_("rk4"), S_(""), NONE]:
        for o in ({}, {"form": S_("N2N")}, {"hCoeffs": N(True)}, {"embedded": N(True)}, {"padding": S_("LEFT")}):
            yield f"genQCoeffs({show(b)}, {sorted(o)})", QPKG + ".genQCoeffs", lambda I, b=b, o=o: h.call(gq, b, **o)
    for nm, cls in rks.items():
        for b in [S_(BAD), S_("left"), N(3)] if full or nm in ("RK4", "BE", "ESDIRK43", "DIRK43") else [S_(BAD)]:
            yield f"{nm}(padding={show(b)})", h.site_of(cls), lambda I, cls=cls, b=b: I.call(cls, [], {"padding": b})
        yield f"genQCoeffs({nm}, padding=no-such)", h.site_of(cls), lambda I, nm=nm: h.call(gq, S_(nm), padding=S_(BAD))
    no_emb = [n for n, c in rks.items() if n in ("RK4", "FE", "BE", "CN", "DIRK43", "Heun")]
    for nm in no_emb:
        for what, run in [("weightsEmbedded", lambda I, c: h.attr(I.call(c, [], {}), "weightsEmbedded")),
                          ("genCoeffs(embedded)", lambda I, c: h.meth(I.call(c, [], {}), "genCoeffs", embedded=N(True))),
                          ("solveDahlquist(useEmbeddedWeights)", lambda I, c: h.meth(I.call(c, [], {}), "solveDahlquist", h.real("lam", dt="c"), h.real("u0", dt="c"), h.real("tEnd"), h.int("nSteps", 1), useEmbeddedWeights=N(True))),
                          ("errorDahlquist(useEmbeddedWeights)", lambda I, c: h.meth(I.call(c, [], {}), "errorDahlquist", h.real("lam", dt="c"), h.real("u0", dt="c"), h.real("tEnd"), h.int("nSteps", 1), useEmbeddedWeights=N(True)))]:
            yield f"{nm}.{what}", h.site_of(rks[nm], "weightsEmbedded"), lambda I, c=rks[nm], run=run: run(I, c)
    for what, run in [("weightsEmbedded", lambda I, o: h.attr(o, "weightsEmbedded")), ("genCoeffs(embedded)", lambda I, o: h.meth(o, "genCoeffs", embedded=N(True)))]:
        yield f"Collocation.{what}", qg.qual + ".weightsEmbedded", lambda I, run=run: run(I, h.coll(M()))
    yield "genQCoeffs(Collocation, embedded)", qg.qual + ".weightsEmbedded", lambda I: h.call(gq, S_("Collocation"), embedded=N(True), nNodes=M(), nodeType=S_("LEGENDRE"), quadType=S_("GAUSS"))
    for a in ("nodes", "Q", "weights", "order", "weightsEmbedded", "S", "nNodes", "hCoeffs", "rightIsNode"):
        yield f"QGenerator().{a}", f"{qg.qual}.{a}", lambda I, a=a: h.attr(I.call(qg, [], {}), a)
    yield "QDeltaGenerator(Q).getQDelta()", qdg.qual + ".computeQDelta", lambda I: h.meth(I.call(qdg, [h.qmat(M())], {}), "getQDelta")
    yield "QDeltaGenerator(Q).genCoeffs()", qdg.qual + ".computeQDelta", lambda I: h.meth(I.call(qdg, [h.qmat(M())], {}), "genCoeffs")

    # ---- Lagrange
    q = lag.qual + ".__init__"
    n = lambda: h.int("n", 2)
    pts = lambda: h.arr("points", (n(),), T1, V1)
    WC, SR, DUP = ("AUTO", "FAST", "STABLE", "CHEBFUN"), ("MAX", "ZERO"), ("USE_LEFT", "USE_RIGHT")
    mkl = lambda I, **k: I.call(lag, [pts()], k)
    for b in [S_(BAD), S_("auto"), S_("Auto")] + bads[1:]:
        for sr in SR:
            for dup in DUP:
                for sc in (False, True):
                    yield f"Lagrange(weightComputation={show(b)}, {sr}, {dup}, {sc})", q, lambda I, b=b, sr=sr, dup=dup, sc=sc: mkl(I, weightComputation=b, scaleRef=S_(sr), duplicates=S_(dup), scaleWeights=N(sc))
    for b in [S_(BAD), S_("max")] + bads[1:]:
        for wc in WC:
            for sc in (False, True):
                yield f"Lagrange({wc}, scaleRef={show(b)}, scaleWeights={sc})", q, lambda I, b=b, wc=wc, sc=sc: mkl(I, weightComputation=S_(wc), scaleRef=b, scaleWeights=N(sc))
    for b in [S_(BAD), S_("use_left")] + bads[1:]:
        for wc in WC:
            yield f"Lagrange({wc}, duplicates={show(b)})", q, lambda I, b=b, wc=wc: mkl(I, weightComputation=S_(wc), duplicates=b)
    for wc in WC:
        yield f"Lagrange({wc}, fValues of another length)", q, lambda I, wc=wc: mkl(I, weightComputation=S_(wc), fValues=h.arr("fValues", (n().lin + 1,)))
        yield f"Lagrange({wc}, fValues with two axes)", q, lambda I, wc=wc: mkl(I, weightComputation=S_(wc), fValues=h.arr("fValues", (n(), N(1))))
    yield "Lagrange(points)(t)", lag.qual + ".__call__", lambda I: h.call(mkl(I), h.arr("times", (h.int("m", 1),)))
    for dup in (True, False):
        kw = lambda dup=dup: dict(duplicates=N(dup))
        yield f"getInterpolationMatrix(2D, duplicates={dup})", lag.qual + ".getInterpolationMatrix", lambda I, kw=kw: h.meth(mkl(I), "getInterpolationMatrix", h.arr("times", (h.int("m", 1), h.int("m2", 1))), **kw())
        yield f"getInterpolationMatrix(scalar, duplicates={dup})", lag.qual + ".getInterpolationMatrix", lambda I, kw=kw: h.meth(mkl(I), "getInterpolationMatrix", h.real("t"), **kw())
        for shp in ((h_ := "m",), ("m", 1), ("m", 3), ("m", 2, 2)):
            sh = lambda shp=shp: tuple(h.int("m", 1) if x == "m" else N(x) for x in shp)
            for nq in ("LEGENDRE_NUMPY", "LEGENDRE_SCIPY", "FEJER"):
                yield f"getIntegrationMatrix(intervals {shp}, {nq}, duplicates={dup})", lag.qual + ".getIntegrationMatrix", lambda I, sh=sh, nq=nq, kw=kw: h.meth(mkl(I), "getIntegrationMatrix", h.arr("intervals", sh()), numQuad=S_(nq), **kw())
        for b in [S_(BAD), S_("fejer"), S_("LEGENDRE"), S_(""), NONE]:
            yield f"getIntegrationMatrix(numQuad={show(b)}, duplicates={dup})", lag.qual + ".getIntegrationMatrix", lambda I, b=b, kw=kw: h.meth(mkl(I), "getIntegrationMatrix", h.arr("intervals", (h.int("m", 1), 2)), numQuad=b, **kw())
        for b in [N(0), N(3), N(-1), S_(BAD), S_("all"), S_("1"), NONE]:
            for mt in ("getDerivativeMatrix", "getDerivationMatrix"):
                yield f"{mt}(order={show(b)}, duplicates={dup})", lag.qual + ".getDerivativeMatrix", lambda I, b=b, mt=mt, kw=kw: h.meth(mkl(I), mt, order=b, **kw())
    sp = w.get("qmat.lagrange.getSparseInterpolationMatrix")
    for per in (False, True):
        for k in (1, 2):
            yield f"getSparseInterpolationMatrix(order=n+{k}, period={per})", "qmat.lagrange.getSparseInterpolationMatrix", lambda I, per=per, k=k: h.call(
                sp, h.arr("inPoints", (h.int("n", 3),), T1, V1), h.arr("outPoints", (h.int("m", 1),), T1, V1), Num(lin=Sym("n") + k), **({"gridPeriod": h.real("gridPeriod", T1, V0)} if per else {}))
    ldu = w.get("qmat.utils.num.lduFactorization")
    if isinstance(ldu, Func): yield "lduFactorization(not square)", "qmat.utils.num.lduFactorization", lambda I: h.call(ldu, h.arr("A", (M(), M().lin + 1)))

    # ---- Q-Delta
    one = {"Q": "LU", "time": "BE", "nodes": "MIN_SR_NS"}
    ks = [("0", lambda: N(0)), ("-1", lambda: N(-1)), ("any<1", lambda: h.int("k", None, 0))]
    for name, (need, inp, al, kdep) in spec.QDELTA.items():
        cls = classes.get(name)
        if cls is None: continue
        mk_ = lambda I, cls=cls, name=name: h.make(cls, N(3) if name in spec.TABLES else M(), h.time("tLeft"))
        fp = lambda name=name: {n: f() for n, f in h.fullparams(N(3) if name in spec.TABLES else M(), h.time("tLeft")).items() if n in spec.INPUTS[spec.QDELTA[name][1]]}
        site = h.site_of(cls, "genCoeffs")
        for b in [S_(BAD), S_("n2n"), S_(""), NONE] if full or name in one.values() or kdep else [S_(BAD)]:
            for kn, k in [("None", lambda: NONE), ("2", lambda: N(2)), ("[1, 2]", lambda: h.lst([N(1), N(2)]))]:
                for dt in (False, True) if name in ("BE", "LU") else (False,):
                    yield f"{name}.genCoeffs({kn}, form={show(b)}, dTau={dt})", site, lambda I, mk_=mk_, b=b, k=k, dt=dt: h.meth(mk_(I), "genCoeffs", k(), form=b, dTau=N(dt))
            for o in ({}, {"nSweeps": N(2)}, {"dTau": N(True)}):
                yield f"genQDeltaCoeffs({name}, form={show(b)}, {sorted(o)})", DPKG + ".genQDeltaCoeffs", lambda I, name=name, b=b, o=o, fp=fp: h.call(gqd, S_(name), form=b, **o, **fp())
            yield f"genQDeltaCoeffs([{name}, {name}], form={show(b)})", DPKG + ".genQDeltaCoeffs", lambda I, name=name, b=b, fp=fp: h.call(gqd, h.lst([S_(name), S_(name)]), form=b, **fp())
        if kdep:
            for kn, k in ks:
                for mt, f in [("getQDelta(k)", lambda I, o, k: h.meth(o, "getQDelta", k())), ("getSDelta(k)", lambda I, o, k: h.meth(o, "getSDelta", k())),
                              ("computeQDelta(k)", lambda I, o, k: h.meth(o, "computeQDelta", k())), ("genCoeffs(k)", lambda I, o, k: h.meth(o, "genCoeffs", k())),
                              ("genCoeffs(k, N2N)", lambda I, o, k: h.meth(o, "genCoeffs", k(), form=S_("N2N"))),
                              ("genCoeffs([1, k])", lambda I, o, k: h.meth(o, "genCoeffs", h.lst([N(1), k()]))), ("genCoeffs([k, 1], N2N)", lambda I, o, k: h.meth(o, "genCoeffs", h.lst([k(), N(1)]), form=S_("N2N")))]:
                    yield f"{name}.{mt}, k={kn}", h.site_of(cls, "computeQDelta"), lambda I, mk_=mk_, f=f, k=k: f(I, mk_(I), k)
        # construction
        req = spec.INPUTS[inp]
        site = h.site_of(cls)
        for r in req:
            if r == "tLeft": continue
            yield f"{name} without {r}", site, lambda I, cls=cls, r=r, fp=fp: I.call(cls, [], {n: v for n, v in fp().items() if n != r})
        yield f"{name}()", site, lambda I, cls=cls: I.call(cls, [], {})
        yield f"{name}(qGen=None)", site, lambda I, cls=cls: I.call(cls, [], {"qGen": NONE})
        yield f"{name}: surplus positional argument", site, lambda I, cls=cls, fp=fp, req=req: I.call(cls, [fp()[n] for n in req] + [N(1)], {})
        yield f"{name}: surplus positional argument with qGen", site, lambda I, cls=cls, fp=fp, req=req: I.call(cls, [fp()[n] for n in req] + [N(1)], {"qGen": h.coll(N(3))})
        for j, r in enumerate(req):
            yield f"{name}: {r} by position and keyword", site, lambda I, cls=cls, fp=fp, req=req, j=j, r=r: I.call(cls, [fp()[n] for n in req[:j + 1]], {n: fp()[n] for n in req[j:]})
        yield f"{name}(qGen=, coll=)", site, lambda I, cls=cls: I.call(cls, [], {"qGen": h.coll(N(3)), "coll": h.coll(N(3))})
        yield f"genQDeltaCoeffs({name}, qGen=, coll=)", site, lambda I, name=name: h.call(gqd, S_(name), qGen=h.coll(N(3)), coll=h.coll(N(3)))
        for kw in ("qGen", "coll"):
            for bn, b in [("a matrix", lambda I: h.qmat(M())), ("a string", lambda I: S_("RK4")), ("a dictionary", lambda I: Dct({}, I.epoch, "arg") if False else S_("x")),
                          ("a Q-Delta generator", lambda I: h.make(classes["LU"], M())), ("a Lagrange approximation", lambda I: mkl(I)), ("a class", lambda I: coll)] + (
                              [("a Runge-Kutta scheme", lambda I: I.call(rks["RK4"], [], {}))] if inp == "dist" else []):
                if not full and bn not in ("a matrix", "a Lagrange approximation", "a Runge-Kutta scheme", "a class"): continue
                yield f"{name}({kw}={bn})", h.site_of(cls, "extractParams"), lambda I, cls=cls, kw=kw, b=b: I.call(cls, [], {kw: b(I)})
                if bn == "a matrix":      # also when every parameter is given
                    yield f"{name}({kw}={bn}, all parameters)", h.site_of(cls, "extractParams"), lambda I, cls=cls, kw=kw, b=b, fp=fp: I.call(cls, [], {kw: b(I), **fp()})
    # ---- generic Q-Delta function
    q = DPKG + ".genQDeltaCoeffs"
    ap = lambda: {n: f() for n, f in h.fullparams(M(), h.time("tLeft")).items()}
    for b in [S_(BAD), S_("lu"), S_("")]:
        for o in ({}, {"nSweeps": lambda: N(2)}, {"nSweeps": lambda: h.int("nSweeps", 1)}, {"form": lambda: S_("N2N")}, {"dTau": lambda: N(True)}):
            oo = lambda o=o: {k: v() for k, v in o.items()}
            yield f"genQDeltaCoeffs({show(b)}, {sorted(o)})", q, lambda I, b=b, oo=oo: h.call(gqd, b, **oo(), **ap())
            for pos in range(3):
                yield f"genQDeltaCoeffs(list with {show(b)} at {pos}, {sorted(o)})", q, lambda I, b=b, oo=oo, pos=pos: h.call(gqd, h.lst([b if i == pos else S_("LU") for i in range(3)]), **{**oo(), **({"nSweeps": h.int("nSweeps", 3)} if "nSweeps" in oo() else {})}, **ap())
            yield f"genQDeltaCoeffs([{show(b)}], {sorted(o)})", q, lambda I, b=b, oo=oo: h.call(gqd, h.lst([b]), **oo(), **ap())
    for bn, b in [("0", lambda: N(0)), ("-1", lambda: N(-1)), ("any<1", lambda: h.int("nSweeps", None, 0)), ("2.5", lambda: N(2.5)), ("'2'", lambda: S_("2"))]:
        for o in ({}, {"form": S_("N2N")}, {"dTau": N(True)}):
            for an, a in [("LU", lambda: S_("LU")), ("[LU]", lambda: h.lst([S_("LU")])), ("[LU, BE]", lambda: h.lst([S_("LU"), S_("BE")]))]:
                yield f"genQDeltaCoeffs({an}, nSweeps={bn}, {sorted(o)})", q, lambda I, a=a, b=b, o=o: h.call(gqd, a(), nSweeps=b(), **o, **ap())
    for ln, sw in [(2, 1), (3, 1), (3, 2)]:
        for o in ({}, {"form": S_("N2N")}, {"dTau": N(True)}):
            yield f"genQDeltaCoeffs({ln} names, nSweeps={sw}, {sorted(o)})", q, lambda I, ln=ln, sw=sw, o=o: h.call(gqd, h.lst([S_("LU"), S_("BE"), S_("FE")][:ln]), nSweeps=N(sw), **o, **ap())
            yield f"genQDeltaCoeffs({ln} equal names, nSweeps={sw}, {sorted(o)})", q, lambda I, ln=ln, sw=sw, o=o: h.call(gqd, h.lst([S_("LU")] * ln), nSweeps=N(sw), **o, **ap())
    for o in ({}, {"nSweeps": lambda: N(2)}, {"nSweeps": lambda: h.int("nSweeps", 1)}, {"dTau": lambda: N(True)}):
        yield f"genQDeltaCoeffs([], {sorted(o)})", q, lambda I, o=o: h.call(gqd, h.lst([]), **{k: v() for k, v in o.items()}, **ap())
        for bn, b in [("None", lambda: NONE), ("3", lambda: N(3)), ("a class", lambda: classes["LU"])]:
            yield f"genQDeltaCoeffs({bn}, {sorted(o)})", q, lambda I, b=b, o=o: h.call(gqd, b(), **{k: v() for k, v in o.items()}, **ap())

    # ---- SDC
    q = "qmat.utils.sdc.solveDahlquistSDC"
    esdc = w.get("qmat.utils.sdc.errorDahlquistSDC")
    base = lambda qd: [h.real("lam", dt="c"), h.real("u0", dt="c"), h.real("tEnd"), h.int("nSteps", 1), h.int("nSweeps", 1), h.qmat(M()), qd()]
    shapes = {"(M+1, M+1)": lambda: (M().lin + 1, M().lin + 1), "(M, M+1)": lambda: (M(), M().lin + 1), "(nSweeps+1, M, M)": lambda: (h.int("nSweeps", 1).lin + 1, M(), M()),
              "(nSweeps, M+1, M+1)": lambda: (h.int("nSweeps", 1), M().lin + 1, M().lin + 1), "(M,)": lambda: (M(),), "(nSweeps+1, M, M) again": lambda: (h.int("nSweeps", 1).lin + 2, M(), M()),
              "(nSweeps, M, M+1)": lambda: (h.int("nSweeps", 1), M(), M().lin + 1)}
    for sn, sh in shapes.items():
        for o in ({}, {"weights": lambda: h.arr("weights", (M(),))}, {"monitors": lambda: h.lst([S_("residuals")])}):
            yield f"solveDahlquistSDC(QDelta {sn}, {sorted(o)})", q, lambda I, sh=sh, o=o: h.call(sdc, *base(lambda: h.arr("QDelta", sh())), **{k: v() for k, v in o.items()})
            if "monitors" not in o: yield f"errorDahlquistSDC(QDelta {sn}, {sorted(o)})", q, lambda I, sh=sh, o=o: h.call(esdc, *base(lambda: h.arr("QDelta", sh())), **{k: v() for k, v in o.items()})
    for mn in ([BAD], ["residuals", BAD], [BAD, "errors"], ["residuals", "errors", BAD], ["Residuals"]):
        for nd in (2, 3):
            for wg in (False, True):
                yield f"solveDahlquistSDC(monitors={mn}, {nd}D, weights={wg})", q, lambda I, mn=mn, nd=nd, wg=wg: h.call(
                    sdc, *base(lambda: h.arr("QDelta", (M(), M()) if nd == 2 else (h.int("nSweeps", 1), M(), M()))), monitors=h.lst([S_(x) for x in mn]), **({"weights": h.arr("weights", (M(),))} if wg else {}))


def show(v):
    if isinstance(v, Const): return repr(v.v)
    return str(v.c) if isinstance(v, Num) else "?"


def scen_gen(h, I):
    g = Obj(scen.OP(h, h.w.get("qmat.qcoeff.QGenerator")), {}, I.epoch)
    M = h.int("M", 2)
    g.attrs.update(_nodes=h.arr("c", (M,), ONE, V0), _w=h.arr("b", (M,), ONE, V0), _Q=h.arr("A", (M, M), ONE, V0, band=FULL), _we=h.arr("b2", (M,), ONE, V0))
    return g


def valid(h, w, tier):
    """(name, site, run): documented values, combined"""
    S_, N = Const, lambda i: Num(c=i)
    lag = w.get("qmat.lagrange.LagrangeApproximation")
    pts = lambda: h.arr("points", (h.int("n", 2),), T1, V1)
    for s in scen.all_scen(h, tier): yield s.name, s.site, s.run
    for wc in ("AUTO", "FAST", "STABLE", "CHEBFUN"):
        for sr in ("MAX", "ZERO"):
            for dup in ("USE_LEFT", "USE_RIGHT"):
                for sc in (False, True):
                    yield f"Lagrange({wc}, {sr}, {dup}, {sc})", lag.qual + ".__init__", lambda I, wc=wc, sr=sr, dup=dup, sc=sc: I.call(lag, [pts()], dict(
                        weightComputation=S_(wc), scaleRef=S_(sr), duplicates=S_(dup), scaleWeights=N(sc), fValues=h.arr("fValues", (h.int("n", 2),))))
    coll = w.get("qmat.qcoeff.collocation.Collocation")
    for nt in NODE_TYPES:
        for qt in QUAD_TYPES:
            for n in (1, 2, 3, 4, 5):
                if n == 1 and qt in ("LOBATTO", "RADAU-LEFT"): continue
                yield f"Collocation({n}, {nt}, {qt})", coll.qual + ".__init__", lambda I, n=n, nt=nt, qt=qt: I.call(coll, [N(n), S_(nt), S_(qt)], {})
    classes = h.names(DPKG + ".QDELTA_GENERATORS")
    for name, (need, inp, al, kdep) in spec.QDELTA.items():
        if name not in classes or not kdep: continue
        for k in (1, 2, 3, 4, 10):
            yield f"{name}.getQDelta({k})", h.site_of(classes[name], "computeQDelta"), lambda I, name=name, k=k: h.meth(h.make(classes[name], h.int("M", 2), h.time("tLeft")), "getQDelta", N(k))


def check(w, rep, tier):
    h, I = H(w), w.I
    full = tier != "quick"
    n = 16 if not full else 64
    for name, site, run in w.share(invalid(h, w, full)):
        got = 0
        for p in w.explore(run, max_paths=n):
            got += 1
            if p.kind == "abort": rep.und("rejected", name, p.why)
            elif p.kind == "raise":
                rep.ok("rejected", name)
            else: rep.bad("rejected", site, f"{name} is accepted: returns {p.value!r:.80}", path=p.desc())
    for name, site, run in w.share(valid(h, w, tier)):
        good, bad = 0, []
        for p in w.explore(run, max_paths=n):
            if p.kind == "abort": rep.und("accepted", name, p.why)
            elif p.kind == "ok": good += 1
            elif p.excname() in NUM_EXC: continue
            else: bad.append(p)
        if good: rep.ok("accepted", name)
        for p in bad:
            # only a rejection decided by sizes or options counts: a test on computed numbers may be unreachable
            data = any(not dk(d) for d, o, s in p.decisions)
            if not good and not w.truncated or not data: rep.bad("accepted", site, f"{name} raises {p.excname()} at {p.exc.site}", path=p.desc())
            else:
                adm = [teval.admits(p.events, e) for e in sem.models() if e["M"] > 1]
                if True in adm: rep.bad("accepted", site, f"{name} raises {p.excname()} at {p.exc.site} (in a model of the symbols)", path=p.desc())
                elif None not in adm: rep.ok("accepted", name)
                else: rep.und("accepted", name, f"{p.excname()} at {p.exc.site} behind a test on computed values")


def dk(d):
    """the decision is about sizes / options"""
    d = str(d)
    return not d or d.startswith("cond eq0(") and not any(t in d for t in ("el(", "unique", "nodes", "points", "f(")) and d.count("(") <= 3
