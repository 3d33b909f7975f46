"""Entry points as (construct, call) pairs, and reachability of array buffers, for the aliasing and non-interference rules."""
from .h import *
from . import spec, scen


class Entry:
    """make(I) -> subject (or None); call(I, subject, tag) -> result; tag distinguishes the arguments of different calls"""
    def __init__(self, name, site, make, call, persistent=True):
        self.name, self.site, self.make, self.call, self.persistent = name, site, make, call, persistent


def reach(v, path="", out=None, seen=None):
    """{buffer id: access path} of every array reachable from a value"""
    out = {} if out is None else out
    seen = set() if seen is None else seen
    if v is None or id(v) in seen: return out
    seen.add(id(v))
    if isinstance(v, Arr): out.setdefault(v.buf, path)
    elif isinstance(v, Tup):
        for i, x in enumerate(v.items): reach(x, f"{path}[{i}]", out, seen)
    elif isinstance(v, Lst):
        for i, s in enumerate(v.segs): reach(s.val, f"{path}[{i}]", out, seen)
    elif isinstance(v, Dct):
        for k, (_, x) in v.d.items(): reach(x, f"{path}[{k[1] if isinstance(k, tuple) else k}]", out, seen)
    elif isinstance(v, Obj):
        for k, x in v.attrs.items(): reach(x, f"{path}.{k}", out, seen)
    elif isinstance(v, Func):
        for k, x in (getattr(v, "attrs", None) or {}).items(): reach(x, f"{path}.{k}", out, seen)
        for x in closure_values(v): reach(x, f"{path}<closure>", out, seen)
    elif isinstance(v, Cls):
        for k, x in v.ns.items(): reach(x, f"{v.name}.{k}", out, seen)
    return out


def import_bufs(w):
    out, seen = {}, set()
    for n, m in w.I.modules.items():
        if not n.startswith("qmat"): continue
        for k, v in m.ns.items():
            if isinstance(v, Mod): continue
            reach(v, f"{n}.{k}", out, seen)
    return out


def arrays(v): return [(p, x) for p, x in leaves(v) if isinstance(x, Arr)]


def entries(h, tier):
    w = h.w
    full = tier != "quick"
    gq = w.get(QPKG + ".genQCoeffs")
    gqd = w.get(DPKG + ".genQDeltaCoeffs")
    colc = w.get("qmat.qcoeff.collocation.Collocation")
    # ---- Q generators
    gens = [("Collocation(LEGENDRE,RADAU-RIGHT)", "Collocation", colc, lambda I: h.coll(h.int("M", 2), "LEGENDRE", "RADAU-RIGHT", h.time("tLeft"), h.time("tRight")),
             lambda: dict(nNodes=h.int("M", 2), nodeType=Const("LEGENDRE"), quadType=Const("RADAU-RIGHT")), (False,))]
    if not full:
        gens += [("Collocation(EQUID,LOBATTO)", "Collocation", colc, lambda I: h.coll(h.int("M", 2), "EQUID", "LOBATTO", h.time("tLeft"), h.time("tRight")),
                  lambda: dict(nNodes=h.int("M", 2), nodeType=Const("EQUID"), quadType=Const("LOBATTO")), (False,))]
    else:
        gens += [(f"Collocation({n},{q})", "Collocation", colc, lambda I, n=n, q=q: h.coll(h.int("M", 2), n, q, h.time("tLeft"), h.time("tRight")),
                  lambda n=n, q=q: dict(nNodes=h.int("M", 2), nodeType=Const(n), quadType=Const(q)), (False,)) for n in ("EQUID", "CHEBY-2") for q in QUAD_TYPES]
    for n, c in h.rks().items():
        emb = isinstance(c.lookup("b2")[0], Arr)
        gens.append((n, n, c, lambda I, c=c: I.call(c, [], {}), lambda: {}, (False, True) if emb else (False,)))
        if n in ("RK4", "CashKarp") or full:
            for pad in ("LEFT", "RIGHT", "BOTH"):
                gens.append((f"{n}(padding={pad})", n, c, lambda I, c=c, pad=pad: I.call(c, [], {"padding": Const(pad)}), lambda pad=pad: {"padding": Const(pad)}, (False, True) if emb else (False,)))
    rkc = w.get("qmat.qcoeff.QGenerator")

    def opq(I):
        g = Obj(scen.OP(h, rkc), {}, I.epoch)
        M = h.int("M", 2)
        g.attrs.update(_nodes=h.arr("c", (M,), ONE, V0, origin="fresh"), _w=h.arr("b", (M,), ONE, V0, origin="fresh"), _Q=h.arr("A", (M, M), ONE, V0, band=FULL, origin="fresh"), _we=h.arr("b2", (M,), ONE, V0, origin="fresh"))
        return g
    gens.append(("any QGenerator subclass", None, scen.OP(h, rkc), opq, None, (False, True)))
    for nm, reg, c, mk_, par, embs in gens:
        for form in ("Z2N", "N2N"):
            for e in embs:
                for hc in (False, True):
                    kw = lambda form=form, e=e, hc=hc: dict(form=Const(form), hCoeffs=Num(c=hc), embedded=Num(c=e))
                    if (hc and form == "N2N") and not full: continue
                    yield Entry(f"{nm}.genCoeffs({form},hCoeffs={hc},embedded={e})", h.site_of(c, "genCoeffs"), mk_,
                                lambda I, o, tag, kw=kw: h.meth(o, "genCoeffs", **kw()))
                    if reg: yield Entry(f"genQCoeffs({nm},{form},hCoeffs={hc},embedded={e})", QPKG + ".genQCoeffs", None,
                                        lambda I, o, tag, kw=kw, reg=reg, par=par: h.call(gq, Const(reg), **kw(), **par()))
    # ---- Q-Delta generators
    classes = h.names(DPKG + ".QDELTA_GENERATORS")
    for name, (need, inp, aliases, kdep) in spec.QDELTA.items():
        cls = classes.get(name)
        if cls is None: continue
        heavy = name in ("MIN_SR_S", "MIN_SR_FLEX")
        m_ = Num(c=3) if name in spec.TABLES else None

        def mk_(I, cls=cls, m_=m_): return h.make(cls, m_ or h.int("M", 2), h.time("tLeft"))

        def params(inp=inp, m_=m_):
            fp = h.fullparams(m_ or h.int("M", 2), h.time("tLeft"))
            return {n: fp[n]() for n in spec.INPUTS[inp]}
        site = h.site_of(cls, "genCoeffs")
        K = lambda tag: h.int("k" + tag, 1)
        cases = [("genCoeffs(k)", lambda I, o, tag: h.meth(o, "genCoeffs", K(tag))),
                 ("genCoeffs(k,dTau)", lambda I, o, tag: h.meth(o, "genCoeffs", K(tag), dTau=Num(c=True))),
                 ("getQDelta(k)", lambda I, o, tag: h.meth(o, "getQDelta", K(tag))),
                 ("genCoeffs(k,N2N)", lambda I, o, tag: h.meth(o, "genCoeffs", K(tag), form=Const("N2N"))),
                 ("genCoeffs()", lambda I, o, tag: h.meth(o, "genCoeffs")),
                 ("genCoeffs(list)", lambda I, o, tag: h.meth(o, "genCoeffs", h.lst([h.int("k1" + tag, 1), h.int("k2" + tag, 1)]))),
                 ("genCoeffs([k])", lambda I, o, tag: h.meth(o, "genCoeffs", h.lst([h.int("k1" + tag, 1)]))),
                 ("genCoeffs([k],N2N,dTau)", lambda I, o, tag: h.meth(o, "genCoeffs", h.lst([h.int("k1" + tag, 1)]), form=Const("N2N"), dTau=Num(c=True))),
                 ("genCoeffs((k,))", lambda I, o, tag: h.meth(o, "genCoeffs", Tup([h.int("k1" + tag, 1)]))),
                 ("genCoeffs(list,N2N,dTau)", lambda I, o, tag: h.meth(o, "genCoeffs", h.lst([h.int("k1" + tag, 1), h.int("k2" + tag, 1)]), form=Const("N2N"), dTau=Num(c=True))),
                 ("getSDelta(k)", lambda I, o, tag: h.meth(o, "getSDelta", K(tag)))]
        for c, call in (cases if full or not heavy else cases[:3]):
            yield Entry(f"{name}.{c}", site if "getS" not in c and "getQ" not in c else h.site_of(cls, c.split("(")[0]), mk_, call)
        gcases = [("", {}), (",nSweeps=3", {"nSweeps": 3}), (",nSweeps=1", {"nSweeps": 1}), (",nSweeps=1,N2N", {"nSweeps": 1, "form": "N2N"}), (",N2N,dTau", {"form": "N2N", "dTau": True})]
        for c, kw in (gcases if full or not heavy else gcases[:1]):
            yield Entry(f"genQDeltaCoeffs({name}{c})", DPKG + ".genQDeltaCoeffs", None,
                        lambda I, o, tag, kw=kw, params=params, name=name: h.call(gqd, Const(name), **{k: h.s(v) for k, v in kw.items()}, **params()))
        if not heavy or full:
            for N2 in (False, True):
                yield Entry(f"genQDeltaCoeffs([{name}]{',N2N' if N2 else ''})", DPKG + ".genQDeltaCoeffs", None,
                            lambda I, o, tag, params=params, name=name, N2=N2: h.call(gqd, h.lst([Const(name)]), form=Const("N2N" if N2 else "Z2N"), **params()))
            yield Entry(f"genQDeltaCoeffs([{name},{name}],nSweeps=3,dTau)", DPKG + ".genQDeltaCoeffs", None,
                        lambda I, o, tag, params=params, name=name: h.call(gqd, h.lst([Const(name), Const(name)]), nSweeps=Num(c=3), dTau=Num(c=True), **params()))
    # ---- Lagrange and node matrices
    lag = w.get("qmat.lagrange.LagrangeApproximation")
    q = lag.qual
    for wc in ("AUTO", "FAST") if not full else ("AUTO", "FAST", "STABLE", "CHEBFUN"):
        mkl = lambda I, wc=wc: I.call(lag, [h.arr("points", (h.int("n", 2),), T1, V1)], {"weightComputation": Const(wc)})
        tms = lambda tag: h.arr("times" + tag, (h.int("m" + tag, 1),), T1, V1)
        ivs = lambda tag: h.arr("intervals" + tag, (h.int("m" + tag, 1), 2), T1, V1)
        yield Entry(f"Lagrange({wc}).getInterpolationMatrix", q + ".getInterpolationMatrix", mkl, lambda I, o, tag: h.meth(o, "getInterpolationMatrix", tms(tag)))
        yield Entry(f"Lagrange({wc}).getIntegrationMatrix", q + ".getIntegrationMatrix", mkl, lambda I, o, tag: h.meth(o, "getIntegrationMatrix", ivs(tag)))
        for o_ in (1, 2, "ALL"):
            yield Entry(f"Lagrange({wc}).getDerivativeMatrix({o_})", q + ".getDerivativeMatrix", mkl, lambda I, o, tag, o_=o_: h.meth(o, "getDerivativeMatrix", order=h.s(o_)))
        for d in (False,):
            yield Entry(f"Lagrange({wc}).getInterpolationMatrix(nodup)", q + ".getInterpolationMatrix", mkl, lambda I, o, tag: h.meth(o, "getInterpolationMatrix", tms(tag), duplicates=Num(c=False)))
    ng = w.get("qmat.nodes.NodesGenerator")
    for nt in NODE_TYPES:
        for qt in (QUAD_TYPES if full else ("LOBATTO", "GAUSS")):
            yield Entry(f"NodesGenerator({nt},{qt}).getNodes", ng.qual + ".getNodes", lambda I, nt=nt, qt=qt: I.call(ng, [], dict(nodeType=Const(nt), quadType=Const(qt))),
                        lambda I, o, tag: h.meth(o, "getNodes", h.int("M" + tag, 2)))
    sp = w.get("qmat.lagrange.getSparseInterpolationMatrix")
    if sp is not None:
        yield Entry("getSparseInterpolationMatrix", "qmat.lagrange.getSparseInterpolationMatrix", None, lambda I, o, tag: h.call(sp, h.arr("inPoints" + tag, (h.int("n", 3),), T1, V1), h.arr("outPoints" + tag, (h.int("m", 1),), T1, V1), h.int("p", 1)))
    ex = w.get("qmat.utils.num.getExtrapolationMatrix")
    if ex is not None: yield Entry("getExtrapolationMatrix", "qmat.utils.num.getExtrapolationMatrix", None, lambda I, o, tag: h.call(ex, h.nodes(h.int("n", 2), "nodes" + tag), h.arr("times" + tag, (h.int("m", 1),), T1, V1)))
    ldu = w.get("qmat.utils.num.lduFactorization")
    if ldu is not None: yield Entry("lduFactorization", "qmat.utils.num.lduFactorization", None, lambda I, o, tag: h.call(ldu, h.arr("A" + tag, (h.int("M", 2), h.int("M", 2)), T1, V0, band=FULL)))
    fj = w.get("qmat.lagrange.computeFejerRule")
    if fj is not None: yield Entry("computeFejerRule", "qmat.lagrange.computeFejerRule", None, lambda I, o, tag: h.call(fj, h.int("n" + tag, 1)))
