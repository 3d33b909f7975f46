"""C10: what each published name resolves to, by interpreting the registration code of the package on the source tree."""
import json, os
from ..h import *
from .. import heap, spec, tables
import numpy as np

GOLD = json.load(open(os.path.join(os.path.dirname(os.path.dirname(__file__)), "names.json")))
QREG, RKREG, DREG = QPKG + ".Q_GENERATORS", "qmat.qcoeff.butcher.RK_SCHEMES", DPKG + ".QDELTA_GENERATORS"
TOL = 2e-9


def kinds(w, run, n=16): return [(p.kind, p.excname() if p.kind == "raise" else None, p.desc()) for p in w.explore(run, max_paths=n)]


def check(w, rep, tier):
    h, I = H(w), w.I
    for m, why in w.import_errors.items():
        if why.startswith("abort"): rep.und("import", m, why)
        else: rep.bad("import", m, f"importing {m} fails: {why}")
    regs = {}
    for reg, want in GOLD["registries"].items():
        d = w.get(reg)
        if not isinstance(d, Dct): rep.und("registry", reg, "registry is not a dictionary"); continue
        have = h.names(reg)
        regs[reg] = have
        for n, c in want.items():
            g = have.get(n)
            rep.check("name", f"{reg}[{n}]", g is not None and g.name == c, f"{reg}[{n!r}] is {g.name if g is not None else 'not registered'}, the name stands for {c}", construct=reg)
    # package-level names
    for n, target in (("genQCoeffs", QPKG + ".genQCoeffs"), ("genQDeltaCoeffs", DPKG + ".genQDeltaCoeffs"), ("Q_GENERATORS", QREG), ("QDELTA_GENERATORS", DREG)):
        a, b = w.get("qmat." + n), w.get(target)
        rep.check("package-name", "qmat." + n, a is not None and a is b, f"qmat.{n} is not {target}", construct="qmat")
    # names resolve through the generic functions to an instance of that class
    gq, gqd = w.get(QPKG + ".genQCoeffs"), w.get(DPKG + ".genQDeltaCoeffs")
    rk = GOLD["registries"][RKREG]
    for n, c in rk.items():
        cls = regs.get(RKREG, {}).get(c)
        if cls is None: continue
        r1 = res(w, lambda I: h.call(gq, Const(n)))
        r2 = res(w, lambda I: h.meth(I.call(cls, [], {}), "genCoeffs"))
        rep.check("generic-function", f"genQCoeffs({n})", None if None in (r1, r2) else r1 == r2, f"genQCoeffs({n!r}) does not give the coefficients of {c}", construct=QPKG + ".genQCoeffs")
    M = lambda: h.int("M", 2)
    for n, c in GOLD["registries"][DREG].items():
        cls = regs.get(DREG, {}).get(c)
        if cls is None or c not in spec.QDELTA: continue
        if c in ("MIN_SR_S", "MIN_SR_FLEX") and tier == "quick": m = Num(c=3)
        else: m = Num(c=3) if c in spec.TABLES else None
        inp = spec.INPUTS[spec.QDELTA[c][1]]
        def params():
            fp = h.fullparams(m or M(), h.time("tLeft"))
            return {k: fp[k]() for k in inp}
        r1 = res(w, lambda I: h.call(gqd, Const(n), **params()))
        r2 = res(w, lambda I: h.meth(I.call(cls, [], params()), "genCoeffs"))
        rep.check("generic-function", f"genQDeltaCoeffs({n})", None if None in (r1, r2) else r1 == r2, f"genQDeltaCoeffs({n!r}) does not give the coefficients of {c}", construct=DPKG + ".genQDeltaCoeffs")
    # Collocation
    c = regs.get(QREG, {}).get("Collocation")
    if c is not None:
        kw = lambda: dict(nNodes=M(), nodeType=Const("LEGENDRE"), quadType=Const("GAUSS"))
        r1, r2 = res(w, lambda I: h.call(gq, Const("Collocation"), **kw())), res(w, lambda I: h.meth(I.call(c, [], kw()), "genCoeffs"))
        rep.check("generic-function", "genQCoeffs(Collocation)", None if None in (r1, r2) else r1 == r2, "genQCoeffs('Collocation') does not give the coefficients of Collocation", construct=QPKG + ".genQCoeffs")
    # the coefficients the names stand for (literature values)
    for n, g in GOLD["rk"].items():
        cls = regs.get(RKREG, {}).get(n)
        if cls is None: continue
        t = tables.read(w, h, cls, what=tuple(k for k in g))
        for k, v in g.items():
            x = t[k]
            if v is None: continue
            if not isinstance(x, np.ndarray): rep.und("coefficients", n, f"{k} not constant"); continue
            y = np.array(v)
            same = x.size == y.size and bool(np.abs(np.ravel(x) - y).max() <= TOL * max(1, np.abs(y).max()))
            rep.check("coefficients", n, same, f"{n}: {k} are not those of the scheme of that name", construct=cls.qual)
    # unknown names
    for f, qual in ((gq, QPKG + ".genQCoeffs"), (gqd, DPKG + ".genQDeltaCoeffs")):
        for bad in ("no-such-scheme", "", "be ", "rk4", "collocation"):
            for ns in ((None, 2) if f is gqd else (None,)):
                ks = kinds(w, lambda I: h.call(f, Const(bad), **({"nSweeps": Num(c=ns)} if ns else {})))
                lbl = f"{qual}({bad!r}{', nSweeps=2' if ns else ''})"
                if any(k[0] == "abort" for k in ks): rep.und("unknown-name", lbl, "no answer"); continue
                rep.check("unknown-name", lbl, all(k[0] == "raise" and k[1] == "ValueError" for k in ks),
                          f"{lbl} gives {sorted({k[1] or 'a result' for k in ks})} instead of ValueError", construct=qual)
        if f is gqd:
            for l in (["no-such-scheme"], ["BE", "no-such-scheme"], ["BE", "no-such-scheme", "BE"]):
                ks = kinds(w, lambda I: h.call(f, h.lst([Const(x) for x in l]), nodes=h.nodes(M()), Q=h.qmat(M())))
                if any(k[0] == "abort" for k in ks): rep.und("unknown-name", str(l), "no answer"); continue
                rep.check("unknown-name", f"{qual}({l})", all(k[0] == "raise" and k[1] == "ValueError" for k in ks),
                          f"{qual}({l}) gives {sorted({k[1] or 'a result' for k in ks})} instead of ValueError", construct=qual)
    # a taken name cannot be registered again
    control = {}
    cases = [(QREG, QPKG + ".register", "RK4"), (DREG, DPKG + ".register", "BE"), (RKREG, "qmat.qcoeff.butcher.registerRK", "RK4")]
    for reg, fn, sample in cases:
        f = w.get(fn)
        have = regs.get(reg, {})
        if not isinstance(f, Func) or sample not in have: rep.und("second-registration", fn, "no registration function"); continue
        def fresh(I):
            src = have[sample]
            ns = dict(src.ns); ns["aliases"] = Lst([Seg(L(1), Const("brand-new-alias"))], I.epoch)
            c = Cls("BrandNewScheme", list(src.bases), ns, src.mod, None, "user.BrandNewScheme", I.epoch, "fresh")
            I.call(f, [c], {})
            return Tup([Const("BrandNewScheme" in h.names(reg)), Const("brand-new-alias" in h.names(reg))])
        ok = [p.kind == "ok" and all(x.v for x in p.value.items) for p in w.explore(fresh, max_paths=8)]
        control[fn] = bool(ok) and any(ok)
        rep.check("new-registration", fn, True if control[fn] else None, "registering a new class is not understood")
        names = sorted(have) if tier == "thorough" else [sample] + [n for n in have if have[n].name != n][:4]
        for n in names:
            for how, where in [(a, b) for a in ("name", "alias", "second-alias") for b in ("same module", "user module")]:
                base = have[n]
                def run(I):
                    src = base
                    cname = n if how == "name" else "BrandNewScheme"
                    al = {"name": [], "alias": [n], "second-alias": ["brand-new-alias", n]}[how]
                    ns = dict(src.ns)
                    ns["aliases"] = Lst([Seg(L(1), Const(x)) for x in al], I.epoch) if al else NONE
                    mod = src.mod if where == "same module" else Mod("user.schemes")
                    ns["__module__"], ns["__qualname__"] = Const(mod.name), Const(cname)
                    c = Cls(cname, list(src.bases), ns, mod, None, "user." + cname, I.epoch, "fresh")
                    return I.call(f, [c], {})
                ks = kinds(w, run)
                lbl = f"{fn} with the taken {how} {n!r} (class of the {where})"
                if not control.get(fn): rep.und("second-registration", lbl, "a new class with new names cannot be registered in the analysis either"); continue
                if any(k[0] == "abort" for k in ks): rep.und("second-registration", lbl, "no answer"); continue
                rep.check("second-registration", lbl, all(k[0] == "raise" for k in ks), f"{lbl} is accepted: two implementations compete for the name", construct=fn)
    # listing
    gc = w.get("qmat.utils.getClasses")
    for reg in (QREG, RKREG, DREG):
        d = w.get(reg)
        if gc is None or not isinstance(d, Dct): continue
        for p in w.explore(lambda I: h.call(gc, d), max_paths=8):
            if p.kind == "abort": rep.und("listing", reg, p.why); continue
            if p.kind == "raise": rep.bad("listing", "qmat.utils.getClasses", f"getClasses({reg}) raises {p.excname()}"); continue
            v = p.value
            if not isinstance(v, Dct): rep.und("listing", reg, "not a dictionary"); continue
            got = [x for _, x in v.d.values()]
            want = {id(c): c for c in regs[reg].values()}
            rep.check("listing", reg, len(got) == len({id(c) for c in got}) and {id(c) for c in got} == set(want),
                      f"getClasses({reg}) lists {len(got)} classes ({len({id(c) for c in got})} distinct), registered: {len(want)}", construct="qmat.utils.getClasses")
            keys = [k[1] for k in v.d]
            rep.check("listing-names", reg, all(regs[reg].get(k) is x for k, (_, x) in zip(keys, v.d.values())), f"getClasses({reg}): a key does not stand for its class", construct="qmat.utils.getClasses")


def res(w, run):
    """set of symbolic results over the paths that return (None when unknown)"""
    out = set()
    for p in w.explore(run, max_paths=24):
        if p.kind == "abort": return None
        if p.kind == "raise": continue
        out.add(tuple((a, getattr(x, "vid", None)) for a, x in leaves(p.value)))
    return frozenset(out) or None
