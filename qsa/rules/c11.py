"""C11: the value numbers of the matrices produced for iteration k through every entry point are compared with those of the
approximation itself at that k; the node-to-node form must be the row-difference operator applied to the zero-to-node form."""
from ..h import *
from .. import spec, sem
from ..rows import vsubst, rowlin, Unk
import numpy as np

JOBS = 8
HEAVY = ("MIN_SR_S", "MIN_SR_FLEX")


def closed(v):
    """no unmodelled part in the value"""
    if v is None: return False
    for x in vsubterms(v):
        k = VN.rev[x]
        if k[0] == "atom" and str(k[1]).startswith("fresh"): return False
    return True


def vals(w, run, n=16):
    """({value number: path}, exceptions, aborted)"""
    out, exc, ab = {}, {}, None
    for p in w.explore(run, max_paths=n):
        if p.kind == "abort": ab = p.why
        elif p.kind == "raise":
            if p.excname() not in spec.DATA_EXC: exc[p.excname()] = p.desc()
        elif isinstance(p.value, (Arr, Num)):
            w.I.refresh(p.value) if isinstance(p.value, Arr) else None
            out[p.value.vid] = (p.desc(), p.events)
        else: ab = f"result {type(p.value).__name__}"
    return out, exc, ab


class Ctx:
    def __init__(self, w, rep, h): self.w, self.rep, self.h, self.cache = w, rep, h, {}

    def ref(self, key, run):
        if key not in self.cache: self.cache[key] = vals(self.w, run)
        return self.cache[key]

    def same(self, rule, name, site, got, ref, what, sub=None):
        g, ge, ga = got
        r, re_, ra = ref
        if ga or ra: self.rep.und(rule, name, ga or ra); return
        for e, d in ge.items():
            if e not in re_: self.rep.bad(rule, site, f"{name}: {what} raises {e}", path=d)
        if sub: g = {vsubst(v, sub) if v is not None else None: d for v, d in g.items()}
        if not g and not ge: self.rep.und(rule, name, "no result")
        for v, (d, ev) in g.items():
            if v in r: self.rep.ok(rule, name); continue
            eq = [sem.equal(v, x, conds=[ev, ex]) for x, (_, ex) in r.items()]
            if True in eq: self.rep.ok(rule, name)
            elif None in eq: self.rep.und(rule, name, "symbolic results not comparable")
            elif v is None or not closed(v) or not all(closed(x) for x in r) or self.w.truncated: self.rep.und(rule, name, "unmodelled part in the value")
            else: self.rep.bad(rule, site, f"{name}: {what} is {vshow(v, 4)[:160]} instead of {vshow(next(iter(r), None), 4)[:160] if r else re_}", path=d)


def check(w, rep, tier):
    h, I = H(w), w.I
    c = Ctx(w, rep, h)
    classes = h.names(DPKG + ".QDELTA_GENERATORS")
    gen = w.get(DPKG + ".genQDeltaCoeffs")
    base = w.get(DPKG + ".QDeltaGenerator")
    gsite = DPKG + ".genQDeltaCoeffs"
    full = tier != "quick"
    N = lambda i: Num(c=i)
    K = lambda: h.int("k", 1)
    forms = {"Z2N": "getQDelta", "N2N": "getSDelta"}
    insts = []
    for name, (need, inp, aliases, kdep) in spec.QDELTA.items():
        if name not in classes: continue
        for qt in (QUAD_TYPES if inp == "dist" and name not in spec.TABLES and full else ["RADAU-RIGHT"]): insts.append((name, qt))

    def size(name): return Num(c=3) if name in spec.TABLES else h.int("M", 2)

    def params(name, qt, M=None):
        fp = h.fullparams(M or size(name), h.time("tLeft"), quadType=qt)
        return {n: fp[n]() for n in spec.INPUTS[spec.QDELTA[name][1]]}

    def allparams(qt="RADAU-RIGHT"):
        return {n: f() for n, f in h.fullparams(h.int("M", 2), h.time("tLeft"), quadType=qt).items()}

    def make(name, qt, M=None): return h.make(classes[name], M or size(name), h.time("tLeft"), quadType=qt)

    def scalar(name, qt, form, k, fresh=make):
        """reference: the class itself at iteration k"""
        kv = (lambda: K()) if k == "k" else (lambda: N(k))
        return c.ref((name, qt, form, k), lambda I: h.meth(fresh(name, qt), forms[form], kv()))

    for name, qt in w.share(insts):
        cls = classes[name]
        kdep = spec.QDELTA[name][3]
        heavy = name in HEAVY and not full
        site = h.site_of(cls, "computeQDelta")
        lbl = name + ("" if len(QUAD_TYPES) == 1 or qt == "RADAU-RIGHT" else f"({qt})")
        # -- computeQDelta(k) is what getQDelta(k) hands out, for any k, copied or not
        raw = {}
        for k in ("k", 1, 2, 3):
            kv = (lambda: K()) if k == "k" else (lambda k=k: N(k))
            raw[k] = vals(w, lambda I: h.meth(make(name, qt), "computeQDelta", kv()))
            for nm, run in [("getQDelta(k)", lambda I: h.meth(make(name, qt), "getQDelta", kv())),
                            ("getQDelta(k, copy=False)", lambda I: h.meth(make(name, qt), "getQDelta", kv(), copy=N(False)))][:1 if heavy else 2]:
                c.same("compute", f"{lbl}.{nm}, k={k}", h.site_of(cls, "getQDelta"), vals(w, run), raw[k], "the matrix handed out")
        # -- the mark
        flag = vals(w, lambda I: h.meth(make(name, qt), "isKDependent"))
        marks = {visconst(v) for v in flag[0] if v is not None}
        if len(marks) == 1 and None not in marks:
            m = bool(next(iter(marks)))
            rep.check("mark", lbl, m == kdep, f"{lbl}.isKDependent() is {m}, the approximation is documented as {'' if kdep else 'not '}iteration-dependent",
                      construct=h.site_of(cls, "computeQDelta"))
            ks = VN.mk(("sym", "k"))
            if raw["k"][0] and not raw["k"][2]:
                # paths that split on k
                dec = False
                for p in w.explore(lambda I: h.meth(make(name, qt), "computeQDelta", K()), max_paths=16):
                    if p.kind == "ok" and isinstance(p.value, (Arr, Num)):
                        if "k" in p.value.deps or (p.value.vid is not None and ks in vsubterms(p.value.vid)): dec = True
                if m: rep.check("varies", lbl, dec or len(raw["k"][0]) > 1, f"{lbl} is marked iteration-dependent, its matrix does not depend on k", construct=site)
                else: rep.check("constant", lbl, not (dec and all(closed(v) for v in raw["k"][0])) if not dec or all(closed(v) for v in raw["k"][0]) else None,
                                f"{lbl} is not marked iteration-dependent, its matrix depends on k", construct=site)
        else: rep.und("mark", lbl, flag[2] or "value")
        if kdep:
            for nm, run in [(f"{mt}(k)", lambda I, mt=mt: h.meth(make(name, qt), mt, K())) for mt in forms.values()] + [
                    (f"genCoeffs(k, {f})", lambda I, f=f: h.meth(make(name, qt), "genCoeffs", K(), form=Const(f))) for f in forms]:
                dec, n = False, 0
                for p in w.explore(run, max_paths=16):
                    if p.kind == "ok" and isinstance(p.value, (Arr, Num)): n += 1; dec = dec or "k" in p.value.deps or len(p.decisions) > 0 and "k" in p.desc()
                rep.check("varies", lbl, None if not n else dec, f"{lbl}.{nm} does not depend on k", construct=h.site_of(cls, nm.split("(")[0]))
        # -- omitting k
        for form, mt in forms.items():
            one = scalar(name, qt, form, 1)
            for nm, run in [(f"{mt}()", lambda I: h.meth(make(name, qt), mt)), (f"genCoeffs(form={form})", lambda I: h.meth(make(name, qt), "genCoeffs", form=Const(form))),
                            (f"genQDeltaCoeffs({name}, form={form})", lambda I: h.call(gen, Const(name), form=Const(form), **params(name, qt)))]:
                if heavy and form == "N2N": continue
                c.same("default-k", f"{lbl}: {nm}", site if mt in nm else h.site_of(cls, "genCoeffs"), vals(w, run), one, "the matrix without iteration number")
        # -- genCoeffs with scalars and lists
        for form, mt in forms.items():
            for k in ("k", 2) if not heavy else (2,):
                kv = (lambda: K()) if k == "k" else (lambda k=k: N(k))
                ref = scalar(name, qt, form, k)
                c.same("scalar-k", f"{lbl}.genCoeffs({k}, {form})", h.site_of(cls, "genCoeffs"), vals(w, lambda I: h.meth(make(name, qt), "genCoeffs", kv(), form=Const(form))), ref, f"the matrix of iteration {k}")
            for ks in ((1, 2), (3, 1, 1), (2,)) if not heavy else (((2, 1),) if form == "Z2N" else ()):
                for j, k in enumerate(ks):
                    c.same("list-k", f"{lbl}.genCoeffs({list(ks)}, {form})[{j}]", h.site_of(cls, "genCoeffs"),
                           vals(w, lambda I: I.getitem(h.meth(make(name, qt), "genCoeffs", h.lst([N(x) for x in ks]), form=Const(form)), N(j))), scalar(name, qt, form, k), f"entry {j}")
                    if (full or ks == (3, 1, 1)) and not heavy:
                        c.same("list-k", f"{lbl}.genCoeffs({list(ks)}, {form}, dTau)[{j}]", h.site_of(cls, "genCoeffs"),
                               vals(w, lambda I: I.getitem(I.getitem(h.meth(make(name, qt), "genCoeffs", h.lst([N(x) for x in ks]), form=Const(form), dTau=N(True)), N(0)), N(j))), scalar(name, qt, form, k), f"entry {j}")
            # any iteration number
            if not heavy:
                got = vals(w, lambda I: I.getitem(h.meth(make(name, qt), "genCoeffs", h.lst([K()]), form=Const(form)), N(0)))
                c.same("list-k", f"{lbl}.genCoeffs([k], {form})[0]", h.site_of(cls, "genCoeffs"), got, scalar(name, qt, form, "k"), "the entry")
                got = vals(w, lambda I: I.getitem(h.meth(make(name, qt), "genCoeffs", Tup([N(2), K()]), form=Const(form)), N(1)))
                c.same("list-k", f"{lbl}.genCoeffs((2, k), {form})[1]", h.site_of(cls, "genCoeffs"), got, scalar(name, qt, form, "k"), "the entry")
        # -- several sweeps through the generic function
        for form, mt in forms.items():
            if heavy and form == "N2N": continue
            for n in (1, 2, 3) if not heavy else (2,):
                for j in range(n):
                    for dt in (False, True) if not heavy else (False,):
                        def run(I, n=n, j=j, dt=dt):
                            r = h.call(gen, Const(name), nSweeps=N(n), form=Const(form), dTau=N(dt), **params(name, qt))
                            return I.getitem(I.getitem(r, N(0)) if dt else r, N(j))
                        c.same("sweeps", f"genQDeltaCoeffs({lbl}, nSweeps={n}, {form}, dTau={dt})[{j}]", gsite, vals(w, run), scalar(name, qt, form, j + 1), f"sweep {j}")
            if not heavy:
                got = vals(w, lambda I: h.call(gen, Const(name), nSweeps=h.int("nSweeps", 1), form=Const(form), **params(name, qt)))
                symbolic_sweeps(c, f"genQDeltaCoeffs({lbl}, nSweeps, {form})", gsite, got, scalar(name, qt, form, "k"), scalar(name, qt, form, 1))
        # -- node-to-node form
        sizes = (3,) if name in spec.TABLES else (1, 2, 3, 4) if not heavy else (3,)
        for m in sizes:
            for k in (1, 2) if kdep else (1,):
                keep = {}

                def both(I):
                    g = make(name, qt, N(m))
                    keep["q"] = h.meth(g, "getQDelta", N(k))
                    return h.meth(g, "getSDelta", N(k))
                if m == 1 and qt == "LOBATTO": continue
                for p in w.explore(both, max_paths=8):
                    if p.kind != "ok": 
                        if p.kind == "abort": rep.und("difference", lbl, p.why)
                        continue
                    q, s = keep["q"], p.value
                    I.refresh(q); I.refresh(s)
                    want = np.eye(m) - np.eye(m, k=-1)
                    try:
                        if q.const is not None and s.const is not None:
                            ok = bool(np.allclose(np.asarray(s.const, float), want @ np.asarray(q.const, float), rtol=1e-13, atol=1e-13))
                        else:
                            X, f = q.vid, 1.0
                            lk = VN.rev[X]
                            if lk[0] == "lin" and len(lk[1]) == 1 and lk[2] == 0: (X, f), = lk[1]
                            ok = bool(np.allclose(rowlin(s.vid, X, m), float(f) * want))
                    except (Unk, ValueError, IndexError, TypeError) as e: rep.und("difference", lbl, f"node-to-node form: {e}"); continue
                    rep.check("difference", f"{lbl} M={m}", ok, f"{lbl}: with {m} nodes the node-to-node matrix is not the difference of consecutive lines of the zero-to-node matrix",
                              construct=h.site_of(cls, "getSDelta"), path=p.desc())

    # -- lists of approximations
    lists = [(("Jumper", "FlexJumper"), None), (("Jumper", "FlexJumper"), 4), (("LU", "Jumper", "FlexJumper"), 5), (("FlexJumper", "BE"), None), (("Jumper",), 3), (("Jumper",), None),
             (("FlexJumper", "Jumper", "FlexJumper"), 3), (("LU", "LU", "FlexJumper"), None), (("BE", "FE"), 3), (("Jumper", "Jumper"), 2)]
    if full: lists += [((a, b), n) for a in spec.QDELTA for b in spec.QDELTA if a not in HEAVY + spec.TABLES and b not in HEAVY + spec.TABLES and a in classes and b in classes for n in (None, 3)]
    for names, n in w.share(lists):
        if any(x not in classes for x in names): continue
        tot = n or len(names)
        for form in forms:
            for j in range(tot):
                nm = names[min(j, len(names) - 1)]
                for dt in (False, True):
                    def run(I):
                        r = h.call(gen, h.lst([Const(x) for x in names]), form=Const(form), dTau=N(dt), **({} if n is None else {"nSweeps": N(n)}), **allparams())
                        return I.getitem(I.getitem(r, N(0)) if dt else r, N(j))
                    c.same("list-of-names", f"genQDeltaCoeffs({list(names)}, nSweeps={n}, {form}, dTau={dt})[{j}]", gsite, vals(w, run), scalar(nm, "RADAU-RIGHT", form, j + 1), f"sweep {j} ({nm})")
    # any number of sweeps: the last listed approximation is repeated with the number of the sweep
    for names in w.share([("Jumper", "FlexJumper"), ("FlexJumper", "Jumper"), ("LU", "BE", "Jumper"), ("Jumper", "LU")]):
        if any(x not in classes for x in names): continue
        nS = lambda: h.int("nSweeps", len(names) + 1)
        for form in forms:
            call = lambda I: h.call(gen, h.lst([Const(x) for x in names]), form=Const(form), nSweeps=nS(), **allparams())
            for j in range(len(names)):
                c.same("list-of-names", f"genQDeltaCoeffs({list(names)}, any nSweeps, {form})[{j}]", gsite, vals(w, lambda I: I.getitem(call(I), N(j))), scalar(names[j], "RADAU-RIGHT", form, j + 1), f"sweep {j}")
            ref = vals(w, lambda I: h.meth(make(names[-1], "RADAU-RIGHT"), forms[form], nS()))
            c.same("list-of-names", f"genQDeltaCoeffs({list(names)}, any nSweeps, {form})[-1]", gsite, vals(w, lambda I: I.getitem(call(I), Num(lin=nS().lin - 1))), ref, "the last sweep")
    # delta-tau comes from the (first) approximation, whatever the sweeps
    dts = [("BE", None), ("FE", 2), ("TRAP", None), (("FE", "BE"), None), (("TRAP", "LU"), 3), (("LU", "FE"), None), ("SOE", 3), ("LU", 2)]
    for names, n in w.share(dts):
        lst = (names,) if isinstance(names, str) else names
        if any(x not in classes for x in lst): continue
        for form in forms:
            def run(I):
                q = Const(names) if isinstance(names, str) else h.lst([Const(x) for x in names])
                return I.getitem(h.call(gen, q, form=Const(form), dTau=N(True), **({} if n is None else {"nSweeps": N(n)}), **allparams()), N(1))
            ref = c.ref((lst[0], "dTau"), lambda I: h.attr(make(lst[0], "RADAU-RIGHT"), "dTau"))
            c.same("dtau", f"genQDeltaCoeffs({names}, nSweeps={n}, {form}, dTau=True)", gsite, vals(w, run), ref, f"delta-tau (of {lst[0]})")
            if isinstance(names, str):
                for k in (None, 2, (1, 2)):
                    def run(I):
                        a = [] if k is None else [N(k)] if isinstance(k, int) else [h.lst([N(x) for x in k])]
                        return I.getitem(h.meth(make(names, "RADAU-RIGHT"), "genCoeffs", *a, form=Const(form), dTau=N(True)), N(1))
                    c.same("dtau", f"{names}.genCoeffs({k}, {form}, dTau=True)", h.site_of(classes[names], "genCoeffs"), vals(w, run), ref, "delta-tau")


def symbolic_sweeps(c, name, site, got, ref, ref1):
    """array(n, entry) with the entry a function of the position: entry = reference at k = position + 1"""
    g, ge, ga = got
    r, re_, ra = ref
    if ga or ra: c.rep.und("sweeps", name, ga or ra); return
    for e, d in ge.items():
        if e not in re_: c.rep.bad("sweeps", site, f"{name} raises {e}", path=d)
    for v, (d, ev) in g.items():
        k = VN.rev[v] if v is not None else None
        if k is None or k[0] != "op" or k[1] != "array" or len(k) != 4: c.rep.und("sweeps", name, "result is not a list of sweeps"); continue
        e = k[3]
        pos = [x for x in vsubterms(e) if VN.rev[x][0] == "sym" and VN.rev[x][1].startswith("i@") and "[nSweeps" in VN.rev[x][1]]
        if len(pos) > 1 or not closed(e): c.rep.und("sweeps", name, "position not identified"); continue
        ks = VN.mk(("sym", "k"))
        want = set(r) | ({vsubst(x, {ks: vadd(pos[0], V1)}) for x in r} if pos else set())
        if not pos: want |= set(ref1[0])
        if e in want: c.rep.ok("sweeps", name)
        elif pos and any(sem.equal(vsubst(e, {pos[0]: vadd(ks, VN.mk(("const", "int", "-1")))}), x, conds=[ev]) for x in r): c.rep.ok("sweeps", name)
        elif pos and None in [sem.equal(vsubst(e, {pos[0]: vadd(ks, VN.mk(("const", "int", "-1")))}), x, conds=[ev]) for x in r]: c.rep.und("sweeps", name, "symbolic results not comparable")
        elif not all(closed(x) for x in r): c.rep.und("sweeps", name, "unmodelled part in the value")
        else: c.rep.bad("sweeps", site, f"{name}: sweep i+1 uses {vshow(e, 4)[:160]} instead of {vshow(next(iter(want)), 4)[:160]}", path=d)
