"""C17: the catalogue of entry points is interpreted with float arrays, with integer arrays and with (nested) lists: same
symbolic results, no store of fractional values into integer storage, no error that float arrays do not give."""
from ..h import *
from .. import scen, heap, spec, sem

# documented as numpy arrays only
ARRAY_ONLY = ("sdc", "dahl", "sparse", "ldu", "num")

JOBS = 8


class Mode:
    def __init__(self, h, dt, lst, ints, fl=False): self.h, self.v = h, (dt, lst, ints, fl)
    def __enter__(self):
        self.old = (self.h.force_dt, self.h.as_list, self.h.force_all, self.h.float_scalars); self.h.force_dt, self.h.as_list, self.h.force_all, self.h.float_scalars = self.v
    def __exit__(self, *a): self.h.force_dt, self.h.as_list, self.h.force_all, self.h.float_scalars = self.old


def subjects(h, tier):
    for s in scen.all_scen(h, tier):
        yield s.name, s.site, s.run, s.group
    for n, site, run, g in extra(h, tier): yield n, site, run, g


def extra(h, tier):
    w = h.w
    lag = w.get("qmat.lagrange.LagrangeApproximation")
    for wc in ("AUTO", "STABLE", "CHEBFUN"):
        for sc in (False, True):
            yield f"Lagrange({wc},scale={sc}).weights", lag.qual + ".__init__", lambda I, wc=wc, sc=sc: h.attr(
                I.call(lag, [h.arr("points", (h.int("n", 2),), T1, V1)], {"weightComputation": Const(wc), "scaleWeights": Num(c=sc)}), "weights"), "lagrange"
    yield "Lagrange(fValues)", lag.qual + ".__call__", lambda I: h.call(
        I.call(lag, [h.arr("points", (h.int("n", 2),), T1, V1)], {"fValues": h.arr("fValues", (h.int("n", 2),))}), h.arr("times", (h.int("m", 1),), T1, V1)), "lagrange"
    for nm, cls in h.names(DPKG + ".QDELTA_GENERATORS").items():
        if cls.name != nm or nm not in spec.QDELTA or spec.QDELTA[nm][1] == "dist": continue
        for a in ("dTau", "size", "zeros"):
            yield f"{nm}.{a}", h.site_of(cls, a), lambda I, cls=cls, a=a: h.attr(h.make(cls, h.int("M", 2), h.time("tLeft")), a), "qdelta"


def outcome(w, h, run, mode, n):
    """(paths that return: {decisions: results}, exceptions, truncations, undecided)"""
    res, exc, tr, und = {}, {}, {}, None
    with mode:
        for p in w.explore(run, max_paths=n):
            for e in p.events:
                if e["kind"] == "trunc":
                    site = (e["stack"][-1] if e.get("stack") else "") or ""
                    tr.setdefault((site, e["what"], e.get("site")), p.desc())
            if p.kind == "abort": und = p.why; continue
            if p.kind == "raise":
                exc.setdefault((p.excname(), str(p.exc.site)), p.desc()); continue
            k = tuple((a, getattr(x, "vid", None), None) for a, x in leaves(p.value))
            res.setdefault(k, (p.desc(), p.events))
    return res, exc, tr, und


def judge(rep, name, site, what, k, base, d, integer):
    """a result with another symbolic value: the same function of the inputs all the same?"""
    verdicts = []
    for b in base:
        if [a for a, *_ in b] != [a for a, *_ in k]: verdicts.append(None); continue
        eq = [sem.equal(x[1], y[1], integer, [d[1], base[b][1]]) for x, y in zip(k, b)]
        verdicts.append(False if False in eq else None if None in eq else True)
    if True in verdicts: rep.ok("same-result", name)
    elif len(base) == 1 and verdicts == [False]: rep.bad("same-result", site, f"{name} with {what}: the result is another function of the inputs ({vshow(k[0][1], 4)[:160]})", path=d[0])
    else: rep.und("same-result", name, f"{what}: symbolic results differ")


def check(w, rep, tier):
    h = H(w)
    n = 16 if tier == "quick" else 64
    for name, site, run, group in w.share(subjects(h, tier)):
        base = outcome(w, h, run, Mode(h, None, False, False), n)
        if base[3] is not None: rep.und("float", name, base[3]); continue
        fexc = {e for e, _ in base[1]}
        modes = [("integer arrays and integer scalars", Mode(h, "i", False, False)), ("integer arrays", Mode(h, "i", False, False, True))]
        if group in ("sdc", "dahl"): modes.append(("integers everywhere", Mode(h, "i", False, True)))
        if group not in ARRAY_ONLY: modes += [("lists", Mode(h, None, True, False)), ("lists of integers", Mode(h, "i", True, False)), ("lists of integers and float scalars", Mode(h, "i", True, False, True))]
        for what, mode in modes:
            res, exc, tr, und = outcome(w, h, run, mode, n)
            if und is not None: rep.und("same", name, und); continue
            for (st, op, where), d in tr.items():
                if (st, op, where) in base[2]: continue
                rep.bad("truncation", st or site, f"{name} with {what}: fractional values are truncated ({op}) at {where}", path=d)
            if not tr: rep.ok("truncation", name)
            for (e, where), d in exc.items():
                if e in fexc or e in spec.DATA_EXC: continue
                rep.bad("same-errors", site, f"{name} with {what} raises {e} at {where}, float arrays do not", path=d)
            if not [1 for (e, _) in exc if e not in fexc]: rep.ok("same-errors", name)
            if w.truncated and not (set(res) & set(base[0])): rep.und("same-result", name, "paths not comparable"); continue
            for k in res:
                if k in base[0]: rep.ok("same-result", name)
                else: judge(rep, name, site, what, k, base[0], res[k], "integer" in what)
