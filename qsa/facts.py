"""Verdicts on unit / time-shift facts of a result."""
from .h import *
from .rules.c16 import pick
from . import spec
from .core import _mono as core_mono


def fof(I, v):
    if isinstance(v, Num): return v.f
    if isinstance(v, Arr): I.refresh(v); return v.f
    return None


def unit_verdict(f, want):
    u = f.unit
    if isinstance(u, Mix): return False, f"inconsistent physical dimension: {u.why} @ {u.site}"
    if u is None: return None, "unit unknown"
    if u is ANY or u == want: return True, ""
    return False, f"scales as {ushow(u)} instead of {ushow(want)}"


def definite_nonzero(a):
    """the shift weight is certainly not identically zero: a constant, or one monomial of inputs and identity/ones factors"""
    c = visconst(a)
    if c is not None: return c != 0
    c, m = core_mono(a)
    if c == 0: return None
    for b in m:
        k = VN.rev[b]
        if k[0] == "atom" and not str(k[1]).startswith("fresh"): continue
        if k[0] == "op" and k[1] in ("eye", "ones"): continue
        return None
    return True


def aff_verdict(f, want):
    a = f.aff
    if isinstance(a, Mix): return False, f"mixes time points and durations: {a.why} @ {a.site}"
    if a is None: return None, "shift weight unknown"
    if f.unit is ANY: return True, ""
    if want == V0:
        if a is ANEU or a == V0: return True, ""
        r = definite_nonzero(a)
        if r: return False, f"depends on the time origin (moves by {vshow(a)} x shift)"
        return None, "shift weight symbolic"
    if a == want: return True, ""
    if a is ANEU: return None, "zero fill"
    c = visconst(a)
    if c is not None: return False, f"moves by {vshow(a)} x shift of the interval instead of {vshow(want)}"
    return None, "shift weight symbolic"


def check_facts(w, h, rep, scens, max_paths=16, units=True, affs=True, skip=None, branches=True):
    I = w.I
    for s in w.share(scens):
        if all(e[2] is None and e[3] is None for e in s.expect): continue
        got = False
        for p in w.explore(s.run, max_paths=max_paths):
            if p.kind == "abort": rep.und("facts", s.name, p.why); continue
            if p.kind != "ok": continue
            if "special-value" in p.flags: continue
            if skip is not None and skip(s, p): continue
            got = True
            if branches: branch_check(rep, s, p, units and any(e[2] is not None for e in s.expect), affs and any(e[3] is not None for e in s.expect))
            for path, want, u, a in s.expect:
                v = pick(p.value, path)
                if v is None or isinstance(v, str): rep.und("facts", s.name, "no value"); continue
                f = fof(I, v)
                if f is None:
                    if isinstance(v, Const): continue
                    rep.und("facts", s.name, "no facts"); continue
                if units and u is not None:
                    r, d = unit_verdict(f, u)
                    rep.check("scaling", s.name, r, f"{s.name}{path}: {d}" if r is False else d, construct=s.site, path=p.desc())
                if affs and a is not None:
                    r, d = aff_verdict(f, a)
                    rep.check("shift", s.name, r, f"{s.name}{path}: {d}" if r is False else d, construct=s.site, path=p.desc())
        if not got: rep.und("no-result", s.name, "no path returns")


def weights_unit(w):
    """barycentric weights get a unit W of their own: results must not depend on their common scaling"""
    I = w.I
    cls = w.get("qmat.lagrange.LagrangeApproximation")
    if not isinstance(cls, Cls): return
    init = cls.lookup("__init__")[0]
    if not isinstance(init, Func): return

    def hook(I, fn, args, kwargs):
        r = I.call_func(fn, args, kwargs, nohook=True)
        o = args[0]
        a = o.attrs.get("weights") if isinstance(o, Obj) else None
        if isinstance(a, Arr):
            I.refresh(a)
            old = a.f
            I.undo.append(lambda a=a, old=old: setattr(a, "f", old))
            a.f = old.with_(unit=unit(W=1), aff=V0)
            if a.segs:
                olds = a.segs
                I.undo.append(lambda a=a, old=olds: setattr(a, "segs", old))
                a.segs = None
            a.ver = newid()
        return r
    I.hooks[init.qual] = hook


def branch_check(rep, s, p, units=True, affs=True):
    """a decision of the code compares quantities of different dimension, or a time point with something that does not move"""
    for e in p.events:
        if e["kind"] != "branch": continue
        c = e["cond"]
        f = getattr(c, "f", None)
        if f is None: rep.und("branch", s.name, "unknown condition"); continue
        where = e["stack"][-1] if e["stack"] else s.site
        if units and isinstance(f.unit, Mix): rep.bad("branch-scale", where, f"{s.name}: a decision depends on the time unit: {f.unit.why} @ {f.unit.site}")
        elif affs and isinstance(f.aff, Mix): rep.bad("branch-shift", where, f"{s.name}: a decision depends on the time origin: {f.aff.why} @ {f.aff.site}")
        else: rep.ok("branch", s.name)
