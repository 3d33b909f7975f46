"""C16: symbolic shape inference of every entry point, compared with the documented shape."""
from ..h import *
from .. import scen, spec

JOBS = 8


def pick(v, path):
    """value at a path like [0][errors]"""
    import re
    for k in re.findall(r"\[([^\]]*)\]", path):
        if isinstance(v, Tup):
            if not k.isdigit() or int(k) >= len(v.items): return "missing"
            v = v.items[int(k)]
        elif isinstance(v, Lst):
            c = v.concrete()
            if c is None: return None
            if not k.isdigit() or int(k) >= len(c): return "missing"
            v = c[int(k)]
        elif isinstance(v, Dct):
            e = v.d.get(("c", k))
            if e is None: return "missing"
            v = e[1]
        elif isinstance(v, Arr): return "array"
        elif isinstance(v, Num): return "missing"
        else: return None
    return v


def shape_verdict(I, v, want):
    """(verdict, description)"""
    if v is None: return None, "unknown"
    if isinstance(v, str): return False, v
    if want == ():
        if isinstance(v, Num) or isinstance(v, Const): return True, ""
        if isinstance(v, Arr):
            I.refresh(v)
            if v.shape == (): return True, ""
            return (None, "?") if v.shape is None else (False, f"array of shape {v.shape} instead of a scalar")
        return None, "?"
    if isinstance(v, Num): return False, "a scalar instead of an array"
    if isinstance(v, (Tup, Lst)): return False, "a sequence instead of an array"
    if not isinstance(v, Arr): return None, "?"
    I.refresh(v)
    if v.shape is None: return None, "rank unknown"
    if len(v.shape) != len(want): return False, f"shape {v.shape} instead of {want}"
    ok = True
    for a, b in zip(v.shape, want):
        if isinstance(b, str): continue
        e = lin_eq(I, a, b)
        if e is True: continue
        if a is not None and any(VN.mk(("sym", x)) in LOOP_INDICES for x in a.syms()): ok = None; continue   # the value of a representative iteration
        if e is False: return False, f"shape {v.shape} instead of {want}"
        if a is not None and not (set(a.syms()) - set(L(b).syms()) - set(known_syms(want))):
            # both sides are expressions of the promised symbols and differ as expressions
            d = a - L(b)
            if d.t or d.c: return False, f"shape {v.shape} instead of {want}"
        ok = None
    return ok, f"shape {v.shape}, wanted {want}"


def known_syms(want): return [s for b in want if not isinstance(b, str) for s in L(b).syms()]


def arity(p, v, ex):
    """number of outputs"""
    if not ex or ex[0][0] == "": return True
    tops = len({e[0].split("]")[0] for e in ex})
    if isinstance(v, Tup): return len(v.items) == tops
    if isinstance(v, Lst):
        c = v.concrete()
        return None if c is None else len(c) == tops
    if isinstance(v, Arr): return False
    return None


def check(w, rep, tier):
    h, I = H(w), w.I
    names = {}
    run_all(w, h, I, rep, tier, {}, names)
    for ov in ({n: 1 for n in names}, {n: 2 for n in names}):   # the smallest sizes, taken concretely
        h.sizes = ov
        run_all(w, h, I, rep, tier, ov, {})


def run_all(w, h, I, rep, tier, ov, names):
    for s in scen.all_scen(h, tier):
        for _, want, _, _ in s.expect:
            for d in (want or ()):
                if not isinstance(d, str): names.update({n: 1 for n in L(d).syms()})
    lab = f" [all sizes {max(ov.values())}]" if ov else ""
    for s in w.share(scen.all_scen(h, tier)):
        got = False
        for p in w.explore(s.run, max_paths=16 if tier == "quick" else 96):
            if p.kind == "raise":
                if p.excname() in spec.DATA_EXC: continue
                continue
            if p.kind != "ok": rep.und("shape", s.name, p.why); continue
            got = True
            a = arity(p, p.value, s.expect)
            if a is False:
                rep.bad("arity", s.site, f"{s.name}{lab}: wrong number of outputs ({p.value!r:.80})", path=p.desc()); continue
            for path, want, _, _ in s.expect:
                if want is None: continue
                want = tuple(d if isinstance(d, str) else small(d, ov) for d in want)
                v = pick(p.value, path)
                r, d = shape_verdict(I, v, want)
                rep.check("shape", s.name + lab, r, f"{s.name}{lab}{path}: {d}" if r is False else d, construct=s.site, path=p.desc())
        if not got and not ov: rep.und("no-result", s.name, "no path returns")


def small(d, ov):
    """the promised dimension at the concrete sizes"""
    return L(d).subst(ov)
