"""C03: noninterference between calls: values computed by an earlier call must not flow into a later result (dependency
sets), no call writes package state or an array handed out before (effects), no process-global setting changes (events)."""
from ..h import *
from .. import heap, sem

GLOBAL_OK = set()

JOBS = 8


def deps_of(v):
    """names of the inputs a result depends on: data dependencies and the atoms of its symbolic value"""
    out = set()
    for _, x in leaves(v):
        if isinstance(x, (Num, Arr)):
            out |= set(x.f.deps)
            if x.vid is not None: out |= {str(VN.rev[y][1]) for y in vsubterms(x.vid) if VN.rev[y][0] == "atom"}
            if isinstance(x, Arr) and x.shape: out |= {s for d in x.shape if d is not None for s in d.syms()}
    return out


def vids(v):
    out = []
    for p, x in leaves(v): out.append((p, getattr(x, "vid", None)))
    return out


OPEN = {"unk", "prev", "fsolve", "minimize"}


def closed(v):
    """the symbolic value is a fixed expression of the inputs (no loop-carried or unmodelled part)"""
    if v is None: return False
    for y in vsubterms(v):
        k = VN.rev[y]
        if y in LOOP_INDICES or k[0] == "op" and k[1] in OPEN: return False
        if k[0] == "atom" and str(k[1]).startswith("fresh"): return False
    return True


def tagged(h, tag, f):
    old, h.tag = h.tag, tag
    try: return f()
    finally: h.tag = old


def check(w, rep, tier):
    h, I = H(w), w.I
    es = list(heap.entries(h, tier))
    full = tier != "quick"
    groups = {}
    for e in es: groups.setdefault((e.name.split(".")[0].split("(")[0] if e.make else None), []).append(e)
    jobs = []
    for g, l in groups.items():
        for i, e in enumerate(l):
            heavy = "MIN_SR_S" in e.name or "MIN_SR_FLEX" in e.name
            if e.make: jobs.append(("same object", e, e))
            if not heavy or full:
                jobs.append(("other object", e, e))
                if e.make and len(l) > 1: jobs.append(("same object", l[i - 1], e))
                elif len(l) > 1 and full: jobs.append(("other object", l[i - 1], e))
    # calls on objects of another kind in between
    other = {}
    for e in es:
        k = ("genQ" if e.name.startswith("genQCoeffs(Coll") else "coll" if e.name.startswith("Collocation") else "nodes" if e.name.startswith("Nodes") else
             "lag-" + e.name.split(").")[1] if e.name.startswith("Lagrange") else "qd" if e.name.startswith("genQDeltaCoeffs") and "," not in e.name else None)
        if k is None or (not full and "MIN_SR_" in e.name): continue
        l = other.setdefault(k, [])
        for o in (l[-1:] if not full else l[-3:]) + (l[:1] if len(l) > 1 else []):
            if not full and "hCoeffs=True" in e.name + o.name: continue
            jobs.append(("other object", o, e))
            jobs.append(("other object", e, o))
        l.append(e)
    pristine = {}

    def alone(e):
        """symbolic results of the call when nothing was called before"""
        if e.name not in pristine:
            res, n0 = [], w.truncated
            for p in w.explore(lambda I: e.call(I, e.make(I) if e.make else None, ""), max_paths=16 if not full else 64):
                if p.kind == "ok": res.append(vids(p.value))
                elif p.kind == "abort": res = None; break
            pristine[e.name] = None if w.truncated > n0 else res
        return pristine[e.name]
    for what, first, e in w.share(jobs):
        keep = {}
        ref = alone(e)

        def run(I):
            keep.clear()
            if what == "same object" and e.make:
                o = o1 = e.make(I)
            else:
                o1 = tagged(h, "Old", lambda: first.make(I)) if first.make else None
                o = None
            mark0 = len(I.effects)
            try: r0 = tagged(h, "Old", lambda: first.call(I, o1, ""))
            except AbsRaise: r0 = NONE
            keep["old"] = {x.buf: p for p, x in heap.arrays(r0)}
            keep["mark"] = len(I.effects)
            if o is None and e.make: o = e.make(I)
            r1 = e.call(I, o, "")
            keep["n"] = len(I.events)
            keep["r1"] = r1
            keep["again"] = e.call(I, o, "") if what == "same object" else None
            keep["end"] = len(I.effects)
            keep["r2"] = e.call(I, e.make(I) if e.make else None, "") if what == "same object" else None
            return r1
        for p in w.explore(run, max_paths=8 if not full else 32):
            if p.kind == "abort": rep.und("interference", e.name, p.why); continue
            d = p.desc()
            nm = f"{e.name} after {first.name}" + (" with other arguments" if first is e else "") + (" on the same object" if what == "same object" else "")
            for x in p.effects:
                if x.kind == "memo": continue        # keyed by all arguments: judged by what comes out of it
                if x.epoch == 0: rep.bad("package-state", x.stack[-1] if x.stack else e.site, f"{nm}: {x.kind} ({x.detail}) changes a value made at import time, at {x.site}", path=d)
                else: rep.ok("package-state", e.name)
            for ev in p.events:
                if ev["kind"] == "global": rep.bad("global-setting", ev["stack"][-1] if ev.get("stack") else e.site, f"{nm}: {ev.get('what')} changes a process-global setting", path=d)
            if p.kind != "ok": continue
            for x in p.effects[keep["mark"]:keep["end"]]:
                rep.check("earlier-result", e.name, x.buf is None or x.buf not in keep["old"], f"{nm}: {x.kind} ({x.detail}) modifies the array returned by the earlier call, at {x.site}",
                          construct=x.stack[-1] if x.stack else e.site, path=d)
            fl = sorted(n for r in ("r1", "again") if keep[r] is not None for n in deps_of(keep[r]) if n.endswith("Old"))
            rep.check("interference", e.name, not fl, f"{nm}: the result depends on {fl} of the earlier call", construct=e.site, path=d)
            if ref is not None and all(closed(v) for _, v in vids(keep["r1"])):
                vs = vids(keep["r1"])
                like = lambda r: len(r) == len(vs) and all(pa == pb and (a == b or sem.equal(a, b)) for (pa, a), (pb, b) in zip(vs, r))
                rep.check("as-first-call", e.name, vs in ref or any(like(r) for r in ref) if ref and all(closed(v) for r in ref for _, v in r) else None,
                          f"{nm}: the result is not one of those the same call gives in a fresh process", construct=e.site, path=d)
            for r in ("r1", "again"):
                if keep["r2"] is None: break
                for (pa, a), (pb, b) in zip(vids(keep[r]), vids(keep["r2"])):
                    if a == b and a is not None: rep.ok("same-value", e.name); continue
                    if sem.equal(a, b, conds=[p.events]): rep.ok("same-value", e.name)
                    elif closed(a) and closed(b):
                        rep.bad("same-value", e.site, f"{nm}: the result {vshow(a, 3)} differs from the one of a fresh object, {vshow(b, 3)}", path=d)
                    else: rep.und("same-value", e.name, "loop-carried or unmodelled part in the value")
