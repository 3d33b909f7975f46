"""C13: on every path, the object built from a Q-generator (qGen= / coll=) and the one built from the generator's own parameters
spelled out (keywords, positions, mixed) have attributes and results with the same value numbers; overrides replace one parameter."""
import itertools
from ..h import *
from .. import sem, spec, heap
from .c11 import closed, HEAVY

JOBS = 8
KIND = {"Q": ["Q"], "time": ["nodes", "tLeft"], "nodes": ["nodes"], "dist": ["nNodes", "nodeType", "quadType"]}


def state(o, depth=0, path="", seen=None):
    """(attribute path, leaf) of an object"""
    seen = set() if seen is None else seen
    if isinstance(o, Obj):
        if id(o) in seen or depth > 4: return
        seen.add(id(o))
        yield path + ".__class__", Const(o.cls.qual)
        for k in sorted(o.attrs):
            if k.startswith("_"): continue
            yield from state(o.attrs[k], depth + 1, f"{path}.{k}", seen)
    else:
        for p, x in leaves(o):
            if isinstance(x, (Arr, Num)) or (isinstance(x, Const) and (x.v is None or isinstance(x.v, str))): yield path + p, x


def vid_of(I, x):
    if isinstance(x, Arr): I.refresh(x)
    return getattr(x, "vid", None)


def pairs(I, a, b, common=False):
    """[(path, vid, vid)] of two results; None when their shapes differ"""
    la, lb = list(a), list(b)
    if common:
        na, nb = {p for p, _ in la}, {p for p, _ in lb}
        la, lb = [x for x in la if x[0] in nb], [x for x in lb if x[0] in na]
    if [p for p, _ in la] != [p for p, _ in lb]: return None
    return [(p, vid_of(I, x), vid_of(I, y)) for (p, x), (_, y) in zip(la, lb)]


class Raised(Val):
    """an exception of the code under analysis as a result"""
    def __init__(self, e):
        self.e = e
        self.vid = vop("raised", e.exc.cls.name if isinstance(e.exc, Obj) else str(e.exc))


def attempt(f):
    try: return f()
    except AbsRaise as e: return Raised(e)


def check(w, rep, tier):
    h, I = H(w), w.I
    full = tier != "quick"
    classes = h.names(DPKG + ".QDELTA_GENERATORS")
    gen = w.get(DPKG + ".genQDeltaCoeffs")
    rks = h.rks()
    jobs = []
    for name, (need, inp, al, kdep) in spec.QDELTA.items():
        if name not in classes: rep.und("registered", name, "not registered"); continue
        heavy = name in HEAVY or name in ("MIN",)
        gens = [("Collocation", "LEGENDRE", q) for q in (["RADAU-RIGHT", "LOBATTO"] if not full else QUAD_TYPES)]
        if inp != "dist": gens += [("RK", r, None) for r in (["RK4", "BE", "ARK443ESDIRK"] if not full else sorted(rks)) if r in rks]
        for g in gens: jobs.append((name, inp, kdep, heavy, g))

    for name, inp, kdep, heavy, (kind, x, y) in w.share(jobs):
        cls = classes[name]
        site = h.site_of(cls)
        names = KIND[inp]
        own = names
        lbl = f"{name}[{kind} {x}{'' if y is None else ' ' + y}]"

        def qgen(I):
            if kind == "RK": return I.call(rks[x], [], {})
            return h.coll(Num(c=3) if name in spec.TABLES else h.int("M", 2), x, y, h.time("tLeft"), h.time("tRight"))

        def params(g):
            """the parameters of the generator, spelled out"""
            tl = h.attr(g, "tLeft") if kind != "RK" else Num(c=0)
            get = {"Q": lambda: h.attr(g, "Q"), "nodes": lambda: h.attr(g, "nodes") if inp == "time" else I.binop("Sub", h.attr(g, "nodes"), tl), "tLeft": lambda: tl,
                   "nNodes": lambda: h.attr(g, "nNodes"), "nodeType": lambda: h.attr(g, "nodeType"), "quadType": lambda: h.attr(g, "quadType")}
            return {n: get[n]() for n in names}

        def other(n):
            """another value of a parameter"""
            M = h.int("M2", 2)
            return {"Q": lambda: h.qmat(M, "Qx"), "nodes": lambda: h.nodes(M, "nodesx"), "tLeft": lambda: h.time("tLx"), "nNodes": lambda: Num(c=2) if name in spec.TABLES else M,
                    "nodeType": lambda: Const("EQUID"), "quadType": lambda: Const("LOBATTO" if y != "LOBATTO" else "RADAU-RIGHT")}[n]()

        def results(o):
            """what a user sees of the object"""
            out = {"attributes": list(state(o)), "size": list(leaves(attempt(lambda: h.attr(o, "size"))))}
            if not heavy or full:
                out["getQDelta"] = list(leaves(attempt(lambda: h.meth(o, "getQDelta", Num(c=2)))))
                out["dTau"] = list(leaves(attempt(lambda: h.attr(o, "dTau"))))
            return out

        junk = lambda: {n: f() for n, f in {"Q": lambda: h.qmat(h.int("Mj", 2), "Qj"), "nodes": lambda: h.nodes(h.int("Mj", 2), "nodesj"), "tLeft": lambda: h.time("tLj"),
                "nNodes": lambda: h.int("Mj", 2), "nodeType": lambda: Const("CHEBY-1"), "quadType": lambda: Const("GAUSS"), "foo": lambda: Num(c=5)}.items() if n not in names}
        cases = [("qGen=", lambda g, p: ([], {"qGen": g}), lambda g, p: ([], p)),
                 ("coll=", lambda g, p: ([], {"coll": g}), lambda g, p: ([], p)),
                 ("positional", lambda g, p: ([p[n] for n in own if n in p], {}), lambda g, p: ([], p)),
                 ("surplus keywords", lambda g, p: ([], {**p, **junk()}), lambda g, p: ([], p)),
                 ("qGen= and surplus keywords", lambda g, p: ([], {"qGen": g, **junk()}), lambda g, p: ([], p)),
                 ("qGen=None", lambda g, p: ([], {**p, "qGen": NONE}), lambda g, p: ([], p))]
        for r in range(1, len(names)):
            cases.append((f"{r} positional", lambda g, p, r=r: ([p[n] for n in own[:r]], {n: p[n] for n in own[r:] if n in p}), lambda g, p: ([], p)))
        for r in range(1, len(names) + 1):
            for sub in itertools.combinations(names, r):
                def ov(g, p, sub=sub):
                    o = {n: other(n) for n in sub}
                    return o
                cases.append((f"qGen=, {', '.join(sub)}=", lambda g, p, ov=ov: ([], {"qGen": g, **ov(g, p)}), lambda g, p, ov=ov: ([], {**p, **ov(g, p)})))
                if r == 1: cases.append((f"coll=, {sub[0]}=", lambda g, p, ov=ov: ([], {"coll": g, **ov(g, p)}), lambda g, p, ov=ov: ([], {**p, **ov(g, p)})))
        for r in range(1, len(names) + 1):
            cases.append((f"{r} positional, qGen=", lambda g, p, r=r: ([other(n) for n in own[:r]], {"qGen": g}), lambda g, p, r=r: ([], {**p, **{n: other(n) for n in own[:r]}})))
        if not full and (kind == "RK" and x != "RK4" or y == "LOBATTO"): cases = [c for c in cases if c[0] in ("qGen=", "coll=")]
        if heavy and not full: cases = [c for c in cases if "surplus" not in c[0]]
        for what, f1, f2 in cases:
            keep = {}

            def run(I):
                g = qgen(I)
                p = params(g)
                a, k = f1(g, dict(p)); b, l = f2(g, dict(p))
                keep["x"] = keep["y"] = None
                for n, (u, v) in (("y", (b, l)), ("x", (a, k)), ("z", (b, l))):
                    o = keep[n] = attempt(lambda: I.call(cls, list(u), dict(v)))
                    keep["r" + n] = {} if isinstance(o, Raised) else results(o)
                return NONE
            judge(w, rep, f"{lbl}({what})", site, run, keep, "construction")
        # the generic function
        if heavy and not full: continue
        for what, kw in [("qGen", {}), ("coll", {}), ("qGen", {"form": Const("N2N")}), ("qGen", {"dTau": Num(c=True)}), ("qGen", {"nSweeps": Num(c=2)}), ("list", {}), ("list1", {})]:
            if not full and (kind == "RK" and x != "RK4" or y == "LOBATTO") and (what, kw) != ("qGen", {}): continue
            keep = {}

            def run(I):
                g = qgen(I)
                p = params(g)
                q = Const(name) if "list" not in what else h.lst([Const(name)] * (1 if what == "list1" else 2))
                for n in "yxz":
                    o = keep[n] = attempt(lambda: h.call(gen, q, **({"coll" if what == "coll" else "qGen": g} if n == "x" else p), **kw))
                    keep["r" + n] = {} if isinstance(o, Raised) else {"result": list(leaves(o))}
                return NONE
            judge(w, rep, f"genQDeltaCoeffs({lbl}, {what}=, {kw})", DPKG + ".genQDeltaCoeffs", run, keep, "generic-function")


def judge(w, rep, lbl, site, run, keep, rule):
    I = w.I
    n = 0
    for p in w.explore(run, max_paths=8):
        if p.kind == "abort": rep.und(rule, lbl, p.why); continue
        if p.kind == "raise": continue
        n += 1
        x, y = keep["x"], keep["y"]
        ex, ey = (o.e.exc.cls.name if isinstance(o, Raised) and isinstance(o.e.exc, Obj) else None for o in (x, y))
        if ex in spec.DATA_EXC or ey in spec.DATA_EXC: continue
        if ex or ey:
            rep.check(rule, lbl, ex == ey, f"{lbl}: {'raises ' + ex if ex else 'succeeds'}, spelled-out parameters {'raise ' + ey if ey else 'do not'}", construct=site, path=p.desc())
            continue
        for k in keep["rx"]:
            q = pairs(I, keep["rx"][k], keep["ry"][k], k == "attributes")
            if q is None:
                rep.bad(rule, site, f"{lbl}: {k} has other parts than for spelled-out parameters", path=p.desc()); continue
            # the reference is computed before and after: where the two differ the value is not stable in the domain
            st = {pa for pa, a, b in pairs(I, keep["ry"][k], keep["rz"].get(k, []), True) or [] if a == b}
            for pa, a, b in q:
                if a == b and a is not None: rep.ok(rule, lbl)
                elif sem.equal(a, b, conds=[p.events]): rep.ok(rule, lbl)
                elif a is None or b is None or pa not in st or not closed(a) or not closed(b): rep.und(rule, lbl, f"unmodelled part of {k} {lbl}")
                else: rep.bad(rule, site, f"{lbl}: {k}{pa} is {vshow(a, 4)[:140]} instead of {vshow(b, 4)[:140]}", path=p.desc())
    if not n: rep.und(rule, lbl, "no path returns")
