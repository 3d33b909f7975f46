"""C05: how every coefficient moves under a shift of the time axis and scales with the time unit (affine + dimension analysis)."""
from ..h import *
from .. import scen, spec, covar
from .c16 import pick
from ..facts import check_facts, weights_unit

JOBS = 8


def extraction(h):
    """Q-Delta coefficients extracted from a collocation object on a general interval"""
    classes = h.names(DPKG + ".QDELTA_GENERATORS")
    ext = []
    for name, (need, inp, al, kdep) in spec.QDELTA.items():
        cls = classes.get(name)
        if cls is None or inp not in ("Q", "time", "nodes") or name == "MIN": continue
        def mk_(I, cls=cls): return I.call(cls, [], {"qGen": h.coll(h.int("M", 2), "LEGENDRE", "RADAU-RIGHT", h.time("tLeft"), h.time("tRight"))})
        ext.append(scen.Scen(f"{name}(qGen).getQDelta", h.site_of(cls, "extractParams"), lambda I, f=mk_: h.meth(f(I), "getQDelta", h.int("k", 1)),
                             [("", None, T1, V0)], "ext"))
        ext.append(scen.Scen(f"{name}(qGen).dTau", h.site_of(cls, "extractParams"), lambda I, f=mk_: h.attr(f(I), "dTau"), [("", None, T1 if inp == "time" else None, V0)], "ext"))
    return ext


def check(w, rep, tier):
    h = H(w)
    weights_unit(w)
    ss = list(scen.all_scen(h, tier, [scen.collocation, scen.qdelta]))
    check_facts(w, h, rep, [s for s in ss if s.group != "qdelta" or s.info["inp"] in ("Q", "time", "nodes") and s.info["cls"] != "MIN"],
                max_paths=16 if tier == "quick" else 96)
    check_facts(w, h, rep, extraction(h), max_paths=16 if tier == "quick" else 96)

    def subjects():
        for s in scen.all_scen(h, tier, [scen.collocation, scen.qdelta]):
            if s.group != "qdelta" or s.info["inp"] in ("Q", "time", "nodes") and s.info["cls"] != "MIN": yield s
        yield from extraction(h)
    covar.check(w, h, rep, subjects, 32, pick, ((3, 1), (2, 2)) if tier == "quick" else ((3, 1), (2, 2), (4, 3), (5, 1)))
    # the declared order must not look at the interval, and the answer whether the right end is a node neither in size nor position
    for nt in NODE_TYPES:
        for qt in QUAD_TYPES:
            for a in ("order",):
                cls = w.get("qmat.qcoeff.collocation.Collocation")
                for p in w.explore(lambda I: h.attr(h.coll(h.int("M", 2), nt, qt, h.time("tLeft"), h.time("tRight")), a)):
                    if p.kind != "ok": continue
                    bad = {"tLeft", "tRight"} & set(p.value.deps)
                    rep.check("order-deps", f"Collocation({nt},{qt}).{a}", not bad, f"{a} depends on {sorted(bad)}", construct=h.site_of(cls, a))
