"""C01: buffers of returned arrays against the buffers reachable from the package state, the generator, the arguments and
other results (points-to sets of the abstract heap)."""
from ..h import *
from .. import heap

JOBS = 8


def check(w, rep, tier):
    h, I = H(w), w.I
    imp = heap.import_bufs(w)
    # the tables an object exposes are its own
    for name, cls in w.share(h.rks().items()):
        for a in ("nodes", "weights", "weightsEmbedded", "Q", "S", "A", "b", "c", "b2", "hCoeffs"):
            for p in w.explore(lambda I: h.attr(I.call(cls, [], {}), a), max_paths=8):
                if p.kind != "ok" or not isinstance(p.value, Arr): continue
                rep.check("own-tables", name, p.value.buf not in imp, f"{name}().{a} is the same memory as {imp.get(p.value.buf)}: changing it in place changes every other user of the package",
                          construct=h.site_of(cls), path=p.desc())
    for e in w.share(heap.entries(h, tier)):
        keep = {}

        def run(I):
            o = keep["o"] = e.make(I) if e.make else None
            keep["r1"] = e.call(I, o, "")
            keep["mid"] = heap.reach(o, "self") if o is not None else {}
            keep["r2"] = e.call(I, o, "")
            return keep["r1"]
        for p in w.explore(run, max_paths=16):
            if p.kind == "abort": rep.und("result", e.name, p.why); continue
            if p.kind != "ok": continue
            state = dict(keep["mid"])
            if keep["o"] is not None: state.update(heap.reach(keep["o"], "self"))
            a1, a2 = heap.arrays(keep["r1"]), heap.arrays(keep["r2"])
            if not a1: rep.und("result", e.name, "no array in the result")
            b2 = {x.buf for _, x in a2}
            seen = {}
            if keep["o"] is not None and isinstance(keep["o"], Obj):
                shared = [(k, b) for b, k in heap.reach(keep["o"], "self").items() if b in imp]
                rep.check("own-tables", e.name, not shared, f"{shared[0][0]} of an object is the same memory as {imp[shared[0][1]]}, so changing it in place changes every other user" if shared else "",
                          construct=h.site_of(keep["o"].cls), path=p.desc())
            for path, x in a1:
                r = f"result{path} of {e.name}"
                d = f"decisions: {p.desc()}" if p.desc() else ""
                rep.check("package-state", e.name, x.buf not in imp, f"{r} shares its memory with {imp.get(x.buf)}", construct=e.site, path=d)
                if e.make: rep.check("generator-state", e.name, x.buf not in state or x.buf in imp, f"{r} shares its memory with {state.get(x.buf)} kept by the object", construct=e.site, path=d)
                rep.check("argument", e.name, I.buf_origin.get(x.buf) != "arg", f"{r} shares its memory with an array passed in", construct=e.site, path=d)
                rep.check("results", e.name, x.buf not in b2 or x.buf in imp or x.buf in state, f"{r} shares its memory with the result of a second call", construct=e.site, path=d)
                rep.check("outputs", e.name, x.buf not in seen, f"{r} shares its memory with result{seen.get(x.buf)} of the same call", construct=e.site, path=d)
                seen[x.buf] = path
