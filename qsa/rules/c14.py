"""C14: dimension analysis and dependence of the Dahlquist solvers; for small numbers of steps and sweeps the closed terms of
the result (any number of nodes, symbolic coefficients) are compared with those of the documented recurrences."""
import numpy as np
from ..h import *
from .. import scen, spec, teval
from ..facts import check_facts
from ..rows import Unk as NotClosed
from .c16 import pick

JOBS = 8


def check(w, rep, tier):
    h = H(w)
    ss = list(scen.all_scen(h, tier, [scen.dahlquist]))
    check_facts(w, h, rep, ss, max_paths=32 if tier == "quick" else 200)
    pairs = [(1, 1), (2, 1), (1, 2), (3, 2), (2, 3)] + ([(n, k) for n in (1, 2, 4, 5) for k in (1, 3, 4)] if tier != "quick" else [])
    for n, k in pairs:
        h.sizes = {"nSteps": n, "nSweeps": k}
        for s in w.share(scen.all_scen(h, tier, [scen.dahlquist])):
            scheme(w, h, rep, s, n, k, 32 if tier == "quick" else 200)
    h.sizes = {}


# ----------------------------------------------------------------------------- the documented recurrences

def models(n, k, s):
    """values for the symbols: generic ones, and special ones a program may single out"""
    r = np.random.RandomState(5)
    for M in (3, 2, 5, 1, 13, 40):
        for lam in (-0.7 + 0.4j, -0.9, 0.6j, 0.0, 1.3):
            for u0 in (1.1 - 0.3j, 0.8, -1.2):
                for tEnd in (1.7, 0.6):
                    e = {"M": M, "lam": lam, "u0": u0, "tEnd": tEnd}
                    for a in ("c", "b", "b2", "weights"): e[a] = r.uniform(-1, 1, M)
                    e["A"], e["Q"] = r.uniform(-1, 1, (2, M, M)) / M
                    e["QDelta"] = r.uniform(-1, 1, (k, M, M) if s.info.get("nd") == 3 else (M, M)) / M
                    e["uNum"] = r.uniform(-1, 1, n + 1) + 1j * r.uniform(-1, 1, n + 1)
                    yield e


def exact(e, n): return e["u0"] * np.exp(e["lam"] * np.linspace(0, e["tEnd"], n + 1))


def rk(e, n, emb):
    u, dt = [complex(e["u0"])], e["tEnd"] / n
    M = len(e["A"])
    for i in range(n):
        U = np.linalg.solve(np.eye(M) - e["lam"] * dt * e["A"], np.ones(M) * u[-1])
        u.append(u[-1] + e["lam"] * dt * (e["b2"] if emb else e["b"]) @ U)
    return np.array(u)


def sdc(e, n, K, wgt):
    lam, dt, Q = e["lam"], e["tEnd"] / n, e["Q"]
    M = len(Q)
    D = e["QDelta"] if e["QDelta"].ndim == 3 else [e["QDelta"]] * K
    c = Q.sum(axis=1)
    res, err = np.zeros((2, K + 1, n, M), dtype=complex)
    u = [complex(e["u0"])]
    for i in range(n):
        U = np.ones(M) * u[-1]
        for k in range(K + 1):
            if k: U = np.linalg.solve(np.eye(M) - lam * dt * D[k - 1], u[-1] + lam * dt * (Q - D[k - 1]) @ U)
            res[k, i] = u[-1] + lam * dt * Q @ U - U
            err[k, i] = U - e["u0"] * np.exp(lam * dt * (i + c))
        u.append(u[-1] + lam * dt * e["weights"] @ U if wgt else U[-1])
    return np.array(u), res, err


def reference(s, e, n, k):
    """{path in the result: documented value}"""
    i = s.info
    if s.group == "dahl":
        if i["what"] == "solve": return {"": rk(e, n, i["emb"])}
        u = e["uNum"] if i["what"] == "error-given" else rk(e, n, i["emb"])
        return {"": np.max(np.abs(u - exact(e, n)))}
    if i["what"] == "error-given": return {"": np.max(np.abs(e["uNum"] - exact(e, n)))}
    u, res, err = sdc(e, n, k, i["wgt"])
    if i["what"] == "error": return {"": np.max(np.abs(u - exact(e, n)))}
    if i["mon"] is None: return {"": u}
    return {"[0]": u, **{f"[1][{m}]": {"residuals": res, "errors": err}[m] for m in i["mon"]}}


def scheme(w, h, rep, s, n, k, limit):
    lab = f"{s.name}, {n} step(s), {k} sweep(s)"
    for p in w.explore(s.run, max_paths=limit):
        if p.kind == "abort": rep.und("scheme", lab, p.why); continue
        if p.kind != "ok": continue
        envs = list(models(n, k, s))
        hold = [(e, teval.admits(p.events, e)) for e in envs]
        good = [e for e, x in hold if x] or [e for e, x in hold if x is None]
        sure = any(x for _, x in hold)
        if not good: rep.und("scheme", lab, f"no model of the path {p.desc()}"); continue
        done = {}
        for e in good[::max(1, len(good) // 12)]:
            try: ref = reference(s, e, n, k)
            except np.linalg.LinAlgError: continue
            for path, want in ref.items():
                v = pick(p.value, path) if path else p.value
                if done.get(path, (1,))[0] is False: continue
                vid = getattr(v, "vid", None)
                if vid is None: done[path] = (None, "no term"); continue
                try: r = teval.close(teval.teval(vid, e), want)
                except NotClosed as x: done[path] = (None, f"operator {x}"); continue
                if r is None: continue
                if not r: done[path] = (False if sure else None, "differs from the documented recurrence")
                else: done.setdefault(path, (True, ""))
        for path, (r, why) in done.items():
            rep.check("scheme", lab, r, f"{lab}: result{path} is not the value of the documented recurrence (term {vshow(pick(p.value, path).vid if path else p.value.vid, 7):.200})" if r is False else why,
                      construct=s.site, path=p.desc())
