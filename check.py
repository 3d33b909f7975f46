#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough] [--root /repo] : decide one property from the source of the tree"""
import argparse
import importlib
import os
import pickle
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def run(mod, w, rep, tier, jobs):
    """mod.check, its subjects shared between forked processes"""
    n = getattr(mod, "JOBS", 1)
    n = min(n, jobs or os.cpu_count() or 1)
    if n <= 1: return mod.check(w, rep, tier)
    from qsa.report import Report
    kids = []
    for i in range(n):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                w.part, w.parts = i, n
                sub = Report(rep.prop, tier)
                w.npaths = w.truncated = w.I.calls = 0
                try: mod.check(w, sub, tier)
                except BaseException:
                    import traceback
                    sub.broken.append(traceback.format_exc()[-600:])
                with os.fdopen(wr, "wb") as f: pickle.dump(sub.dump(w), f)
                code = 0
            finally: os._exit(code)
        os.close(wr)
        kids.append((pid, r))
    for pid, r in kids:
        with os.fdopen(r, "rb") as f: data = f.read()
        os.waitpid(pid, 0)
        try: rep.merge(pickle.loads(data), w)
        except Exception as e: rep.broken.append(f"process {pid} gave no result: {e}")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--root", default=os.environ.get("QSA_ROOT", "/repo"))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("QSA_JOBS", "0")))
    a = ap.parse_args()
    from qsa.report import Report
    from qsa.driver import World
    ids = [a.prop] if a.prop != "all" else [f"C{i:02d}" for i in range(1, 26) if i not in (22, 23)]
    worst = 0
    for p in ids:
        rep = Report(p, a.tier)
        w = World(a.root)
        mod = importlib.import_module(f"qsa.rules.{p.lower()}")
        run(mod, w, rep, a.tier, a.jobs)
        worst = max(worst, rep.finish(w))
    return worst


if __name__ == "__main__":
    sys.exit(main())
