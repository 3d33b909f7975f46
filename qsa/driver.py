"""World (imported package under analysis) and path exploration."""
import os
import time
import traceback
from .core import *
from .interp import Interp


class Path:
    """one explored path through an entry point"""
    __slots__ = ("kind", "value", "exc", "decisions", "events", "effects", "flags", "env", "why")

    def __init__(self, kind): self.kind = kind; self.value = self.exc = self.env = self.why = None

    def excname(self): return self.exc.exc.cls.name if self.exc is not None and isinstance(self.exc.exc, Obj) else str(self.exc)

    def desc(self): return "; ".join(f"{d}={o} @ {s}" for d, o, s in self.decisions if d)


def all_modules(root, pkg="qmat"):
    out = []
    base = os.path.join(root, pkg)
    for d, dirs, files in os.walk(base):
        dirs[:] = sorted(x for x in dirs if os.path.exists(os.path.join(d, x, "__init__.py")))
        rel = os.path.relpath(d, root).replace(os.sep, ".")
        if not os.path.exists(os.path.join(d, "__init__.py")): continue
        out.append(rel)
        for f in sorted(files):
            if f.endswith(".py") and f != "__init__.py": out.append(rel + "." + f[:-3])
    return out


class World:
    def __init__(self, root):
        self.root = root
        self.I = I = Interp(root)
        I.epoch = 0
        self.import_errors = {}
        for m in all_modules(root):
            try: I.load_module(m)
            except AbsRaise as e: self.import_errors[m] = f"{e} at {e.site}"
            except Abort as e: self.import_errors[m] = f"abort {e}"
        self.import_events, self.import_effects = I.events, I.effects
        I.undo.clear(); I.pending = []; self.import_decisions = I.decisions
        I.epoch = 1
        self.base_bounds = I.bounds.copy()
        self.npaths = 0
        self.aborts = {}
        self.truncated = 0

    part, parts = 0, 1  # this process looks at the items number part, part + parts, ...

    def share(self, items):
        for i, x in enumerate(items):
            if i % self.parts == self.part: yield x

    @property
    def first(self): return self.part == 0

    def mod(self, name): return self.I.modules.get(name)

    def get(self, dotted):
        """qmat.a.b.Class.attr"""
        parts = dotted.split(".")
        for i in range(len(parts), 0, -1):
            m = ".".join(parts[:i])
            if m in self.I.modules:
                v = self.I.modules[m]
                for p in parts[i:]:
                    if isinstance(v, Mod): v = v.ns.get(p)
                    elif isinstance(v, Cls): v = v.lookup(p)[0]
                    else: return None
                    if v is None: return None
                return v
        return None

    def explore(self, fn, max_paths=64, setup=None, max_steps=400000):
        """run fn(I) on every path of decisions; yields Path with the heap still in place (undone afterwards)"""
        I = self.I
        pending = [[]]
        seen = 0
        while pending:
            if seen >= max_paths:
                self.truncated += 1
                return
            trace = pending.pop(0)
            seen += 1; self.npaths += 1
            mark = (len(I.undo),)
            I.bounds = self.base_bounds.copy()
            I.memo = {}; I.trace = list(trace); I.pos = 0; I.pending = []; I.decisions = []
            I.effects = []; I.events = []; I.flags = set(); I.steps = 0; I.max_steps = max_steps
            I.stack = []; I.loops = []; I.errstate = []; I.line = 0; I.active_loop_sites = []
            I.catch_warn = 0
            I.epoch = 1
            try:
                v = fn(I)
                p = Path("ok"); p.value = v
            except AbsRaise as e:
                p = Path("raise"); p.exc = e
            except Abort as e:
                p = Path("abort"); p.why = str(e)
                self.aborts[str(e)] = self.aborts.get(str(e), 0) + 1
            except RecursionError as e:
                p = Path("abort"); p.why = "recursion"
                self.aborts["recursion"] = self.aborts.get("recursion", 0) + 1
            except (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError, NotImplementedError, ArithmeticError) as e:
                # a gap of the analyser: the path gives no answer
                if os.environ.get("QSA_DEBUG"): traceback.print_exc()
                tb = e.__traceback__
                while tb.tb_next: tb = tb.tb_next
                p = Path("abort"); p.why = f"analyser: {type(e).__name__}: {e} ({os.path.basename(tb.tb_frame.f_code.co_filename)}:{tb.tb_lineno})"
                self.aborts[p.why] = self.aborts.get(p.why, 0) + 1
            p.decisions, p.events, p.effects, p.flags = I.decisions, I.events, I.effects, I.flags
            pending += I.pending
            I.pending = []
            try: yield p
            finally:
                while len(I.undo) > mark[0]: I.undo.pop()()
