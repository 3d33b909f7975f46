"""Abstract interpreter for the Python source of the analysed package.

Nothing of the analysed package is imported or executed: modules are parsed, and their statements are interpreted over
the abstract values of core.py.  Branches on undecided conditions split the analysis (trace partitioning) through a
decision oracle; loops over sequences of symbolic length are summarised by a generic iteration.
"""
import ast
import builtins
import os
from .core import *
from . import core


class Effect:
    __slots__ = ("kind", "obj", "detail", "site", "origin", "epoch", "buf", "data", "stack")
    def __init__(self, kind, obj, detail, site, origin, epoch, buf=None, data=None, stack=()):
        self.kind, self.obj, self.detail, self.site = kind, obj, detail, site
        self.origin, self.epoch, self.buf, self.data, self.stack = origin, epoch, buf, data, stack
    def __repr__(self): return f"Effect({self.kind} {self.detail} on {self.origin} @ {self.site})"


class Frame:
    def __init__(self, mod, parent=None, func=None, is_class=False):
        self.locals = {}
        self.mod, self.parent, self.func, self.is_class = mod, parent, func, is_class
        self.globals_decl, self.nonlocals = set(), set()
        self.yields = None
        self.self0 = None
        self.clscell = None
        self.exc = None


class LoopCtx:
    def __init__(self, n, epoch_id, phase, first=None):
        self.n, self.start_id, self.phase = n, epoch_id, phase
        self.arrs, self.attrs = {}, {}           # arrays and attributes written in the body
        self.apps = {} if first is None else first.apps      # what the first pass appended to lists: (position, term)
        self.seen = {}


RET, BRK, CNT = "ret", "brk", "cnt"
MAXDEPTH = 45


class Interp:
    def __init__(self, root):
        self.root = root
        self.modules = {}
        self.bounds = Bounds()
        self.trace, self.pos, self.pending = [], 0, []
        self.memo = {}
        self.decisions = []
        self.undo = []
        self.effects = []
        self.events = []
        self.stack = []          # (qualname, relfile)
        self.line = 0
        self.epoch = 0
        self.hooks = {}
        self.loops = []
        self.errstate = []
        self.catch_warn = 0
        self.flags = set()
        self.steps = 0
        self.max_steps = 400000
        self.analysed = set()    # qualnames of analysed functions
        self.calls = 0
        self.buf_origin = {}
        self.unknown = {}
        self.active_loop_sites = []
        self.loops_generic = 0
        from . import lib, npm, npfun
        self.lib, self.npm = lib, npm
        lib.setup(self)

    # ------------------------------------------------------------------ bookkeeping
    def site(self):
        q, f = self.stack[-1] if self.stack else ("<top>", "?")
        return f"{f}:{self.line} in {q}"

    def event(self, kind, **k):
        k["kind"] = kind; k["site"] = self.site(); k["stack"] = tuple(q for q, _ in self.stack)
        self.events.append(k)

    def effect(self, kind, obj, detail, data=None):
        buf = getattr(obj, "buf", None)
        origin = self.buf_origin.get(buf, obj.origin) if buf is not None else obj.origin
        self.effects.append(Effect(kind, obj, detail, self.site(), origin, obj.epoch, buf, data, tuple(q for q, _ in self.stack)))

    def unk(self, why, *vals):
        d = frozenset()
        for v in vals:
            if isinstance(v, Val): d = d | v.deps
        self.unknown[why] = self.unknown.get(why, 0) + 1
        return Unk(why, d, vop("unk", why, self.site(), *[v.vid for v in vals if isinstance(v, Val) and v.vid is not None]))

    # ------------------------------------------------------------------ heap writes (all journaled, all undoable)
    def new_epoch(self, obj):
        obj.epoch = self.epoch
        return obj

    def set_attr(self, obj, name, val):
        store = obj.attrs if isinstance(obj, (Obj, Func)) else obj.ns
        old = store.get(name, self)
        def undo(store=store, name=name, old=old):
            if old is self: store.pop(name, None)
            else: store[name] = old
        self.undo.append(undo)
        self.effect("attr", obj, name, data=val)
        for lc in self.loops: lc.attrs[id(store), name] = store
        store[name] = val
        if isinstance(obj, Cls):
            self.undo.append(lambda: None)

    def del_attr(self, obj, name):
        store = obj.attrs if isinstance(obj, (Obj, Func)) else obj.ns
        if name not in store: self.raise_("AttributeError", name)
        old = store.pop(name)
        self.undo.append(lambda: store.__setitem__(name, old))
        self.effect("delattr", obj, name)

    def dct_set(self, d, key, kv, val):
        old = d.d.get(key, None)
        olditems = None
        def undo(d=d, key=key, old=old):
            if old is None: d.d.pop(key, None)
            else: d.d[key] = old
        self.undo.append(undo)
        self.effect("item", d, str(key), data=val)
        d.d[key] = (kv, val)
        if d.ns is not None and isinstance(kv, Const):
            ns = d.ns; o = ns.get(kv.v, self)
            def undo2(ns=ns, n=kv.v, o=o):
                if o is self: ns.pop(n, None)
                else: ns[n] = o
            self.undo.append(undo2)
            ns[kv.v] = val

    def dct_del(self, d, key):
        items = dict(d.d)
        def undo(d=d, items=items): d.d.clear(); d.d.update(items)
        self.undo.append(undo)
        self.effect("delitem", d, str(key))
        return d.d.pop(key)

    def dct_clear(self, d):
        items = dict(d.d)
        self.undo.append(lambda: (d.d.clear(), d.d.update(items)))
        self.effect("clear", d, "clear")
        d.d.clear()

    def lst_mut(self, l, segs, detail):
        old = l.segs
        self.undo.append(lambda l=l, old=old: setattr(l, "segs", old))
        self.effect("list", l, detail)
        l.segs = segs

    def lst_append(self, l, val):
        mult = L(1)
        for lc in self.loops:
            if l.id <= lc.start_id:
                if lc.phase == "again":
                    # second generic pass: the element was already recorded; if it came out different, it depends on the iterations before
                    k = lc.seen[id(l)] = lc.seen.get(id(l), -1) + 1
                    done = lc.apps.get(id(l), [])
                    if k < len(done) and done[k][0] < len(l.segs) and isinstance(val, (Num, Arr)) and val.vid is not None and val.vid != done[k][1]:
                        j = done[k][0]; s0 = l.segs[j]
                        v = self.carried(s0.val, val, lc.sym)
                        self.lst_mut(l, l.segs[:j] + [Seg(s0.n, v, s0.sym)] + l.segs[j + 1:], "append")
                        return
                    self.effect("list", l, "append")
                    return
                if lc.n is None or mult is None: mult = None
                elif mult.is_const: mult = lc.n.scale(mult.c)
                elif lc.n.is_const: mult = mult.scale(lc.n.c)
                else: mult = None
        sym = None
        if self.loops and (mult is None or mult != L(1)):
            sym = getattr(self.loops[-1], "sym", None)
        for lc in self.loops:
            if l.id <= lc.start_id and lc.phase == "first": lc.apps.setdefault(id(l), []).append((len(l.segs), val.vid))
        self.lst_mut(l, l.segs + [Seg(mult, val, sym)], "append")

    def set_add(self, s, key, val):
        old = dict(s.d)
        self.undo.append(lambda: (s.d.clear(), s.d.update(old)))
        self.effect("set", s, "add")
        s.d[key] = val

    def arr_write(self, arr, detail, data=None, **new):
        """overwrite facts of an array in place (journaled)"""
        self.refresh(arr)
        old = {k: getattr(arr, k) for k in new}
        oldver = arr.ver
        def undo(arr=arr, old=old, oldver=oldver):
            for k, v in old.items(): setattr(arr, k, v)
            arr.ver = oldver
        self.undo.append(undo)
        self.effect("store", arr, detail, data=data)
        for lc in self.loops: lc.arrs[id(arr)] = arr
        for k, v in new.items(): setattr(arr, k, v)
        arr.ver = newid()

    def refresh(self, arr):
        if arr.view is None: return
        base, fn, wfn = arr.view
        self.refresh(base)
        if base.ver != arr.basever:
            n = fn(base)
            arr.shape, arr.f, arr.vid, arr.band, arr.const, arr.segs = n.shape, n.f, n.vid, n.band, n.const, n.segs
            arr.basever = base.ver

    # ------------------------------------------------------------------ exceptions
    def exc_obj(self, name, *args):
        cls = self.lib.BUILTIN_CLASSES[name]
        o = Obj(cls, {"args": Tup([a if isinstance(a, Val) else Const(str(a)) for a in args])}, self.epoch)
        return o

    def raise_(self, name, *args):
        raise AbsRaise(self.exc_obj(name, *args), self.site())

    # ------------------------------------------------------------------ decisions
    def choose(self, key, options, desc=""):
        """pick one of the options (ints) according to the oracle"""
        if key in self.memo: return self.memo[key]
        if len(options) == 1: return options[0]
        if self.pos < len(self.trace):
            o = self.trace[self.pos]
        else:
            o = options[0]
            for alt in options[1:]:
                self.pending.append(self.trace[:self.pos] + [alt])
            self.trace = self.trace[:self.pos] + [o]
        self.pos += 1
        self.memo[key] = o
        self.decisions.append((desc, o, self.site()))
        return o

    def decide(self, v, prefer=False):
        """truth value of an undecided condition"""
        key = ("t", v.vid)
        neg = False
        k = VN.rev[v.vid] if v.vid is not None else None
        if k and k[0] == "op" and k[1] == "not":
            key = ("t", k[2]); neg = True
        known = key in self.memo
        r = self.choose(key, [bool(prefer) ^ neg, (not prefer) ^ neg], f"cond {vshow(v.vid)}" if v.vid is not None else "cond")
        r = bool(r) ^ neg
        if not known:
            if isinstance(v, Num) and v.cond is not None: self.assume(v.cond, r)
            if isinstance(v, (Num, Unk)): self.event("branch", cond=v, outcome=r)
        return r

    def assume(self, cond, r):
        k = cond[0]
        if k == "ge0":
            self.bounds.assume_ge0(cond[1] if r else -cond[1] - 1)
        elif k == "eq0":
            if r:
                self.bounds.assume_ge0(cond[1]); self.bounds.assume_ge0(-cond[1])
            else:
                m, M = self.bounds.min(cond[1]), self.bounds.max(cond[1])
                if m == 0: self.bounds.assume_ge0(cond[1] - 1)
                elif M == 0: self.bounds.assume_ge0(-cond[1] - 1)
        elif k == "not":
            self.assume(cond[1], not r)
        elif k == "eqv" :
            if r: self.flags.add("special-value")

    def truth(self, v, prefer=None):
        if isinstance(v, Const): return bool(v.v)
        if isinstance(v, Num):
            if v.c is not None: return bool(v.c)
            if v.lin is not None:
                e = self.bounds.eq0(v.lin)
                if e is not None: return not e
                return self.decide(Num(f=F(ONE, V0, "b", v.deps), vid=vop("nz", v.vid), cond=("not", ("eq0", v.lin))), True)
            if v.cond is None and v.f.dt != "b":
                return self.decide(Num(f=F(ONE, V0, "b", v.deps), vid=vop("nz", v.vid), cond=("not", ("eqv",))), True)
            return self.decide(v, bool(prefer))
        if isinstance(v, Lst):
            n = v.n
            if n is None: return self.decide(Num(f=F(ONE, V0, "b", v.deps), vid=vop("nonempty", v.vid)), True)
            e = self.bounds.eq0(n)
            if e is not None: return not e
            return self.decide(Num(f=F(ONE, V0, "b", v.deps), vid=vop("nz", vlinform(n)), cond=("not", ("eq0", n))), True)
        if isinstance(v, Tup): return bool(v.items)
        if isinstance(v, Dct): return bool(v.d)
        if isinstance(v, SetV): return bool(v.d)
        if isinstance(v, AbsSeq):
            if v.items is not None: return bool(v.items)
            if v.n is not None:
                e = self.bounds.eq0(v.n)
                if e is not None: return not e
            return self.decide(Unk("seq", v.deps, vop("nz", v.vid)), True)
        if isinstance(v, Arr):
            self.refresh(v)
            if v.const is not None:
                try: return bool(v.const)
                except ValueError: self.raise_("ValueError", "truth value of an array")
            if v.shape is not None:
                n = self.npm.size_of(v.shape)
                if n is not None and n.is_const and n.c > 1: self.raise_("ValueError", "truth value of an array")
            return self.decide(Num(f=F(v.f.unit, V0, "b", v.deps), vid=vop("nz", v.vid)), True)
        if isinstance(v, Obj):
            for m in ("__bool__", "__len__"):
                f, _ = v.cls.lookup(m)
                if f is not None: return self.truth(self.call(Bound(f, v), [], {}))
            return True
        if isinstance(v, (Unk, SymStr)): return self.decide(v, True)
        return True

    # ------------------------------------------------------------------ modules
    def load_module(self, name):
        if name in self.modules: return self.modules[name]
        if name.split(".")[0] == "qmat":
            rel = name.replace(".", "/")
            p = os.path.join(self.root, rel)
            if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
                path, pkg = os.path.join(p, "__init__.py"), True
            elif os.path.exists(p + ".py"): path, pkg = p + ".py", False
            else: self.raise_("ModuleNotFoundError", name)
            if "." in name: self.load_module(name.rsplit(".", 1)[0])
            if name in self.modules: return self.modules[name]
            m = Mod(name, {}, path); m.epoch = 0
            self.modules[name] = m
            m.ns["__name__"] = Const(name)
            m.ns["__file__"] = Const(path)
            m.ns["__doc__"] = NONE
            m.ns["__package__"] = Const(name if pkg else name.rsplit(".", 1)[0])
            if pkg: m.ns["__path__"] = Lst([Const(p)], 0, "import")
            with open(path, encoding="utf-8") as f: src = f.read()
            tree = ast.parse(src, path)
            m.tree = tree
            fr = Frame(m); fr.locals = m.ns
            save = self.line
            self.stack.append((name + ".<module>", os.path.relpath(path, self.root)))
            try:
                self.exec_block(tree.body, fr)
            finally:
                self.stack.pop(); self.line = save
            if "." in name:
                par, leaf = name.rsplit(".", 1)
                self.modules[par].ns[leaf] = m
            return m
        m = self.lib.native_module(self, name)
        self.modules[name] = m
        return m

    # ------------------------------------------------------------------ names
    def lookup(self, name, fr):
        f = fr; first = True
        while f is not None:
            if first or not f.is_class:
                if name in f.locals and not (name in f.globals_decl and f is fr and f.func is not None): return f.locals[name]
            first = False
            f = f.parent
        if name in fr.mod.ns: return fr.mod.ns[name]
        b = self.lib.builtin(self, name)
        if b is not None: return b
        self.raise_("NameError", name)

    def bind(self, name, val, fr):
        if name in fr.globals_decl:
            self.set_attr(fr.mod, name, val); return
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None:
                if name in f.locals and not f.is_class:
                    old = f.locals[name]
                    self.undo.append(lambda f=f, old=old: f.locals.__setitem__(name, old))
                    f.locals[name] = val; return
                f = f.parent
        if fr.func is None and not fr.is_class and fr.locals is fr.mod.ns:
            fr.locals[name] = val
            return
        fr.locals[name] = val

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, fr):
        for s in stmts:
            r = self.exec(s, fr)
            if r is not None: return r
        return None

    def exec(self, s, fr):
        self.line = s.lineno
        self.steps += 1
        if self.steps > self.max_steps: raise Abort("step budget")
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Abort("statement " + type(s).__name__)
        return m(s, fr)

    def x_Expr(self, s, fr): self.eval(s.value, fr)
    def x_Pass(self, s, fr): pass
    def x_Import(self, s, fr):
        for a in s.names:
            m = self.load_module(a.name)
            if a.asname: self.bind(a.asname, m, fr)
            else: self.bind(a.name.split(".")[0], self.load_module(a.name.split(".")[0]), fr)

    def x_ImportFrom(self, s, fr):
        name = s.module or ""
        if s.level:
            pk = fr.mod.ns["__package__"].v.split(".")
            pk = pk[:len(pk) - (s.level - 1)]
            name = ".".join(pk + ([name] if name else []))
        m = self.load_module(name)
        for a in s.names:
            if a.name == "*":
                allv = m.ns.get("__all__")
                names = [x.v for x in (allv.concrete() or [])] if isinstance(allv, Lst) else [k for k in m.ns if not k.startswith("_")]
                for n in names:
                    if n in m.ns: self.bind(n, m.ns[n], fr)
                continue
            v = self.mod_attr(m, a.name)
            if v is None:
                try: v = self.load_module(name + "." + a.name)
                except AbsRaise: self.raise_("ImportError", f"cannot import name {a.name}")
            self.bind(a.asname or a.name, v, fr)

    def mod_attr(self, m, name):
        if name in m.ns: return m.ns[name]
        if m.native: return self.lib.native_attr(self, m, name)
        return None

    def x_FunctionDef(self, s, fr):
        fn = self.make_func(s, fr)
        v = fn
        for d in reversed(s.decorator_list):
            dec = self.eval(d, fr)
            v = self.call(dec, [v], {})
        self.bind(s.name, v, fr)
    x_AsyncFunctionDef = x_FunctionDef

    def make_func(self, node, fr):
        a = node.args
        defaults = [self.eval(d, fr) for d in a.defaults]
        kwd = {p.arg: self.eval(d, fr) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        pre = ""
        f = fr
        if fr.func is not None: pre = fr.func.qual + ".<locals>."
        elif fr.is_class: pre = fr.qual + "."
        else: pre = fr.mod.name + "."
        fn = Func(node, fr, fr.mod, pre + getattr(node, "name", "<lambda>"), defaults, kwd, epoch=self.epoch)
        if self.epoch == 0: fn.origin = "import"
        cf = fr
        fn.clscell = fr.clscell
        fn.attrs["__doc__"] = Const(ast.get_docstring(node)) if isinstance(node, ast.FunctionDef) else NONE
        fn.isgen = isinstance(node, ast.FunctionDef) and any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in _walk_fn(node))
        return fn

    def x_ClassDef(self, s, fr):
        bases = [self.eval(b, fr) for b in s.bases]
        ntup = any(isinstance(b, Builtin) and b.name == "typing.NamedTuple" for b in bases)
        bases = [b for b in bases if isinstance(b, Cls)]
        objc = self.lib.BUILTIN_CLASSES["object"]
        if not bases: bases = [objc]
        cfr = Frame(fr.mod, fr, fr.func, True)
        cfr.func = None
        cfr.qual = (fr.qual + "." if fr.is_class else (fr.func.qual + ".<locals>." if fr.func else fr.mod.name + ".")) + s.name
        cfr.clscell = [None]
        cfr.locals["__module__"] = Const(fr.mod.name)
        cfr.locals["__qualname__"] = Const(s.name)
        doc = ast.get_docstring(s)
        cfr.locals["__doc__"] = Const(doc)
        self.stack.append((cfr.qual, self.stack[-1][1] if self.stack else "?"))
        try: self.exec_block(s.body, cfr)
        finally: self.stack.pop()
        pyb = next((b.py for b in bases if b.py and issubclass(b.py, BaseException)), None)
        cls = Cls(s.name, bases, cfr.locals, fr.mod, pyb, cfr.qual, self.epoch, "import" if self.epoch == 0 else "fresh")
        cls.node = s
        cls.annots = [x.target.id for x in s.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and "ClassVar" not in ast.unparse(x.annotation)]
        if ntup: cls.ntup = cls.annots
        cfr.clscell[0] = cls
        for b in cls.mro()[1:]:
            if "__init_subclass__" in b.ns:
                f = b.ns["__init_subclass__"]
                f = f.fn if isinstance(f, ClassM) else f
                kw = {k.arg: self.eval(k.value, fr) for k in s.keywords if k.arg}
                self.call(f, [cls], kw)
                break
        v = cls
        for d in reversed(s.decorator_list):
            dec = self.eval(d, fr)
            v = self.call(dec, [v], {})
        self.bind(s.name, v, fr)

    def x_Return(self, s, fr):
        return (RET, self.eval(s.value, fr) if s.value else NONE)

    def x_Break(self, s, fr): return (BRK, None)
    def x_Continue(self, s, fr): return (CNT, None)

    def x_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name): fr.locals.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, fr)
                if isinstance(o, (Obj, Cls, Mod)): self.del_attr(o, t.attr)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr); k = self.eval(t.slice, fr)
                self.lib.delitem(self, o, k)

    def x_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets: self.assign(t, v, fr)

    def x_AnnAssign(self, s, fr):
        if s.value is not None: self.assign(s.target, self.eval(s.value, fr), fr)

    def x_AugAssign(self, s, fr):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr); rhs = self.eval(s.value, fr)
            self.line = s.lineno
            self.bind(t.id, self.inplace(op, cur, rhs), fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr); cur = self.getattr(o, t.attr); rhs = self.eval(s.value, fr)
            self.line = s.lineno
            self.setattr(o, t.attr, self.inplace(op, cur, rhs))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr); k = self.eval(t.slice, fr)
            cur = self.getitem(o, k); rhs = self.eval(s.value, fr)
            self.line = s.lineno
            if isinstance(o, Arr):
                self.setitem(o, k, self.binop(op, cur, rhs), aug=True)
            else:
                self.setitem(o, k, self.inplace(op, cur, rhs))

    def inplace(self, op, cur, rhs):
        if isinstance(cur, Arr):
            return self.npm.inplace(self, op, cur, rhs)
        if isinstance(cur, Lst) and op == "Add":
            self.lib.list_extend(self, cur, rhs)
            return cur
        if isinstance(cur, Dct) and op == "BitOr":
            self.lib.dict_update(self, cur, rhs); return cur
        if isinstance(cur, Obj):
            nm = {"Add": "__iadd__", "Sub": "__isub__", "Mult": "__imul__", "Div": "__itruediv__"}.get(op)
            f = cur.cls.lookup(nm)[0] if nm else None
            if f is not None: return self.call(Bound(f, cur), [rhs], {})
        return self.binop(op, cur, rhs)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name): self.bind(t.id, v, fr)
        elif isinstance(t, ast.Attribute): self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript): self.setitem(self.eval(t.value, fr), self.eval(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fr)
        elif isinstance(t, ast.Starred): self.assign(t.value, v, fr)

    def unpack(self, elts, v, fr):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        seq = self.to_seq(v)
        items = seq.items
        if items is None:
            if not star and seq.n is not None and self.bounds.eq0(seq.n - len(elts)) is False:
                self.raise_("ValueError", "cannot unpack")
            if star:
                for e in elts:
                    self.assign(e, self.unk("star unpack", v), fr)
                return
            items = [seq.get(L(i)) for i in range(len(elts))] if seq.get else [self.unk("unpack", v) for _ in elts]
        if star:
            i = star[0]; after = len(elts) - i - 1
            if len(items) < len(elts) - 1: self.raise_("ValueError", "not enough values to unpack")
            for e, x in zip(elts[:i], items[:i]): self.assign(e, x, fr)
            self.assign(elts[i].value, self.new_epoch(Lst(items[i:len(items) - after])), fr)
            for e, x in zip(elts[i + 1:], items[len(items) - after:]): self.assign(e, x, fr)
            return
        if len(items) != len(elts): self.raise_("ValueError", f"cannot unpack {len(items)} values to {len(elts)}")
        for e, x in zip(elts, items): self.assign(e, x, fr)

    def x_If(self, s, fr):
        if self.truth(self.eval(s.test, fr)): return self.exec_block(s.body, fr)
        return self.exec_block(s.orelse, fr)

    def x_Match(self, s, fr):
        v = self.eval(s.subject, fr)
        for c in s.cases:
            if self.matches(c.pattern, v, fr) and (c.guard is None or self.truth(self.eval(c.guard, fr))): return self.exec_block(c.body, fr)

    def matches(self, p, v, fr):
        if isinstance(p, ast.MatchValue): return self.truth(self.lib.compare(self, "Eq", v, self.eval(p.value, fr)))
        if isinstance(p, ast.MatchSingleton): return self.truth(self.lib.compare(self, "Is", v, self.eval(ast.copy_location(ast.Constant(p.value), p), fr)))
        if isinstance(p, ast.MatchOr): return any(self.matches(q, v, fr) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.matches(p.pattern, v, fr): return False
            if p.name is not None: self.bind(p.name, v, fr)
            return True
        if isinstance(p, ast.MatchSequence) and isinstance(v, (Lst, Tup)):
            it = self.to_seq(v).items
            if it is not None and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
                return len(it) == len(p.patterns) and all(self.matches(q, x, fr) for q, x in zip(p.patterns, it))
        if isinstance(p, ast.MatchSequence) and isinstance(v, (Num, Const, Dct)): return False
        if isinstance(p, ast.MatchClass) and not p.patterns:
            r = self.lib.isinst(self, v, self.eval(p.cls, fr))
            if r is not None: return r and all(self.matches(q, self.lib.getattr_(self, v, n), fr) for n, q in zip(p.kwd_attrs, p.kwd_patterns))
        raise Abort("pattern " + type(p).__name__)

    def x_Assert(self, s, fr):
        v = self.eval(s.test, fr)
        if not self.truth(v, prefer=True):
            self.line = s.lineno
            self.raise_("AssertionError", self.eval(s.msg, fr) if s.msg else Const(""))

    def x_Raise(self, s, fr):
        if s.exc is None:
            f = fr
            while f is not None:
                if f.exc is not None: raise f.exc
                f = f.parent
            self.raise_("RuntimeError", "No active exception to reraise")
        v = self.eval(s.exc, fr)
        if s.cause is not None: self.eval(s.cause, fr)
        self.line = s.lineno
        if isinstance(v, Cls): v = self.call(v, [], {})
        if isinstance(v, Obj): raise AbsRaise(v, self.site())
        raise AbsRaise(self.exc_obj("Exception", "unknown"), self.site())

    def x_Try(self, s, fr):
        r = None
        try:
            try:
                r = self.exec_block(s.body, fr)
                if r is None and s.orelse: r = self.exec_block(s.orelse, fr)
            except AbsRaise as e:
                h = self.match_handler(s.handlers, e, fr)
                if h is None: raise
                if h.name: fr.locals[h.name] = e.exc
                olde = fr.exc; fr.exc = e
                try: r = self.exec_block(h.body, fr)
                finally: fr.exc = olde
        except AbsRaise:
            if s.finalbody:
                rf = self.exec_block(s.finalbody, fr)
                if rf is not None: return rf
            raise
        if s.finalbody:
            rf = self.exec_block(s.finalbody, fr)
            if rf is not None: return rf
        return r

    def match_handler(self, handlers, e, fr):
        for h in handlers:
            if h.type is None: return h
            t = self.eval(h.type, fr)
            ts = t.items if isinstance(t, Tup) else [t]
            for c in ts:
                if isinstance(c, Cls) and e.exc.cls.issub(c): return h
        return None

    def x_With(self, s, fr):
        mgrs = []
        def leave(exc):
            supp = False
            for m, kind in reversed(mgrs):
                if kind == "native":
                    if m.exit: m.exit(self)
                else:
                    f, _ = m.cls.lookup("__exit__")
                    if f is not None:
                        a = [NONE, NONE, NONE] if exc is None else [exc.exc.cls, exc.exc, self.unk("tb")]
                        rv = self.call(Bound(f, m), a, {})
                        if exc is not None and self.truth(rv): supp = True
            return supp
        for it in s.items:
            v = self.eval(it.context_expr, fr)
            if isinstance(v, CtxMgr):
                ent = v.enter(self) if v.enter else NONE
                mgrs.append((v, "native"))
            elif isinstance(v, Obj) and v.cls.lookup("__enter__")[0] is not None:
                ent = self.call(Bound(v.cls.lookup("__enter__")[0], v), [], {})
                mgrs.append((v, "obj"))
            else: ent = v
            if it.optional_vars is not None: self.assign(it.optional_vars, ent, fr)
        try:
            r = self.exec_block(s.body, fr)
        except AbsRaise as e:
            if leave(e): return None
            raise
        leave(None)
        return r

    def x_Global(self, s, fr): fr.globals_decl.update(s.names)
    def x_Nonlocal(self, s, fr): fr.nonlocals.update(s.names)

    # ------------------------------------------------------------------ loops
    def x_For(self, s, fr):
        seq = self.to_seq(self.eval(s.iter, fr))
        if seq.items is not None:
            if len(seq.items) <= 300:
                for x in seq.items:
                    self.assign(s.target, x, fr)
                    r = self.exec_block(s.body, fr)
                    if r is not None:
                        if r[0] == BRK: return None
                        if r[0] == RET: return r
                return self.exec_block(s.orelse, fr)
            seq = AbsSeq(L(len(seq.items)), lambda i: seq.items[0], seq.deps)
        # constant length
        if seq.n is not None and seq.n.is_const and 0 <= seq.n.c <= 64:
            for i in range(int(seq.n.c)):
                self.assign(s.target, seq.get(L(i)), fr)
                r = self.exec_block(s.body, fr)
                if r is not None:
                    if r[0] == BRK: return None
                    if r[0] == RET: return r
            return self.exec_block(s.orelse, fr)
        if seq.cuts and not s.orelse and not any(isinstance(x, ast.Break) for x in ast.walk(s)):
            # the sequence is made of runs of different origin: one after the other
            off = L(0)
            for n in seq.cuts:
                if n.is_const and n.c <= 64:
                    for j in range(int(n.c)):
                        self.assign(s.target, seq.get(off + j), fr)
                        r = self.exec_block(s.body, fr)
                        if r is not None and r[0] == RET: return r
                else:
                    r = self.generic_loop(s, fr, AbsSeq(n, lambda i, off=off: seq.get(off + L(i)), seq.deps, vop("part", seq.vid, vlinform(off))))
                    if r is not None and r[0] == RET: return r
                off = off + n
            return None
        return self.generic_loop(s, fr, seq)

    def nonempty(self, n, what):
        if n is None:
            return True
        g = self.bounds.ge0(n - 1)
        if g is not None: return g
        return self.decide(Num(f=F(ONE, V0, "b"), vid=vop("ge0", vlinform(n - 1)), cond=("ge0", n - 1)), True)

    def generic_index(self, node, n):
        key = f"i@{self.stack[-1][1] if self.stack else ''}:{node.lineno}:{node.col_offset}[{n}]"
        d = 0
        name = key
        while name in self.active_loop_sites:
            d += 1; name = f"{key}#{d}"
        if name not in self.bounds.b:
            self.bounds.declare(name, 0, n - 1 if n is not None else None)
        return name

    def loop_index(self, node, n):
        name = self.generic_index(node, n)
        core.LOOP_INDICES.add(VN.mk(("sym", name)))
        return name

    def generic_loop(self, s, fr, seq):
        if not self.nonempty(seq.n, s): return self.exec_block(s.orelse, fr)
        self.loops_generic += 1
        name = self.loop_index(s, seq.n)
        i = Sym(name)
        self.active_loop_sites.append(name)
        try:
            assigned = _assigned_names(s.body)
            before = {k: fr.locals.get(k) for k in assigned}
            # trial pass: find induction variables, then roll back
            mark = len(self.undo), len(self.effects), len(self.events)
            trial_lp = LoopCtx(seq.n, core._ids[0], "first"); trial_lp.sym = name
            self.loops.append(trial_lp)
            res = None
            snap = dict(fr.locals)
            try:
                self.assign(s.target, seq.get(i), fr)
                res = self.exec_block(s.body, fr)
            finally:
                self.loops.pop()
            ind = {}
            for k in assigned:
                a, b = before.get(k), fr.locals.get(k)
                if isinstance(a, Num) and isinstance(b, Num) and a.lin is not None and b.lin is not None and a.lin != b.lin:
                    ind[k] = (a.lin, b.lin - a.lin)
            if res is not None and res[0] in (RET, BRK):
                # leaving the loop in the generic iteration
                if res[0] == BRK: self.loop_broken(fr, trial_lp, assigned, before, name)
                return res if res[0] == RET else None
            if ind:
                self.rollback(mark)
                fr.locals.clear(); fr.locals.update(snap)
                for k, (a, d) in ind.items():
                    if d.is_const: fr.locals[k] = Num(lin=a + i.scale(d.c))
                    else: fr.locals[k] = Num(f=F(ONE, V0, "i"))
                lp = trial_lp = LoopCtx(seq.n, core._ids[0], "first"); lp.sym = name
                self.loops.append(lp)
                try:
                    self.assign(s.target, seq.get(i), fr)
                    res = self.exec_block(s.body, fr)
                finally: self.loops.pop()
                if res is not None and res[0] in (RET, BRK): return res if res[0] == RET else None
            # second generic pass, from the state after an iteration
            lp = LoopCtx(seq.n, trial_lp.start_id, "again", trial_lp); lp.sym = name
            one = self.loop_state(fr, assigned, trial_lp)
            for k, (a, d) in ind.items():
                fr.locals[k] = Num(lin=a + i.scale(d.c)) if d.is_const else Num(f=F(ONE, V0, "i"))
            self.loop_carry(fr, assigned, before, ind, name)
            self.loops.append(lp)
            try:
                self.assign(s.target, seq.get(i), fr)
                res = self.exec_block(s.body, fr)
            finally: self.loops.pop()
            if res is not None and res[0] in (RET, BRK): return res if res[0] == RET else None
            for k, (a, d) in ind.items():
                fr.locals[k] = Num(lin=a + seq.n.scale(d.c)) if d.is_const and seq.n is not None else Num(f=F(ONE, V0, "i"))
            self.loop_changed(fr, assigned, ind, one, lp, name)
            self.loop_last(fr, assigned, ind, name, seq.n)
        finally:
            self.active_loop_sites.pop()
        return self.exec_block(s.orelse, fr)

    def loop_carry(self, fr, assigned, before, ind, name):
        """values carried over belong to the previous iteration"""
        at = VN.mk(("sym", name))
        for k in assigned:
            v = fr.locals.get(k)
            if k in ind or v is before.get(k): continue
            if isinstance(v, Num) and v.lin is None and v.c is None and at in vsubterms(v.vid):
                fr.locals[k] = Num(f=v.f, vid=vop("prev", v.vid), cond=None, np=v.np)
            elif isinstance(v, Arr) and v.view is None and v.vid is not None and at in vsubterms(v.vid):
                old = v.vid, v.ver
                self.undo.append(lambda v=v, old=old: (setattr(v, "vid", old[0]), setattr(v, "ver", old[1])))
                v.vid = vop("prev", v.vid); v.ver = newid()

    def carried(self, a, b, name):
        """a value that depends on the iterations before: known facts, unknown value"""
        vid = vop("loopstate", b.vid, VN.mk(("sym", name)))
        if isinstance(b, Num):
            f = fjoin(a.f, b.f, self.site(), "loop") if isinstance(a, Num) else b.f
            return Num(f=f, vid=vid, np=b.np)
        f = fjoin(a.f, b.f, self.site(), "loop") if isinstance(a, Arr) else b.f
        same = isinstance(a, Arr) and a.shape == b.shape
        return Arr(b.shape if same else None, f, vid, self.npm.band_join(self, a.band, b.band) if same and len(b.shape or ()) == 2 else None, epoch=self.epoch)

    def loop_state(self, fr, assigned, lp):
        """terms of what an iteration changed"""
        st = {}
        for k in assigned:
            v = fr.locals.get(k)
            if isinstance(v, Arr): self.refresh(v)
            if isinstance(v, (Num, Arr)): st["l", k] = v.vid
        for a in lp.arrs.values(): st["a", id(a)] = a.vid
        for (i, n), store in lp.attrs.items():
            v = store.get(n)
            if isinstance(v, (Num, Arr)): st["o", i, n] = v.vid
        return st

    def loop_blur(self, v, name):
        if v.vid is None: return v
        if isinstance(v, Num): return Num(f=v.f, vid=vop("loopstate", v.vid, VN.mk(("sym", name))), np=v.np)
        old = v.vid, v.segs, v.const, v.ver
        def undo(v=v, old=old): v.vid, v.segs, v.const, v.ver = old
        self.undo.append(undo)
        v.vid, v.segs, v.const, v.ver = vop("loopstate", v.vid, VN.mk(("sym", name))), None, None, newid()
        return v

    def loop_changed(self, fr, assigned, ind, one, lp, name):
        """what a second iteration changes again depends on all of them: its value is unknown"""
        done = set()
        for a in lp.arrs.values():
            if a.view is None and ("a", id(a)) in one and one["a", id(a)] != a.vid: self.loop_blur(a, name); done.add(id(a))
        for k in assigned:
            v = fr.locals.get(k)
            if k in ind or not isinstance(v, (Num, Arr)) or ("l", k) not in one or id(v) in done: continue
            if isinstance(v, Arr):
                self.refresh(v)
                if v.view is not None or id(v) in lp.arrs: continue
            if v.vid != one["l", k]: fr.locals[k] = self.loop_blur(v, name)
        for (i, n), store in lp.attrs.items():
            v = store.get(n)
            if isinstance(v, (Num, Arr)) and ("o", i, n) in one and one["o", i, n] != v.vid and id(v) not in done: store[n] = self.loop_blur(v, name)

    def loop_broken(self, fr, lp, assigned, before, name):
        """left by break in some iteration"""
        at = VN.mk(("sym", name))
        for a in lp.arrs.values():
            if a.view is None and a.vid is not None and at not in vsubterms(a.vid): self.loop_blur(a, name)
        for k in assigned:
            v = fr.locals.get(k)
            if isinstance(v, Num) and v is not before.get(k) and isinstance(before.get(k), Num) and v.vid is not None and at not in vsubterms(v.vid) and v.vid != before[k].vid: fr.locals[k] = self.loop_blur(v, name)

    def loop_last(self, fr, assigned, ind, name, n):
        """what is left after the loop is the state of its last iteration"""
        if n is None: return
        last = {name: n - 1}
        for k in assigned:
            v = fr.locals.get(k)
            if k in ind: continue
            if isinstance(v, Num) and v.lin is not None and name in v.lin.syms():
                fr.locals[k] = Num(lin=v.lin.subst(last), f=v.f)
            elif isinstance(v, Arr) and v.view is None and v.shape is not None and any(x is not None and name in x.syms() for x in v.shape):
                old = v.shape
                self.undo.append(lambda v=v, old=old: setattr(v, "shape", old))
                v.shape = tuple(None if x is None else x.subst(last) for x in old)

    def rollback(self, mark):
        u, e, v = mark
        while len(self.undo) > u: self.undo.pop()()
        del self.effects[e:]
        del self.events[v:]

    def x_While(self, s, fr):
        count = 0
        while True:
            c = self.eval(s.test, fr)
            known = self.known_truth(c)
            if known is None: break
            if not known: return self.exec_block(s.orelse, fr)
            r = self.exec_block(s.body, fr)
            if r is not None:
                if r[0] == BRK: return None
                if r[0] == RET: return r
            count += 1
            if count > 300: raise Abort("while loop")
        # symbolic: recognise counters
        assigned = _assigned_names(s.body)
        before = {k: fr.locals.get(k) for k in assigned}
        snap = dict(fr.locals)
        mark = len(self.undo), len(self.effects), len(self.events)
        if not self.truth(c): return self.exec_block(s.orelse, fr)
        r = self.exec_block(s.body, fr)
        if r is not None and r[0] in (RET, BRK): return r if r[0] == RET else None
        ind = {}
        for k in assigned:
            a, b = before.get(k), fr.locals.get(k)
            if isinstance(a, Num) and isinstance(b, Num) and a.lin is not None and b.lin is not None and a.lin != b.lin:
                d = b.lin - a.lin
                if d.is_const: ind[k] = (a.lin, d.c)
        if not ind: raise Abort("while loop without counter")
        self.rollback(mark); fr.locals.clear(); fr.locals.update(snap)
        # trip count from the condition  lin >= 0  with lin decreasing by `dec` per iteration
        n = None
        if isinstance(c, Num) and c.cond is not None and c.cond[0] == "ge0":
            # value of the condition as function of the iteration number
            tmp = Sym("__it")
            for k, (a, d) in ind.items(): fr.locals[k] = Num(lin=a + tmp.scale(d))
            c2 = self.eval(s.test, fr)
            if isinstance(c2, Num) and c2.cond is not None and c2.cond[0] == "ge0":
                g = c2.cond[1]; kk = dict(g.t).get("__it", 0)
                if kk == -1: n = g + tmp + 1
        if n is None: raise Abort("while loop with unknown trip count")
        name = self.loop_index(s, n)
        i = Sym(name)
        self.active_loop_sites.append(name)
        try:
            start = core._ids[0]
            for phase in ("first", "again"):
                for k, (a, d) in ind.items(): fr.locals[k] = Num(lin=a + i.scale(d))
                lp = LoopCtx(n, start, phase, None if phase == "first" else lp); lp.sym = name
                self.loops.append(lp)
                try: r = self.exec_block(s.body, fr)
                finally: self.loops.pop()
                if r is not None and r[0] in (RET, BRK): return r if r[0] == RET else None
                if phase == "first":
                    one = self.loop_state(fr, assigned, lp)
                    self.loop_carry(fr, assigned, before, ind, name)
                else: self.loop_changed(fr, assigned, ind, one, lp, name)
            self.loop_last(fr, assigned, ind, name, n)
            for k, (a, d) in ind.items(): fr.locals[k] = Num(lin=a + n.scale(d))
        finally: self.active_loop_sites.pop()
        return self.exec_block(s.orelse, fr)

    def known_truth(self, v):
        if isinstance(v, Const): return bool(v.v)
        if isinstance(v, Num) and v.c is not None: return bool(v.c)
        if isinstance(v, Num): return None
        if isinstance(v, (Lst, Tup, Dct)): return self.truth(v)
        return None

    # ------------------------------------------------------------------ sequences
    def to_seq(self, v):
        if isinstance(v, AbsSeq): return v
        if isinstance(v, Tup): return AbsSeq(L(len(v.items)), lambda i: v.items[int(i.c)], v.deps, v.vid, items=list(v.items))
        if isinstance(v, Lst):
            it = v.concrete()
            if it is not None: return AbsSeq(L(len(it)), None, v.deps, v.vid, items=list(it))
            q = AbsSeq(v.n, lambda i: self.lib.list_get(self, v, i), v.deps, v.vid)
            if len(v.segs) > 1 and all(x.n is not None for x in v.segs): q.cuts = [x.n for x in v.segs]
            return q
        if isinstance(v, Arr):
            self.refresh(v)
            if v.shape is None: return AbsSeq(None, lambda i: self.unk("row", v), v.deps, vop("iter", v.vid))
            if not v.shape: self.raise_("TypeError", "iteration over a 0-d array")
            n = v.shape[0]
            if n is not None and n.is_const and n.c <= 64:
                return AbsSeq(n, None, v.deps, vop("iter", v.vid), items=[self.getitem(v, Num(c=i)) for i in range(int(n.c))])
            return AbsSeq(n, lambda i: self.getitem(v, Num(lin=i)), v.deps, vop("iter", v.vid))
        if isinstance(v, Dct):
            ks = [kv for kv, _ in v.d.values()]
            return AbsSeq(L(len(ks)), None, v.deps, items=ks)
        if isinstance(v, SetV):
            ks = list(v.d.values())
            return AbsSeq(L(len(ks)), None, v.deps, items=ks)
        if isinstance(v, Const) and isinstance(v.v, str):
            return AbsSeq(L(len(v.v)), None, items=[Const(ch) for ch in v.v])
        if isinstance(v, (Num, Const)):
            self.raise_("TypeError", "object is not iterable")
        if isinstance(v, Obj):
            f, _ = v.cls.lookup("__iter__")
            if f is not None: return self.to_seq(self.call(Bound(f, v), [], {}))
            g, _ = v.cls.lookup("__getitem__")
            if g is None and v.opaque is None: self.raise_("TypeError", f"{v.cls.name} object is not iterable")
        if isinstance(v, (Func, Cls, Bound, Builtin, Mod)): self.raise_("TypeError", "object is not iterable")
        u = self.unk("iteration", v)
        return AbsSeq(None, lambda i: u, v.deps, vop("iter", v.vid) if v.vid is not None else None)

    def comp(self, node, fr, elt):
        """comprehension -> list of segments"""
        cfr = Frame(fr.mod, fr, fr.func)
        cfr.clscell, cfr.self0 = fr.clscell, fr.self0
        out = []
        def rec(gi, mult, sym):
            if gi == len(node.generators):
                v = elt(cfr)
                out.append(Seg(mult, v, sym))
                return
            g = node.generators[gi]
            seq = self.to_seq(self.eval(g.iter, fr if gi == 0 else cfr))
            items = seq.items
            if items is None and seq.n is not None and seq.n.is_const and 0 <= seq.n.c <= 64:
                items = [seq.get(L(j)) for j in range(int(seq.n.c))]
            if items is not None:
                for x in items:
                    self.assign(g.target, x, cfr)
                    if all(self.truth(self.eval(c, cfr)) for c in g.ifs): rec(gi + 1, mult, sym)
                return
            off = L(0)
            for n in seq.cuts or [seq.n]:
                if n is not None and n.is_const and seq.cuts and n.c <= 64:
                    for j in range(int(n.c)):
                        self.assign(g.target, seq.get(off + j), cfr)
                        if all(self.truth(self.eval(c, cfr)) for c in g.ifs): rec(gi + 1, mult, sym)
                else: run(gi, g, seq, n, off, mult)
                off = None if n is None else off + n
        def run(gi, g, seq, n, off, mult):
            if not self.nonempty(n, node): return
            self.loops_generic += 1
            name = self.generic_index(node, n)
            self.active_loop_sites.append(name)
            try:
                self.assign(g.target, seq.get(off + Sym(name)), cfr)
                m = mult
                for c in g.ifs:
                    cv = self.eval(c, cfr)
                    before = len(self.memo)
                    ok = self.truth(cv)
                    known = None if len(self.memo) > before else ok
                    if not ok:
                        # decided for the representative element only: others may pass
                        if known is None and cv.vid is not None and vlinform(Sym(name)) in vsubterms(cv.vid): out.append(Seg(None, self.unk("filtered elements", cv)))
                        return
                    if known is None: m = None
                if m is not None:
                    if n is None: m = None
                    elif m.is_const: m = n.scale(m.c)
                    elif n.is_const: m = m.scale(n.c)
                    else: m = None
                rec(gi + 1, m, name)
            finally: self.active_loop_sites.pop()
        rec(0, L(1), None)
        return out

    # ------------------------------------------------------------------ expressions
    def eval(self, e, fr):
        self.steps += 1
        if self.steps > self.max_steps: raise Abort("step budget")
        if hasattr(e, "lineno"): self.line = e.lineno
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None: return self.unk("expr " + type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        if isinstance(e.value, (bool, int, float, complex)): return Num(c=e.value)
        return Const(e.value)

    def e_Name(self, e, fr): return self.lookup(e.id, fr)
    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        f = fr
        self.bind(e.target.id, v, f); return v

    def e_Tuple(self, e, fr): return Tup(self.elts(e.elts, fr))
    def e_List(self, e, fr):
        segs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                segs += self.lib.as_segs(self, self.eval(x.value, fr))
            else: segs.append(Seg(L(1), self.eval(x, fr)))
        return self.new_epoch(Lst(segs))
    def e_Set(self, e, fr):
        s = SetV([])
        for x in self.elts(e.elts, fr): s.d[self.key(x)] = x
        return self.new_epoch(s)

    def elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                s = self.to_seq(self.eval(x.value, fr))
                if s.items is not None: out += s.items
                elif s.n is not None and s.n.is_const: out += [s.get(L(i)) for i in range(int(s.n.c))]
                else: out.append(self.unk("starred"))
            else: out.append(self.eval(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = self.new_epoch(Dct())
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v, fr)
                if isinstance(o, Dct):
                    for kk, kv in o.d.items(): d.d[kk] = kv
                continue
            kv = self.eval(k, fr); vv = self.eval(v, fr)
            d.d[self.key(kv)] = (kv, vv)
        return d

    def key(self, v):
        if isinstance(v, Const): return ("c", v.v)
        if isinstance(v, Num):
            if v.c is not None: return ("n", v.c)
            return ("v", v.vid)
        if isinstance(v, Tup): return ("t",) + tuple(self.key(x) for x in v.items)
        if isinstance(v, (Lst, Dct, SetV, Arr)): self.raise_("TypeError", "unhashable type")
        if isinstance(v, (Cls, Func, Obj, Mod)): return ("id", v.id)
        if v.vid is not None: return ("v", v.vid)
        return ("x", id(v))

    def e_ListComp(self, e, fr): return self.new_epoch(Lst(self.comp(e, fr, lambda f: self.eval(e.elt, f))))
    def e_GeneratorExp(self, e, fr):
        l = Lst(self.comp(e, fr, lambda f: self.eval(e.elt, f)))
        return self.to_seq(l)
    def e_SetComp(self, e, fr):
        s = SetV([])
        for g in self.comp(e, fr, lambda f: self.eval(e.elt, f)): s.d[self.key(g.val)] = g.val
        return self.new_epoch(s)
    def e_DictComp(self, e, fr):
        d = self.new_epoch(Dct())
        for g in self.comp(e, fr, lambda f: Tup([self.eval(e.key, f), self.eval(e.value, f)])):
            k, v = g.val.items
            d.d[self.key(k)] = (k, v)
        return d

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr)

    def e_IfExp(self, e, fr):
        if self.truth(self.eval(e.test, fr)): return self.eval(e.body, fr)
        return self.eval(e.orelse, fr)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1: return v
            t = self.truth(v)
            if isand and not t:
                return v if self.known_truth(v) is not None else Num(c=False)
            if not isand and t:
                return v if (self.known_truth(v) is not None or not (isinstance(v, Num) and v.f.dt == "b")) else Num(c=True)
        return v

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        self.line = e.lineno
        op = type(e.op).__name__
        if op == "Not":
            if isinstance(v, Num) and v.c is None and v.f.dt == "b":
                return Num(f=v.f, vid=vop("not", v.vid), cond=("not", v.cond) if v.cond else None)
            return Num(c=not self.truth(v))
        return self.npm.unary(self, op, v)

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr); b = self.eval(e.right, fr)
        self.line = e.lineno
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        return self.lib.binop(self, op, a, b)

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = None
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c, fr)
            self.line = e.lineno
            r = self.lib.compare(self, type(op).__name__, left, right)
            if res is None: res = r
            else:
                res = r if self.truth(res) else Num(c=False)
            if len(e.ops) > 1 and self.known_truth(res) is False: return res
            left = right
        return res

    def e_Call(self, e, fr):
        # super() needs the frame
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args and self.is_builtin_name("super", fr):
            f = fr
            while f.parent is not None and f.clscell is None: f = f.parent
            cell = self.find_cell(fr)
            slf = self.find_self(fr)
            return self.lib.SuperV(cell, slf)
        if isinstance(e.func, ast.Name) and e.func.id in ("locals", "globals", "eval", "vars", "exec", "dir") and self.is_builtin_name(e.func.id, fr):
            return self.lib.frame_builtin(self, e.func.id, [self.eval(a, fr) for a in e.args], fr)
        fn = self.eval(e.func, fr)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                s = self.to_seq(self.eval(a.value, fr))
                if s.items is not None: args += s.items
                elif s.n is not None and s.n.is_const: args += [s.get(L(i)) for i in range(int(s.n.c))]
                else: args.append(self.unk("*args"))
            else: args.append(self.eval(a, fr))
        for k in e.keywords:
            v = self.eval(k.value, fr)
            if k.arg is None:
                if isinstance(v, Dct):
                    for kk, (kv, vv) in v.d.items():
                        if isinstance(kv, Const):
                            if kv.v in kwargs: self.raise_("TypeError", f"multiple values for keyword argument {kv.v}")
                            kwargs[kv.v] = vv
                else: self.unk("**kwargs", v)
            else:
                if k.arg in kwargs: self.raise_("TypeError", f"multiple values for keyword argument {k.arg}")
                kwargs[k.arg] = v
        self.line = e.lineno
        r = self.call(fn, args, kwargs)
        self.line = e.lineno
        return r

    def is_builtin_name(self, n, fr):
        f = fr
        while f is not None:
            if n in f.locals: return False
            f = f.parent
        return n not in fr.mod.ns

    def find_cell(self, fr):
        f = fr
        while f is not None:
            if f.func is not None and getattr(f.func, "clscell", None) is not None: return f.func.clscell[0]
            f = f.parent
        return None

    def find_self(self, fr):
        f = fr
        while f is not None:
            if f.self0 is not None: return f.self0
            f = f.parent
        return None

    def e_Attribute(self, e, fr):
        o = self.eval(e.value, fr)
        self.line = e.lineno
        return self.getattr(o, e.attr)

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr); k = self.eval(e.slice, fr)
        self.line = e.lineno
        return self.getitem(o, k)

    def e_Slice(self, e, fr):
        f = lambda x: NONE if x is None else self.eval(x, fr)
        return SliceV(f(e.lower), f(e.upper), f(e.step))

    def e_Starred(self, e, fr): return self.eval(e.value, fr)

    def e_JoinedStr(self, e, fr):
        parts, deps, ok = [], frozenset(), True
        for v in e.values:
            if isinstance(v, ast.Constant): parts.append(v.value); continue
            x = self.eval(v.value, fr)
            deps = deps | x.deps
            if isinstance(x, Const) and v.format_spec is None:
                parts.append(repr(x.v) if v.conversion == 114 else str(x.v))
            elif isinstance(x, Num) and x.c is not None and v.format_spec is None: parts.append(str(x.c))
            elif (isinstance(x, Num) and x.c is not None or isinstance(x, Const)) and v.format_spec is not None and v.conversion == -1 and isinstance(self.eval(v.format_spec, fr), Const):
                try: parts.append(format(x.c if isinstance(x, Num) else x.v, self.eval(v.format_spec, fr).v))
                except (ValueError, TypeError) as z: self.raise_(type(z).__name__, str(z))
            elif isinstance(x, Cls): parts.append(f"<class {x.name}>")
            else:
                ok = False; parts.append(x.vid if x.vid is not None else -1)
        if ok: return Const("".join(parts), deps)
        return SymStr(vop("fstr", *parts), deps)

    def e_FormattedValue(self, e, fr): return self.eval(e.value, fr)
    def e_Yield(self, e, fr):
        v = self.eval(e.value, fr) if e.value else NONE
        f = fr
        while f.yields is None and f.parent is not None: f = f.parent
        if f.yields is not None: self.lst_append(f.yields, v)
        return NONE
    def e_YieldFrom(self, e, fr):
        v = self.eval(e.value, fr)
        f = fr
        while f.yields is None and f.parent is not None: f = f.parent
        if f.yields is not None: self.lib.list_extend(self, f.yields, v)
        return NONE
    def e_Await(self, e, fr): return self.eval(e.value, fr)

    # ------------------------------------------------------------------ attribute / item access
    def getattr(self, o, name, default=None):
        v = self.lib.getattr_(self, o, name)
        if v is None:
            if default is not None: return default
            self.raise_("AttributeError", f"{o!r:.60} has no attribute {name!r}")
        return v

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            p, _ = o.cls.lookup(name)
            if isinstance(p, Prop):
                if p.fset is None: self.raise_("AttributeError", f"property {name} has no setter")
                self.call(p.fset, [o, v], {}); return
            f, c = o.cls.lookup("__setattr__")
            if f is not None and c.py is None: self.call(Bound(f, o), [Const(name), v], {}); return
            self.set_attr(o, name, v)
        elif isinstance(o, (Cls, Func)): self.set_attr(o, name, v)
        elif isinstance(o, Mod): self.set_attr(o, name, v)
        elif isinstance(o, Arr): self.npm.arr_setattr(self, o, name, v)
        elif isinstance(o, Builtin): o.attrs[name] = v
        else: self.unk("setattr", o)

    def getitem(self, o, k): return self.lib.getitem(self, o, k)
    def setitem(self, o, k, v, aug=False): return self.lib.setitem(self, o, k, v, aug)

    # ------------------------------------------------------------------ calls
    def call(self, fn, args, kwargs):
        self.calls += 1
        if isinstance(fn, Bound): return self.call(fn.fn, [fn.self_] + list(args), kwargs)
        if isinstance(fn, Func): return self.call_func(fn, args, kwargs)
        if isinstance(fn, Builtin): return fn.fn(self, list(args), dict(kwargs))
        if isinstance(fn, Cls): return self.instantiate(fn, args, kwargs)
        if isinstance(fn, (StaticM, ClassM)): return self.call(fn.fn, args, kwargs)
        if isinstance(fn, Obj):
            f, _ = fn.cls.lookup("__call__")
            if f is not None: return self.call(Bound(f, fn), args, kwargs)
            if fn.opaque is not None: return self.unk("opaque call", fn, *args)
            self.raise_("TypeError", f"{fn.cls.name} object is not callable")
        if isinstance(fn, (Const, Num, Lst, Tup, Dct, Arr, Mod)):
            self.raise_("TypeError", "object is not callable")
        return self.unk("call of unknown", fn, *args, *kwargs.values())

    def bind_args(self, fn, args, kwargs):
        a = fn.node.args
        pos = [p.arg for p in a.posonlyargs] + [p.arg for p in a.args]
        loc = {}
        args = list(args); kwargs = dict(kwargs)
        for n, v in zip(pos, args): loc[n] = v
        extra = args[len(pos):]
        if a.vararg: loc[a.vararg.arg] = Tup(extra)
        elif extra: self.raise_("TypeError", f"{fn.name}() takes {len(pos)} positional arguments but {len(args)} were given")
        kwn = [p.arg for p in a.kwonlyargs]
        rest = {}
        npos = len(a.posonlyargs)
        for n, v in kwargs.items():
            if n in pos[npos:]:
                if n in loc: self.raise_("TypeError", f"{fn.name}() got multiple values for argument '{n}'")
                loc[n] = v
            elif n in kwn: loc[n] = v
            else: rest[n] = v
        if a.kwarg:
            loc[a.kwarg.arg] = self.new_epoch(Dct([(("c", n), (Const(n), v)) for n, v in rest.items()]))
        elif rest:
            self.raise_("TypeError", f"{fn.name}() got an unexpected keyword argument '{next(iter(rest))}'")
        nd = len(fn.defaults)
        for i, n in enumerate(pos):
            if n not in loc:
                j = i - (len(pos) - nd)
                if j >= 0: loc[n] = fn.defaults[j]
                else: self.raise_("TypeError", f"{fn.name}() missing required argument: '{n}'")
        for n in kwn:
            if n not in loc:
                if n in fn.kwdefaults: loc[n] = fn.kwdefaults[n]
                else: self.raise_("TypeError", f"{fn.name}() missing keyword-only argument: '{n}'")
        return loc

    def call_func(self, fn, args, kwargs, nohook=False):
        if fn.qual in self.hooks and not nohook:
            r = self.hooks[fn.qual](self, fn, args, kwargs)
            if r is not None: return r
        if len(self.stack) > MAXDEPTH: return self.unk("recursion depth", *args)
        loc = self.bind_args(fn, args, kwargs)
        fr = Frame(fn.mod, fn.frame if (fn.frame.func is not None or fn.frame.is_class or fn.frame.parent is not None or fn.frame.locals is not fn.mod.ns) else None, fn)
        fr.locals = loc
        pos = [p.arg for p in fn.node.args.posonlyargs] + [p.arg for p in fn.node.args.args]
        fr.self0 = loc.get(pos[0]) if pos else None
        fr.clscell = None
        self.analysed.add(fn.qual)
        save = self.line
        path = getattr(fn.mod, "path", None)
        self.stack.append((fn.qual, os.path.relpath(path, self.root) if path else "?"))
        try:
            if isinstance(fn.node, ast.Lambda):
                return self.eval(fn.node.body, fr)
            if getattr(fn, "isgen", False):
                fr.yields = self.new_epoch(Lst([]))
                self.exec_block(fn.node.body, fr)
                return self.to_seq(fr.yields)
            r = self.exec_block(fn.node.body, fr)
            return r[1] if r is not None and r[0] == RET else NONE
        finally:
            self.stack.pop(); self.line = save

    def instantiate(self, cls, args, kwargs):
        if cls.py is not None and cls.mod is None:
            r = self.lib.call_builtin_class(self, cls, args, kwargs)
            if r is not None: return r
        key = "cls:" + cls.qual
        if key in self.hooks:
            r = self.hooks[key](self, cls, args, kwargs)
            if r is not None: return r
        if getattr(cls, "ntup", None) is not None: return self.lib.named_tuple(self, cls, args, kwargs)
        o = Obj(cls, {}, self.epoch)
        new, nc = cls.lookup("__new__")
        if new is not None and nc.py is None:
            f = new.fn if isinstance(new, StaticM) else new
            o = self.call(f, [cls] + list(args), kwargs)
            if not (isinstance(o, Obj) and o.cls.issub(cls)): return o
        init, ic = cls.lookup("__init__")
        if init is not None:
            self.call(init, [o] + list(args), kwargs)
        elif cls.py is not None and issubclass(cls.py, BaseException):
            o.attrs["args"] = Tup(args)
        elif args or kwargs:
            self.raise_("TypeError", f"{cls.name}() takes no arguments")
        return o


def _walk_fn(node):
    """nodes of a function body without nested functions"""
    stack = list(node.body)
    while stack:
        n = stack.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)): stack.append(c)


def _assigned_names(body):
    out = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): out.add(n.id)
    return out
