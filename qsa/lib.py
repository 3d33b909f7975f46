"""Models of Python builtins and of the standard-library modules the analysed package (or a refactoring of it) uses."""
import builtins
import math
import os
import numpy as np
from .core import *
from . import core

BUILTIN_CLASSES = {}


def _mkbuiltin(py):
    n = py.__name__
    if n in BUILTIN_CLASSES: return BUILTIN_CLASSES[n]
    bases = [_mkbuiltin(b) for b in py.__bases__]
    c = Cls(n, bases, {}, None, py, "builtins." + n, 0, "import")
    BUILTIN_CLASSES[n] = c
    return c


for _n in dir(builtins):
    _o = getattr(builtins, _n)
    if isinstance(_o, type): _mkbuiltin(_o)


for _n, _b in (("LinAlgError", "ValueError"), ("AxisError", "ValueError")):
    BUILTIN_CLASSES[_n] = Cls(_n, [BUILTIN_CLASSES[_b]], {}, None, type(_n, (getattr(builtins, _b),), {}), "numpy.linalg." + _n, 0, "import")


class SuperV(Val):
    def __init__(self, cls, obj): self.cls, self.obj = cls, obj; self.vid = vop("super")


def setup(I):
    pass


# ----------------------------------------------------------------------------- helpers

def boolv(b): return Num(c=bool(b))


def fresh_list(I, segs): return I.new_epoch(Lst(segs))


def as_segs(I, v):
    if isinstance(v, Lst): return list(v.segs)
    s = I.to_seq(v)
    if s.items is not None: return [Seg(L(1), x) for x in s.items]
    if s.n is not None and s.n.is_const and s.n.c <= 64: return [Seg(L(1), s.get(L(i))) for i in range(int(s.n.c))]
    if s.cuts:
        out, off = [], L(0)
        for n in s.cuts:
            if n.is_const and n.c <= 64: out += [Seg(L(1), s.get(off + j)) for j in range(int(n.c))]
            else:
                name = f"g@{n}:{s.vid}"
                if name not in I.bounds.b: I.bounds.declare(name, 0, n - 1)
                out.append(Seg(n, s.get(off + Sym(name)), name))
            off = off + n
        return out
    name = f"g@{s.n}:{s.vid}"
    if name not in I.bounds.b: I.bounds.declare(name, 0, s.n - 1 if s.n is not None else None)
    return [Seg(s.n, s.get(Sym(name)), name)]


def subst(I, v, sym, lin):
    """generic element of a segment at a given index"""
    if sym is None: return v
    if isinstance(v, Num):
        if v.c is not None: return v
        return Num(lin=v.lin.subst({sym: lin}) if v.lin is not None else None, f=v.f, vid=vsubst(v.vid, sym, lin))
    if isinstance(v, Arr):
        a = Arr(tuple(d.subst({sym: lin}) if d is not None else None for d in v.shape) if v.shape is not None else None,
                v.f, vsubst(v.vid, sym, lin), v.band, v.const, v.segs, v.tags, v.epoch, v.origin)
        a.buf, a.view, a.ver, a.basever = v.buf, v.view, v.ver, v.basever
        return a
    if isinstance(v, Tup): return Tup([subst(I, x, sym, lin) for x in v.items])
    return v


_vsc = {}


def vsubst(v, sym, lin):
    if v is None: return None
    key = (v, sym, lin)
    r = _vsc.get(key)
    if r is not None: return r
    k = VN.rev[v]
    s = VN.mk(("sym", sym))
    if v == s: r = vlinform(lin)
    elif k[0] == "lin":
        r = vconst(0); r = mklin({}, k[2])
        for b, x in k[1]: r = vadd(r, vscale(vsubst(b, sym, lin), x))
    elif k[0] == "mul":
        r = V1
        for b, e in k[1]:
            nb = vsubst(b, sym, lin)
            for _ in range(abs(e)): r = vmul(r, nb) if e > 0 else vdiv(r, nb)
    elif k[0] == "op":
        r = VN.mk(k[:2] + tuple(vsubst(y, sym, lin) if isinstance(y, Vid) else y for y in k[2:]))
    else: r = v
    _vsc[key] = r
    return r


def split_segs(I, segs, at):
    """split a segment list at offset `at` (Lin); returns (left, right) or None when undecidable"""
    at = L(at)
    left, pos = [], L(0)
    for i, s in enumerate(segs):
        if I.bounds.eq0(at - pos) is True: return left, segs[i:]
        if s.n is None: return None
        end = pos + s.n
        if I.bounds.ge0(at - end) is True:
            left.append(s); pos = end; continue
        if I.bounds.ge0(at - pos - 1) is True and I.bounds.ge0(end - at) is True:
            k = at - pos
            l = Seg(k, s.val, s.sym)
            rv = s.val
            if s.sym is not None: rv = subst(I, s.val, s.sym, Sym(s.sym) + k)
            r = Seg(s.n - k, rv, s.sym)
            if I.bounds.eq0(r.n) is True: return left + [l], segs[i + 1:]
            return left + [l], [r] + segs[i + 1:]
        return None
    if I.bounds.eq0(at - pos) is True: return left, []
    return None


def norm_index(I, k, n):
    """index value -> Lin in [0, n) or None"""
    if not isinstance(k, Num) or k.lin is None: return None
    if k.c is not None:
        if k.c >= 0: return L(k.c)
        return None if n is None else n + k.c
    g = I.bounds.ge0(k.lin)
    if g is True: return k.lin
    if g is False: return None if n is None else n + k.lin
    return None


def seg_at(I, segs, i, wrap=True):
    """value at offset i, or None"""
    pos = L(0)
    for s in segs:
        if s.n is None: return None
        end = pos + s.n
        if I.bounds.ge0(i - pos) is True and I.bounds.ge0(end - i - 1) is True:
            return subst(I, s.val, s.sym, i - pos)
        if I.bounds.ge0(i - end) is True: pos = end; continue
        return None
    return False      # out of range


def join_vals(I, vals, what="element"):
    vals = list(vals)
    if not vals: return Unk("empty join")
    if all(v is vals[0] for v in vals): return vals[0]
    if all(v.vid is not None and v.vid == vals[0].vid for v in vals): return vals[0]
    if all(isinstance(v, Num) for v in vals):
        f = vals[0].f
        for v in vals[1:]: f = fjoin(f, v.f, I.site(), f"collection ({what})")
        return Num(f=f, vid=vop("join", *[v.vid for v in vals]))
    if all(isinstance(v, Tup) and len(v.items) == len(vals[0].items) for v in vals):
        return Tup([join_vals(I, [v.items[j] for v in vals], what) for j in range(len(vals[0].items))])
    if all(isinstance(v, Arr) for v in vals):
        f = vals[0].f; shape = vals[0].shape
        for v in vals[1:]:
            f = fjoin(f, v.f, I.site(), "collection of arrays")
            if v.shape != shape: shape = None if (shape is None or v.shape is None or len(shape) != len(v.shape)) else tuple(a if a == b else None for a, b in zip(shape, v.shape))
        b = vals[0].band
        for v in vals[1:]: b = I.npm.band_join(I, b, v.band)
        a = Arr(shape, f, vop("join", *[v.vid for v in vals]), b, epoch=I.epoch)
        a.joined = [v for v in vals]
        return a
    d = frozenset()
    for v in vals: d = d | v.deps
    return Unk("join", d, vop("join", *[v.vid if v.vid is not None else -1 for v in vals]))


def list_get(I, l, i):
    r = seg_at(I, l.segs, i)
    if r is False: I.raise_("IndexError", "list index out of range")
    if r is None and len(l.segs) == 1: r = subst(I, l.segs[0].val, l.segs[0].sym, i)      # wherever it is, if it is there at all
    if r is None: r = some_elem(I, l, vlinform(i))
    return r


def some_elem(I, l, k):
    """an element of a list at an unknown place"""
    r = join_vals(I, [s.val for s in l.segs], "list elements")
    if isinstance(r, (Num, Arr)) and r.vid is not None and (len(l.segs) != 1 or l.segs[0].sym is not None):
        vid = vop("some", r.vid, k if k is not None else -1)
        if isinstance(r, Num): r = Num(f=r.f, vid=vid, np=r.np)
        else: r = Arr(r.shape, r.f, vid, r.band, epoch=r.epoch)
    return r


def list_extend(I, l, v):
    for s in as_segs(I, v):
        if s.n == L(1) and s.sym is None: I.lst_append(l, s.val)
        else: I.lst_mut(l, l.segs + [s], "extend")


def dict_update(I, d, o):
    if isinstance(o, Dct):
        for k, (kv, v) in list(o.d.items()): I.dct_set(d, k, kv, v)
    else:
        s = I.to_seq(o)
        for x in s.items or []:
            p = I.to_seq(x).items
            if p and len(p) == 2: I.dct_set(d, I.key(p[0]), p[0], p[1])


# ----------------------------------------------------------------------------- item access

def getitem(I, o, k):
    if isinstance(o, Arr): return I.npm.arr_getitem(I, o, k)
    if isinstance(o, Lst):
        if isinstance(k, SliceV): return fresh_list(I, slice_segs(I, o.segs, k, o.n))
        if isinstance(k, Num):
            if k.f.dt == "f": I.raise_("TypeError", "list indices must be integers")
            i = norm_index(I, k, o.n)
            if i is None: return some_elem(I, o, k.vid)
            if k.c is not None and k.c < 0 and o.n is not None and I.bounds.ge0(i) is False: I.raise_("IndexError", "list index out of range")
            return list_get(I, o, i)
        if isinstance(k, (Const, Tup)): I.raise_("TypeError", "list indices must be integers or slices")
        return I.unk("list index", o, k)
    if isinstance(o, Tup):
        if isinstance(k, Num) and k.c is not None and isinstance(k.c, int):
            try: return o.items[k.c]
            except IndexError: I.raise_("IndexError", "tuple index out of range")
        if isinstance(k, SliceV):
            sl = const_slice(k)
            if sl is not None: return Tup(o.items[sl])
        return join_vals(I, o.items, "tuple elements")
    if isinstance(o, Dct):
        kk = I.key(k)
        if kk in o.d: return o.d[kk][1]
        m = getattr(o, "default_factory", None)
        if m is not None:
            v = I.call(m, [], {}); I.dct_set(o, kk, k, v); return v
        if isinstance(k, Unk) or (isinstance(k, Num) and isinstance(k, Unk)): return I.unk("dict lookup", o, k)
        I.raise_("KeyError", k)
    if isinstance(o, AbsSeq):
        if isinstance(k, Num):
            if o.items is not None and k.c is not None:
                try: return o.items[k.c]
                except IndexError: I.raise_("IndexError", "index out of range")
            i = norm_index(I, k, o.n)
            if i is not None and o.get is not None: return o.get(i)
        if isinstance(k, SliceV): return fresh_list(I, slice_segs(I, as_segs(I, o), k, o.n))
        return I.unk("sequence index", o, k)
    if isinstance(o, Const):
        if isinstance(o.v, str):
            if isinstance(k, Num) and k.c is not None:
                try: return Const(o.v[k.c])
                except IndexError: I.raise_("IndexError", "string index out of range")
            if isinstance(k, SliceV):
                sl = const_slice(k)
                if sl is not None: return Const(o.v[sl])
            return SymStr(vop("stridx", o.vid, k.vid))
        I.raise_("TypeError", "object is not subscriptable")
    if isinstance(o, Num): I.raise_("TypeError", "number is not subscriptable")
    if isinstance(o, Obj):
        f, _ = o.cls.lookup("__getitem__")
        if f is not None: return I.call(Bound(f, o), [k], {})
        return I.unk("object item", o, k)
    if isinstance(o, Cls):
        return o              # generic alias list[int]
    if isinstance(o, (Builtin,)):
        m = o.attrs.get("__getitem__")
        if m is not None: return m.fn(I, [k], {})
        if o.name in ("numpy.r_", "numpy.c_"): return I.npm.func_attr(I, o, "__getitem__").fn(I, [k], {})
        return o if o.name.startswith("typing.") else I.unk("subscript of " + o.name, k)
    if isinstance(o, Unk): return I.unk("item of unknown", o, k)
    return I.unk("subscript", o, k)


def const_slice(k):
    out = []
    for x in (k.lo, k.hi, k.st):
        if isinstance(x, Const) and x.v is None: out.append(None)
        elif isinstance(x, Num) and isinstance(x.c, int): out.append(x.c)
        else: return None
    return slice(*out)


def slice_bounds(I, k, n):
    """(start, stop, step) as Lin clipped into [0,n], or None"""
    st = 1
    if not (isinstance(k.st, Const) and k.st.v is None):
        if isinstance(k.st, Num) and isinstance(k.st.c, int): st = k.st.c
        else: return None
    def one(x, dflt):
        if isinstance(x, Const) and x.v is None: return dflt
        if not isinstance(x, Num) or x.lin is None: return None
        if x.c is not None:
            v = L(x.c) if x.c >= 0 else (n + x.c if n is not None else None)
        else:
            g = I.bounds.ge0(x.lin)
            if g is True: v = x.lin
            elif g is False: v = n + x.lin if n is not None else None
            else: return None
        if v is None or n is None: return v
        if I.bounds.ge0(n - v) is False: v = n
        elif I.bounds.ge0(v) is False: v = L(0)
        return v
    if st > 0:
        lo, hi = one(k.lo, L(0)), one(k.hi, n)
        if lo is None or hi is None: return None
        return lo, hi, st
    lo = one(k.lo, n - 1 if n is not None else None)
    hi = one(k.hi, L(-1))
    if lo is None or hi is None: return None
    if n is not None and lo == n: lo = n - 1
    return lo, hi, st


def slice_segs(I, segs, k, n):
    b = slice_bounds(I, k, n)
    if b is not None and b[2] == 1:
        lo, hi, _ = b
        r = split_segs(I, segs, lo)
        if r is not None:
            if I.bounds.ge0(hi - lo) is True:
                r2 = split_segs(I, r[1], hi - lo)
                if r2 is not None: return r2[0]
            elif I.bounds.ge0(lo - hi) is True: return []
        e = join_vals(I, [s.val for s in segs], "list elements")
        length = hi - lo
        return [Seg(length if I.bounds.ge0(length) is True else None, e)]
    if b is not None and b[2] == -1 and segs and all(s.n is not None for s in segs):
        if isinstance(k.lo, Const) and isinstance(k.hi, Const):
            return [Seg(s.n, s.val if s.sym is None else subst(I, s.val, s.sym, s.n - 1 - Sym(s.sym)), s.sym) for s in reversed(segs)]
    if all(s.n == L(1) for s in segs):
        sl = const_slice(k)
        if sl is not None: return list(segs)[sl]
    if not segs: return []
    ln = None
    if b is not None and b[2] > 1 and I.bounds.ge0(b[1] - b[0]):
        ln = floordiv(I, b[1] - b[0] + (b[2] - 1), b[2])
    return [Seg(ln, join_vals(I, [s.val for s in segs], "list elements"))]


def floordiv(I, lin, k):
    """symbolic floor division by a positive integer"""
    lin = L(lin)
    if lin.is_const: return L(lin.c // k)
    if k == 1: return lin
    q = lin.scale(Fraction(1, k))
    m = mod(I, lin, k)
    return (lin - m).scale(Fraction(1, k))


def mod(I, lin, k):
    lin = L(lin)
    if lin.is_const: return L(lin.c % k)
    if k == 1: return L(0)
    # reduce coefficients modulo k
    d = {s: c % k for s, c in lin.t}
    c = lin.c % k
    d = {s: x for s, x in d.items() if x != 0}
    if any(x.denominator != 1 for x in d.values()):
        # parity of an expression that is itself a quotient: opaque atom
        name = f"mod({lin},{k})"; DERIVED[name] = lin, k
        if name not in I.bounds.b: I.bounds.declare(name, 0, k - 1)
        return Sym(name)
    if not d: return L(c)
    base = Lin(d, 0)
    name = f"mod({base},{k})"; DERIVED[name] = base, k
    if name not in I.bounds.b: I.bounds.declare(name, 0, k - 1)
    m = Sym(name)
    if c == 0: return m
    if k == 2: return L(1) - m
    name = f"mod({base + c},{k})"; DERIVED[name] = base + c, k
    if name not in I.bounds.b: I.bounds.declare(name, 0, k - 1)
    return Sym(name)


def setitem(I, o, k, v, aug=False):
    if isinstance(o, Arr): return I.npm.arr_setitem(I, o, k, v, aug)
    if isinstance(o, Dct):
        return I.dct_set(o, I.key(k), k, v)
    if isinstance(o, Lst):
        if isinstance(k, Num):
            i = norm_index(I, k, o.n)
            if i is not None:
                r = split_segs(I, o.segs, i)
                if r is not None:
                    r2 = split_segs(I, r[1], L(1))
                    if r2 is not None:
                        return I.lst_mut(o, r[0] + [Seg(L(1), v)] + r2[1], "setitem")
            e = join_vals(I, [s.val for s in o.segs] + [v], "list elements")
            return I.lst_mut(o, [Seg(o.n, e)], "setitem")
        if isinstance(k, SliceV):
            n = o.n
            sl = const_slice(k)
            c = o.concrete()
            if sl is not None and c is not None:
                w = I.to_seq(v)
                if w.items is not None:
                    c = list(c); c[sl] = w.items
                    return I.lst_mut(o, [Seg(L(1), x) for x in c], "setslice")
            b = slice_bounds(I, k, n)
            if b is not None and b[2] == 1:
                l = split_segs(I, o.segs, b[0]); r = split_segs(I, o.segs, b[1])
                if l is not None and r is not None:
                    return I.lst_mut(o, l[0] + as_segs(I, v) + r[1], "setslice")
            return I.lst_mut(o, [Seg(None, join_vals(I, [s.val for s in o.segs] + [s.val for s in as_segs(I, v)]))], "setslice")
        return I.lst_mut(o, [Seg(o.n, I.unk("list"))], "setitem")
    if isinstance(o, Obj):
        f, _ = o.cls.lookup("__setitem__")
        if f is not None:
            I.call(Bound(f, o), [k, v], {}); return
        if o.opaque is not None and hasattr(o, "setitem"):
            o.setitem(I, k, v); return
        I.effect("item", o, "setitem"); return
    if isinstance(o, (Tup, Const, Num)): I.raise_("TypeError", "object does not support item assignment")
    I.unk("setitem", o)


def delitem(I, o, k):
    if isinstance(o, Dct):
        kk = I.key(k)
        if kk not in o.d: I.raise_("KeyError", k)
        I.dct_del(o, kk)
    elif isinstance(o, Lst):
        c = o.concrete()
        if c is not None and isinstance(k, Num) and isinstance(k.c, int):
            c = list(c)
            try: del c[k.c]
            except IndexError: I.raise_("IndexError", "list index out of range")
            I.lst_mut(o, [Seg(L(1), x) for x in c], "del")
        else: I.lst_mut(o, [Seg(None, join_vals(I, [s.val for s in o.segs]))], "del")


# ----------------------------------------------------------------------------- attribute access

def B(name, fn): return Builtin(name, fn)


def getattr_(I, o, name):
    if isinstance(o, Obj): return obj_attr(I, o, name)
    if isinstance(o, Arr): return I.npm.arr_attr(I, o, name)
    if isinstance(o, Num): return I.npm.num_attr(I, o, name)
    if isinstance(o, Cls): return cls_attr(I, o, name)
    if isinstance(o, Mod): 
        v = I.mod_attr(o, name)
        if v is None and not o.native and o.name + "." + name in I.modules: v = I.modules[o.name + "." + name]
        if name == "__dict__" and v is None:
            d = Dct([(("c", k), (Const(k), x)) for k, x in o.ns.items()]); d.ns = o.ns
            d.epoch = o.epoch; d.origin = o.origin
            return d
        return v
    if isinstance(o, Lst): return list_attr(I, o, name)
    if isinstance(o, Dct): return dict_attr(I, o, name)
    if isinstance(o, SetV): return set_attr_(I, o, name)
    if isinstance(o, Tup):
        if name == "index": return B("tuple.index", lambda I, a, k: _index(I, o.items, a[0]))
        if name == "count": return B("tuple.count", lambda I, a, k: I.unk("count"))
        c = getattr(o, "cls", None)
        if c is not None:
            if name in c.ntup: return o.items[c.ntup.index(name)]
            if name == "_replace": return B(name, lambda I, a, k: named_tuple(I, c, [], {**dict(zip(c.ntup, o.items)), **k}))
            if name == "_asdict": return B(name, lambda I, a, k: I.new_epoch(Dct([(("c", n), (Const(n), x)) for n, x in zip(c.ntup, o.items)])))
            if name == "_fields": return Tup([Const(n) for n in c.ntup])
            f, _ = c.lookup(name)
            if f is not None: return bind_attr(I, f, o, c)
        return None
    if isinstance(o, Const):
        if isinstance(o.v, str): return str_attr(I, o, name)
        if name == "__class__": return type_of(I, o)
        return None
    if isinstance(o, SymStr):
        return B("str." + name, lambda I, a, k: SymStr(vop("str." + name, o.vid, *[x.vid for x in a]), o.deps))
    if isinstance(o, Func):
        if name in o.attrs: return o.attrs[name]
        if name == "__name__": return Const(o.name)
        if name == "__qualname__": return Const(o.qual)
        if name == "__module__": return Const(o.mod.name)
        if name == "__defaults__": return Tup(o.defaults) if o.defaults else NONE
        if name == "__dict__": return fresh_list(I, [])
        if name == "__code__": return I.unk("__code__")
        return None
    if isinstance(o, Bound):
        if name == "__func__": return o.fn
        if name == "__self__": return o.self_
        return getattr_(I, o.fn, name)
    if isinstance(o, (StaticM, ClassM)): 
        return o.fn if name in ("__func__", "__wrapped__") else getattr_(I, o.fn, name)
    if isinstance(o, Prop):
        if name == "fget": return o.fget
        if name == "setter": return B("property.setter", lambda I, a, k: Prop(o.fget, a[0]))
        if name == "getter": return B("property.getter", lambda I, a, k: Prop(a[0], o.fset))
        return None
    if isinstance(o, Builtin):
        if name in o.attrs: return o.attrs[name]
        if name == "__name__": return Const(o.name.split(".")[-1])
        return native_func_attr(I, o, name)
    if isinstance(o, SuperV):
        start = o.obj.cls if isinstance(o.obj, Obj) else o.obj
        if not isinstance(start, Cls) or o.cls is None: return I.unk("super", o.obj)
        mro = start.mro()
        idx = mro.index(o.cls) if o.cls in mro else -1
        for c in mro[idx + 1:]:
            if name in c.ns: return bind_attr(I, c.ns[name], o.obj, start)
        if name == "__init__": return B("object.__init__", lambda I, a, k: NONE)
        if name in ("__init_subclass__", "__setattr__", "__getattribute__"):
            if name == "__setattr__": return B("object.__setattr__", lambda I, a, k: (I.set_attr(o.obj, a[0].v, a[1]), NONE)[1])
            return B("object." + name, lambda I, a, k: NONE)
        if name == "__new__": return B("object.__new__", lambda I, a, k: Obj(a[0], {}, I.epoch))
        return None
    if isinstance(o, AbsSeq):
        if name == "__next__": return B("next", lambda I, a, k: bi_next(I, [o], {}))
        if name in ("index", "count"): return B(name, lambda I, a, k: I.unk(name))
        if o.rng is not None and name in ("start", "stop", "step"): return Num(lin=L(o.rng[("start", "stop", "step").index(name)]))
        return None
    if isinstance(o, SliceV): return {"start": o.lo, "stop": o.hi, "step": o.st}.get(name)
    if isinstance(o, Unk): return I.unk("attribute " + name, o)
    return None


def bind_attr(I, v, obj, cls):
    if isinstance(v, Func): return Bound(v, obj)
    if isinstance(v, StaticM): return v.fn
    if isinstance(v, ClassM): return Bound(v.fn, cls if cls is not None else obj)
    if isinstance(v, Prop): return I.call(v.fget, [obj], {})
    if isinstance(v, CachedProp): return I.call(v.fget, [obj], {})
    if isinstance(v, Builtin) and v.attrs.get("method"): return Bound(v, obj)
    return v


def obj_attr(I, o, name):
    v, c = o.cls.lookup(name)
    if isinstance(v, Prop): return I.call(v.fget, [o], {})
    if name in o.attrs: return o.attrs[name]
    if isinstance(v, CachedProp):
        r = I.call(v.fget, [o], {})
        I.set_attr(o, name, r)
        return r
    if v is not None: return bind_attr(I, v, o, o.cls)
    if name == "__class__": return o.cls
    if name == "__dict__":
        d = Dct([(("c", k), (Const(k), x)) for k, x in o.attrs.items()]); d.ns = o.attrs
        d.epoch = o.epoch; d.origin = o.origin
        return d
    if name == "__doc__": return NONE
    if name == "__module__": return Const(o.cls.mod.name if o.cls.mod else "builtins")
    if name == "__setattr__": return B("object.__setattr__", lambda I, a, k: (I.set_attr(o, a[0].v, a[1]), NONE)[1])
    if name == "__init__": return B("object.__init__", lambda I, a, k: NONE)
    g, gc = o.cls.lookup("__getattr__")
    if g is not None: return I.call(Bound(g, o), [Const(name)], {})
    if o.opaque is not None: return o.opaque(I, o, name)
    if o.cls.py is not None and issubclass(o.cls.py, BaseException):
        return I.unk("exception attribute " + name) if name in ("__cause__", "__traceback__", "message", "with_traceback", "add_note") else None
    return None


def cls_attr(I, o, name):
    v, c = o.lookup(name)
    if v is not None:
        if isinstance(v, StaticM): return v.fn
        if isinstance(v, ClassM): return Bound(v.fn, o)
        return v
    if name == "__name__": return Const(o.name)
    if name == "__qualname__": return Const(o.name)
    if name == "__module__": return Const(o.mod.name if o.mod else "builtins")
    if name == "mro": return B("type.mro", lambda I, a, k: fresh_list(I, list(o.mro())))
    if name == "__mro__": return Tup(list(o.mro()))
    if name == "__bases__": return Tup(list(o.bases))
    if name == "__base__": return o.bases[0] if o.bases else NONE
    if name == "__dict__":
        d = Dct([(("c", k), (Const(k), x)) for k, x in o.ns.items()]); d.epoch = o.epoch; d.origin = o.origin
        return d
    if name == "__doc__": return o.ns.get("__doc__", NONE)
    if name == "__init__": 
        f = Builtin("object.__init__", lambda I, a, k: NONE); f.attrs["method"] = True
        return f
    if name == "__new__": return B("object.__new__", lambda I, a, k: Obj(a[0], {}, I.epoch))
    if name == "__class__": return BUILTIN_CLASSES["type"]
    if name == "__subclasses__": return B("type.__subclasses__", lambda I, a, k: fresh_list(I, []))
    if name == "__annotations__": return I.new_epoch(Dct())
    if o.py is not None and o.mod is None:
        py = o.py
        if py is dict and name == "fromkeys":
            def fk(I, a, k):
                d = I.new_epoch(Dct())
                for x in I.to_seq(a[0]).items or []: d.d[I.key(x)] = (x, a[1] if len(a) > 1 else NONE)
                return d
            return B("dict.fromkeys", fk)
        if hasattr(py, name):
            return B(f"{o.name}.{name}", lambda I, a, k: I.call(getattr_(I, a[0], name), a[1:], k) if a else I.unk(name))
    return None


def list_attr(I, o, name):
    if name == "append": return B("list.append", lambda I, a, k: (I.lst_append(o, a[0]), NONE)[1])
    if name == "extend": return B("list.extend", lambda I, a, k: (list_extend(I, o, a[0]), NONE)[1])
    if name == "copy": return B("list.copy", lambda I, a, k: fresh_list(I, list(o.segs)))
    if name == "insert":
        def ins(I, a, k):
            i = norm_index(I, a[0], o.n)
            r = split_segs(I, o.segs, i) if i is not None else None
            if r is not None: I.lst_mut(o, r[0] + [Seg(L(1), a[1])] + r[1], "insert")
            else: I.lst_mut(o, [Seg(None, join_vals(I, [s.val for s in o.segs] + [a[1]]))], "insert")
            return NONE
        return B("list.insert", ins)
    if name == "pop":
        def pop(I, a, k):
            i = a[0] if a else Num(c=-1)
            v = getitem(I, o, i)
            li = norm_index(I, i, o.n)
            r = split_segs(I, o.segs, li) if li is not None else None
            if r is not None:
                r2 = split_segs(I, r[1], L(1))
                if r2 is not None:
                    I.lst_mut(o, r[0] + r2[1], "pop"); return v
            I.lst_mut(o, [Seg(None, join_vals(I, [s.val for s in o.segs]))], "pop")
            return v
        return B("list.pop", pop)
    if name == "clear": return B("list.clear", lambda I, a, k: (I.lst_mut(o, [], "clear"), NONE)[1])
    if name == "reverse":
        return B("list.reverse", lambda I, a, k: (I.lst_mut(o, slice_segs(I, o.segs, SliceV(NONE, NONE, Num(c=-1)), o.n), "reverse"), NONE)[1])
    if name == "sort":
        def srt(I, a, k):
            c = o.concrete()
            if c is not None and all(isinstance(x, Num) and x.c is not None for x in c) and not k:
                I.lst_mut(o, [Seg(L(1), x) for x in sorted(c, key=lambda x: x.c)], "sort")
            else: I.lst_mut(o, [Seg(o.n, join_vals(I, [s.val for s in o.segs]))] if o.segs else [], "sort")
            return NONE
        return B("list.sort", srt)
    if name == "remove":
        def rem(I, a, k):
            c = o.concrete()
            if c is not None:
                for j, x in enumerate(c):
                    if I.truth(compare(I, "Eq", x, a[0])):
                        I.lst_mut(o, [Seg(L(1), y) for y in c[:j] + c[j + 1:]], "remove"); return NONE
                I.raise_("ValueError", "list.remove(x): x not in list")
            I.lst_mut(o, [Seg(None, join_vals(I, [s.val for s in o.segs]))], "remove")
            return NONE
        return B("list.remove", rem)
    if name == "index": return B("list.index", lambda I, a, k: _index(I, o.concrete(), a[0]))
    if name == "count": return B("list.count", lambda I, a, k: Num(f=F(ONE, V0, "i", o.deps)))
    if name == "__len__": return B("len", lambda I, a, k: length(I, o))
    if name == "__iter__": return B("iter", lambda I, a, k: I.to_seq(o))
    if name == "__class__": return BUILTIN_CLASSES["list"]
    return None


def _index(I, items, x):
    if items is not None:
        for j, y in enumerate(items):
            if I.truth(compare(I, "Eq", y, x)): return Num(c=j)
        I.raise_("ValueError", "is not in list")
    return Num(f=F(ONE, V0, "i"))


def dict_attr(I, o, name):
    def get(I, a, k):
        kk = I.key(a[0])
        if kk in o.d: return o.d[kk][1]
        return a[1] if len(a) > 1 else k.get("default", NONE)
    if name == "get": return B("dict.get", get)
    if name == "keys": return B("dict.keys", lambda I, a, k: AbsSeq(L(len(o.d)), None, items=[kv for kv, _ in o.d.values()]))
    if name == "values": return B("dict.values", lambda I, a, k: AbsSeq(L(len(o.d)), None, o.deps, items=[v for _, v in o.d.values()]))
    if name == "items": return B("dict.items", lambda I, a, k: AbsSeq(L(len(o.d)), None, o.deps, items=[Tup([kv, v]) for kv, v in o.d.values()]))
    if name == "copy": 
        def cp(I, a, k):
            d = I.new_epoch(Dct()); d.d = dict(o.d); return d
        return B("dict.copy", cp)
    if name == "update":
        def upd(I, a, k):
            for x in a: dict_update(I, o, x)
            for n, v in k.items(): I.dct_set(o, ("c", n), Const(n), v)
            return NONE
        return B("dict.update", upd)
    if name == "setdefault":
        def sd(I, a, k):
            kk = I.key(a[0])
            if kk not in o.d: I.dct_set(o, kk, a[0], a[1] if len(a) > 1 else NONE)
            return o.d[kk][1]
        return B("dict.setdefault", sd)
    if name == "pop":
        def pop(I, a, k):
            kk = I.key(a[0])
            if kk in o.d: return I.dct_del(o, kk)[1]
            if len(a) > 1: return a[1]
            I.raise_("KeyError", a[0])
        return B("dict.pop", pop)
    if name == "popitem":
        def popitem(I, a, k):
            if not o.d: I.raise_("KeyError", "empty")
            kk = list(o.d)[-1]; kv, v = I.dct_del(o, kk)
            return Tup([kv, v])
        return B("dict.popitem", popitem)
    if name == "clear": return B("dict.clear", lambda I, a, k: (I.dct_clear(o), NONE)[1])
    if name == "__contains__": return B("dict.contains", lambda I, a, k: boolv(I.key(a[0]) in o.d))
    if name == "__getitem__": return B("dict.getitem", lambda I, a, k: getitem(I, o, a[0]))
    if name == "__setitem__": return B("dict.setitem", lambda I, a, k: (I.dct_set(o, I.key(a[0]), a[0], a[1]), NONE)[1])
    if name == "__class__": return BUILTIN_CLASSES["dict"]
    return None


def set_attr_(I, o, name):
    if name == "add": return B("set.add", lambda I, a, k: (I.set_add(o, I.key(a[0]), a[0]), NONE)[1])
    if name in ("union", "intersection", "difference", "issubset", "issuperset", "symmetric_difference"):
        def op(I, a, k):
            items = I.to_seq(a[0]).items
            if items is None: return I.unk("set op", o, *a)
            other = {I.key(x): x for x in items}
            if name == "union": return I.new_epoch(SetV({**o.d, **other}.items()))
            if name == "intersection": return I.new_epoch(SetV([(x, v) for x, v in o.d.items() if x in other]))
            if name == "difference": return I.new_epoch(SetV([(x, v) for x, v in o.d.items() if x not in other]))
            if name == "issubset": return boolv(all(x in other for x in o.d))
            if name == "issuperset": return boolv(all(x in o.d for x in other))
            return I.unk("set op")
        return B("set." + name, op)
    if name in ("update", "discard", "remove", "pop", "clear"):
        def mut(I, a, k):
            if name == "update":
                for x in I.to_seq(a[0]).items or []: I.set_add(o, I.key(x), x)
            else:
                old = dict(o.d); I.undo.append(lambda: (o.d.clear(), o.d.update(old)))
                I.effect("set", o, name)
                if name in ("discard", "remove"): o.d.pop(I.key(a[0]), None)
                elif name == "clear": o.d.clear()
                elif name == "pop": return o.d.pop(next(iter(o.d))) if o.d else I.unk("pop")
            return NONE
        return B("set." + name, mut)
    if name == "copy": return B("set.copy", lambda I, a, k: I.new_epoch(SetV(o.d.items())))
    return None


def str_attr(I, o, name):
    s = o.v
    if name == "format":
        def fm(I, a, k):
            if all(isinstance(x, Const) or (isinstance(x, Num) and x.c is not None) for x in list(a) + list(k.values())):
                try: return Const(s.format(*[x.v if isinstance(x, Const) else x.c for x in a], **{n: (x.v if isinstance(x, Const) else x.c) for n, x in k.items()}))
                except Exception: return SymStr(vop("format", o.vid))
            return SymStr(vop("format", o.vid, *[x.vid for x in a if x.vid is not None]))
        return B("str.format", fm)
    if name == "join":
        def jn(I, a, k):
            it = I.to_seq(a[0]).items
            if it is not None and all(isinstance(x, Const) and isinstance(x.v, str) for x in it): return Const(s.join(x.v for x in it))
            return SymStr(vop("join", o.vid))
        return B("str.join", jn)
    if hasattr(str, name) and not name.startswith("__"):
        def m(I, a, k):
            av = []
            for x in a:
                if isinstance(x, Const): av.append(x.v)
                elif isinstance(x, Num) and x.c is not None: av.append(x.c)
                elif isinstance(x, Tup) and all(isinstance(y, Const) for y in x.items): av.append(tuple(y.v for y in x.items))
                else: return I.unk("str." + name, o, *a)
            try: r = getattr(s, name)(*av)
            except Exception as e: I.raise_(type(e).__name__, str(e))
            return wrap(I, r)
        return B("str." + name, m)
    if name == "__class__": return BUILTIN_CLASSES["str"]
    return None


def wrap(I, r):
    if isinstance(r, (bool, int, float, complex)): return Num(c=r)
    if isinstance(r, (str, type(None), bytes)): return Const(r)
    if isinstance(r, list): return fresh_list(I, [wrap(I, x) for x in r])
    if isinstance(r, tuple): return Tup([wrap(I, x) for x in r])
    if isinstance(r, dict):
        d = I.new_epoch(Dct())
        for k, v in r.items():
            kv = wrap(I, k); d.d[I.key(kv)] = (kv, wrap(I, v))
        return d
    return Unk("wrap")


# ----------------------------------------------------------------------------- operators

def binop(I, op, a, b):
    if isinstance(a, (Num, Arr)) and isinstance(b, (Num, Arr)): return I.npm.binop(I, op, a, b)
    if isinstance(a, Arr) and isinstance(b, (Lst, Tup)): return I.npm.binop(I, op, a, I.npm.asarray(I, b))
    if isinstance(b, Arr) and isinstance(a, (Lst, Tup)): return I.npm.binop(I, op, I.npm.asarray(I, a), b)
    if isinstance(a, Num) and a.np and isinstance(b, (Lst, Tup)): return I.npm.binop(I, op, a, I.npm.asarray(I, b))
    if isinstance(b, Num) and b.np and isinstance(a, (Lst, Tup)): return I.npm.binop(I, op, I.npm.asarray(I, a), b)
    if isinstance(a, Obj) or isinstance(b, Obj):
        nm = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "MatMult": "matmul", "Pow": "pow", "FloorDiv": "floordiv", "Mod": "mod"}.get(op, "?")
        if isinstance(a, Obj):
            f, _ = a.cls.lookup(f"__{nm}__")
            if f is not None: return I.call(Bound(f, a), [b], {})
        if isinstance(b, Obj):
            f, _ = b.cls.lookup(f"__r{nm}__")
            if f is not None: return I.call(Bound(f, b), [a], {})
        return I.unk("operator on object", a, b)
    if op == "Add":
        if isinstance(a, Lst) and isinstance(b, Tup) and getattr(a, "tup", False) or isinstance(a, Tup) and isinstance(b, Lst) and getattr(b, "tup", False):
            r = fresh_list(I, [y for x in (a, b) for y in (x.segs if isinstance(x, Lst) else [Seg(L(1), z) for z in x.items])])
            r.tup = True
            return r
        if isinstance(a, Lst) and isinstance(b, Lst): return fresh_list(I, list(a.segs) + list(b.segs))
        if isinstance(a, Tup) and isinstance(b, Tup): return Tup(a.items + b.items)
        if isinstance(a, Const) and isinstance(b, Const) and isinstance(a.v, str) and isinstance(b.v, str): return Const(a.v + b.v)
        if isinstance(a, (Const, SymStr)) and isinstance(b, (Const, SymStr)):
            if (isinstance(a, Const) and not isinstance(a.v, str)) or (isinstance(b, Const) and not isinstance(b.v, str)): I.raise_("TypeError", "unsupported operand")
            return SymStr(vop("concat", a.vid, b.vid), a.deps | b.deps)
        if isinstance(a, (Lst, Tup, Const)) and isinstance(b, (Lst, Tup, Num, Const)) : I.raise_("TypeError", "unsupported operand types for +")
    if op == "Mult":
        if isinstance(b, (Lst, Tup, Const)) and isinstance(a, Num): a, b = b, a
        if isinstance(a, Lst) and isinstance(b, Num) and b.lin is not None:
            if b.c is not None: return fresh_list(I, list(a.segs) * max(0, int(b.c)))
            g = I.bounds.ge0(b.lin)
            if I.bounds.eq0(b.lin) is True or (I.bounds.max(b.lin) is not None and I.bounds.max(b.lin) <= 0): return fresh_list(I, [])
            if len(a.segs) == 1 and a.segs[0].n == L(1):
                if g is not True:
                    if not I.truth(compare(I, "GtE", b, Num(c=0)), prefer=True): return fresh_list(I, [])
                return fresh_list(I, [Seg(b.lin, a.segs[0].val)])
            return fresh_list(I, [Seg(None, join_vals(I, [s.val for s in a.segs]))])
        if isinstance(a, Tup) and isinstance(b, Num) and b.c is not None: return Tup(a.items * int(b.c))
        if isinstance(a, Const) and isinstance(a.v, str) and isinstance(b, Num) and b.c is not None: return Const(a.v * b.c)
    if op == "Mod" and isinstance(a, Const) and isinstance(a.v, str):
        vals = [x.v if isinstance(x, Const) else x.c if isinstance(x, Num) else None for x in (b.items if isinstance(b, Tup) else [b])]
        if None not in vals:
            try: return Const(a.v % tuple(vals))
            except (TypeError, ValueError) as z: I.raise_(type(z).__name__, str(z))
    if op == "Mod" and isinstance(a, Const) and isinstance(a.v, str): return SymStr(vop("pct", a.vid, b.vid if b.vid is not None else -1), b.deps)
    if op in ("BitOr", "BitAnd", "Sub", "BitXor") and isinstance(a, SetV) and isinstance(b, SetV):
        nm = {"BitOr": "union", "BitAnd": "intersection", "Sub": "difference", "BitXor": "symmetric_difference"}[op]
        return set_attr_(I, a, nm).fn(I, [b], {})
    if op == "BitOr" and isinstance(a, Dct) and isinstance(b, Dct):
        d = I.new_epoch(Dct()); d.d = {**a.d, **b.d}; return d
    if op == "BitOr" and (isinstance(a, Cls) or isinstance(b, Cls)): return Tup([x for y in (a, b) for x in (y.items if isinstance(y, Tup) else [y])])
    if isinstance(a, Const) and a.v is None or isinstance(b, Const) and b.v is None: I.raise_("TypeError", "unsupported operand type: NoneType")
    return I.npm.unknown_op(I, op, a, b)


def is_none(v): return isinstance(v, Const) and v.v is None


_CMPNAME = {"Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">="}


def negb(I, r):
    if isinstance(r, Num) and r.c is not None: return boolv(not r.c)
    if isinstance(r, Num): return Num(f=r.f, vid=vop("not", r.vid), cond=("not", r.cond) if r.cond else None)
    if isinstance(r, Arr): return I.npm.unary(I, "Invert", r)
    return Unk("not", r.deps, vop("not", r.vid) if r.vid is not None else None)


def compare(I, op, a, b):
    if op in ("Is", "IsNot"):
        r = ident(I, a, b)
        if r is None: 
            r = Num(f=F(ONE, V0, "b", a.deps | b.deps), vid=vop("is", a.vid if a.vid is not None else -1, b.vid if b.vid is not None else -1))
            return r if op == "Is" else negb(I, r)
        return boolv(r if op == "Is" else not r)
    if op in ("In", "NotIn"):
        r = contains(I, b, a)
        return r if op == "In" else negb(I, r)
    if isinstance(a, (Num, Arr)) and isinstance(b, (Num, Arr)): return I.npm.compare(I, op, a, b)
    if isinstance(a, Arr) and isinstance(b, (Lst, Tup)): return I.npm.compare(I, op, a, I.npm.asarray(I, b))
    if isinstance(b, Arr) and isinstance(a, (Lst, Tup)): return I.npm.compare(I, op, I.npm.asarray(I, a), b)
    if op in ("Eq", "NotEq"):
        r = equal(I, a, b)
        if isinstance(r, bool): return boolv(r if op == "Eq" else not r)
        return r if op == "Eq" else negb(I, r)
    if isinstance(a, Const) and isinstance(b, Const) and isinstance(a.v, str) and isinstance(b.v, str):
        return boolv({"Lt": a.v < b.v, "LtE": a.v <= b.v, "Gt": a.v > b.v, "GtE": a.v >= b.v}[op])
    if is_none(a) or is_none(b): I.raise_("TypeError", "comparison with NoneType")
    if isinstance(a, Const) and isinstance(b, Num) or isinstance(a, Num) and isinstance(b, Const): I.raise_("TypeError", "comparison of str and number")
    if isinstance(a, (Lst, Tup, Dct, SetV)) and isinstance(b, (Num, Const)) or isinstance(a, (Num, Const)) and isinstance(b, (Lst, Tup, Dct, SetV)): I.raise_("TypeError", "ordering of a container and a scalar")
    if isinstance(a, SetV) and isinstance(b, SetV):
        return boolv({"Lt": set(a.d) < set(b.d), "LtE": set(a.d) <= set(b.d), "Gt": set(a.d) > set(b.d), "GtE": set(a.d) >= set(b.d)}[op])
    return Num(f=F(ONE, V0, "b", a.deps | b.deps), vid=vop("cmp" + op, a.vid if a.vid is not None else -1, b.vid if b.vid is not None else -1))


def ident(I, a, b):
    if a is b: return True
    if isinstance(a, Const) and isinstance(b, Const): return a.v is b.v or (type(a.v) == type(b.v) and a.v == b.v)
    if isinstance(a, Unk) or isinstance(b, Unk): return None
    if is_none(a) or is_none(b): return False
    if isinstance(a, Num) and isinstance(b, Num):
        if a.c is not None and b.c is not None: return type(a.c) is type(b.c) and a.c == b.c
        if a.vid == b.vid: return True
        return None
    if isinstance(a, Heap) and isinstance(b, Heap): return a.id == b.id
    if isinstance(a, (Builtin,)) and isinstance(b, Builtin): return a.name == b.name
    if isinstance(a, Bound) and isinstance(b, Bound): return False
    if type(a) is not type(b): return False
    return None


def equal(I, a, b):
    """True/False/Num"""
    if a is b: return True
    if isinstance(a, Unk) or isinstance(b, Unk):
        return Num(f=F(ONE, V0, "b", a.deps | b.deps), vid=vop("cmpEq", *sorted([a.vid if a.vid is not None else -1, b.vid if b.vid is not None else -1])))
    if isinstance(a, SymStr) or isinstance(b, SymStr):
        if a.vid == b.vid: return True
        if isinstance(a, (SymStr, Const)) and isinstance(b, (SymStr, Const)):
            return Num(f=F(ONE, V0, "b"), vid=vop("cmpEq", *sorted([a.vid, b.vid])))
        return False
    if isinstance(a, Const) and isinstance(b, Const): return type(a.v) == type(b.v) and a.v == b.v
    if isinstance(a, (Lst, Tup)) and isinstance(b, (Lst, Tup)):
        if type(a) is not type(b): return False
        x = a.concrete() if isinstance(a, Lst) else a.items; y = b.concrete() if isinstance(b, Lst) else b.items
        if x is not None and y is not None:
            if len(x) != len(y): return False
            und = None
            for p, q in zip(x, y):
                r = compare(I, "Eq", p, q)
                t = I.known_truth(r)
                if t is False: return False
                if t is None: und = r if und is None else und
                if t is None and not I.truth(r): return False
            return True
        return Num(f=F(ONE, V0, "b", a.deps | b.deps), vid=vop("cmpEq", a.vid, b.vid))
    if isinstance(a, Obj):
        f, c = a.cls.lookup("__eq__")
        if f is not None and c.py is None: 
            r = I.call(Bound(f, a), [b], {})
            return r if isinstance(r, Num) else bool(I.truth(r))
    if isinstance(a, (Dct,)) and isinstance(b, Dct):
        if set(a.d) != set(b.d): return False
        return all(I.truth(compare(I, "Eq", a.d[k][1], b.d[k][1])) for k in a.d)
    if isinstance(a, SetV) and isinstance(b, SetV): return set(a.d) == set(b.d)
    if isinstance(a, Builtin) and isinstance(b, Builtin): return a.name == b.name
    if isinstance(a, Builtin) and isinstance(b, Cls) or isinstance(a, Cls) and isinstance(b, Builtin): return False
    if isinstance(a, Bound) and isinstance(b, Bound): return a.fn is b.fn and a.self_ is b.self_
    r = ident(I, a, b)
    if r is not None: return r
    if isinstance(a, (Prop, CachedProp, Func, StaticM, ClassM, Cls, Mod, Bound, Builtin)) or isinstance(b, (Prop, CachedProp, Func, StaticM, ClassM, Cls, Mod)): return False
    return Num(f=F(ONE, V0, "b", a.deps | b.deps), vid=vop("cmpEq", a.vid if a.vid is not None else -1, b.vid if b.vid is not None else -1))


def contains(I, cont, x):
    if isinstance(cont, (Dct, SetV)):
        return boolv(I.key(x) in cont.d)
    if isinstance(cont, Const) and isinstance(cont.v, str):
        if isinstance(x, Const) and isinstance(x.v, str): return boolv(x.v in cont.v)
        return Num(f=F(ONE, V0, "b"), vid=vop("in", x.vid, cont.vid))
    if isinstance(cont, Arr): return Num(f=F(ONE, V0, "b", cont.deps | x.deps), vid=vop("in", x.vid, cont.vid))
    if isinstance(cont, Unk): return Num(f=F(ONE, V0, "b", cont.deps | x.deps), vid=vop("in", x.vid, cont.vid))
    if isinstance(cont, Obj):
        f, _ = cont.cls.lookup("__contains__")
        if f is not None: return I.call(Bound(f, cont), [x], {})
    s = I.to_seq(cont)
    items = s.items
    if items is None: return Num(f=F(ONE, V0, "b", s.deps | x.deps), vid=vop("in", x.vid, s.vid))
    for y in items:
        if isinstance(y, Const) and isinstance(x, Const):
            if type(y.v) == type(x.v) and y.v == x.v: return boolv(True)
            continue
        if isinstance(x, (Const, Num)) and isinstance(y, (Const, Num)) and type(x) is not type(y): continue
        r = compare(I, "Eq", x, y)
        if isinstance(r, Arr): r = Num(f=r.f.with_(dt="b"), vid=vop("any", r.vid))
        if I.truth(r): return boolv(True)
    return boolv(False)


# ----------------------------------------------------------------------------- builtins

def length(I, v):
    if isinstance(v, Lst):
        n = v.n
        return Num(lin=n) if n is not None else Num(f=F(ONE, V0, "i", v.deps), vid=vop("len", v.vid))
    if isinstance(v, Tup): return Num(c=len(v.items))
    if isinstance(v, (Dct, SetV)): return Num(c=len(v.d))
    if isinstance(v, Const) and isinstance(v.v, str): return Num(c=len(v.v))
    if isinstance(v, Arr):
        I.refresh(v)
        if v.shape is None: return Num(f=F(ONE, V0, "i"), vid=vop("len", v.vid))
        if not v.shape: I.raise_("TypeError", "len() of unsized object")
        return Num(lin=v.shape[0]) if v.shape[0] is not None else Num(f=F(ONE, V0, "i"), vid=vop("len", v.vid))
    if isinstance(v, AbsSeq):
        return Num(lin=v.n) if v.n is not None else Num(f=F(ONE, V0, "i"), vid=vop("len", v.vid))
    if isinstance(v, Obj):
        f, _ = v.cls.lookup("__len__")
        if f is not None: return I.call(Bound(f, v), [], {})
        I.raise_("TypeError", "object has no len()")
    if isinstance(v, (Num, Const, Func, Cls)): I.raise_("TypeError", "object has no len()")
    return Num(f=F(ONE, V0, "i", v.deps), vid=vop("len", v.vid) if v.vid is not None else None)


def type_of(I, v):
    B_ = BUILTIN_CLASSES
    if isinstance(v, Obj): return v.cls
    if isinstance(v, Const): return B_.get(type(v.v).__name__) or Cls(type(v.v).__name__, [B_["object"]])
    if isinstance(v, SymStr): return B_["str"]
    if isinstance(v, Num):
        if v.np: return I.npm.np_scalar_type(I, v)
        return B_[{"b": "bool", "i": "int", "f": "float", "c": "complex"}.get(v.f.dt, "float")] if v.f.dt else I.unk("type", v)
    if isinstance(v, Lst): return B_["list"]
    if isinstance(v, Tup): return B_["tuple"]
    if isinstance(v, Dct): return B_["dict"]
    if isinstance(v, SetV): return B_["set"]
    if isinstance(v, Prop): return B_["property"]
    if isinstance(v, StaticM): return B_["staticmethod"]
    if isinstance(v, ClassM): return B_["classmethod"]
    if isinstance(v, Cls): return B_["type"]
    if isinstance(v, Arr): return I.npm.NDARRAY
    if isinstance(v, (Func, Bound, Builtin)): return FUNCTYPE
    if isinstance(v, AbsSeq): return B_["range"] if v.rng is not None else B_["map"]
    return I.unk("type", v)


FUNCTYPE = Cls("function", [BUILTIN_CLASSES["object"]], {}, None, None, "builtins.function")


def isinst(I, v, c):
    """True/False/None"""
    if isinstance(c, Tup):
        rs = [isinst(I, v, x) for x in c.items]
        if any(r is True for r in rs): return True
        return None if any(r is None for r in rs) else False
    if isinstance(c, Builtin): 
        if c.name in ("numpy.ndarray",): return isinstance(v, Arr)
        if c.name.startswith("typing.") or c.name.startswith("collections.abc."):
            leaf = c.name.split(".")[-1]
            if leaf in ("Sequence",): return isinstance(v, (Lst, Tup)) or (isinstance(v, Const) and isinstance(v.v, str)) or (isinstance(v, AbsSeq) and v.rng is not None)
            if leaf in ("Iterable", "Collection", "Sized", "Container"): return isinstance(v, (Lst, Tup, Dct, SetV, AbsSeq, Arr)) or (isinstance(v, Const) and isinstance(v.v, str))
            if leaf in ("Mapping", "MutableMapping"): return isinstance(v, Dct)
            if leaf == "Callable": return isinstance(v, (Func, Bound, Builtin, Cls))
            if leaf == "Hashable": return not isinstance(v, (Lst, Dct, SetV, Arr))
        if c.name.startswith("numbers."):
            if not isinstance(v, Num): return False
            if v.f.dt is None: return None
            return DT[v.f.dt] <= {"Integral": 1, "Real": 2, "Rational": 1, "Complex": 3, "Number": 3}.get(c.name.split(".")[1], 3)
        return I.npm.isinst(I, v, c.name)
    if not isinstance(c, Cls): return None
    if isinstance(v, Unk): return None
    if c.name == "object": return True
    if isinstance(v, Obj): return v.cls.issub(c)
    if isinstance(v, Num):
        if c is I.npm.NDARRAY: return False
        if c.mod is not None: return False
        if v.f.dt is None: return None
        if v.np:
            return (c.name == "float" and v.f.dt == "f") or (c.name == "complex" and v.f.dt == "c")
        py = {"b": bool, "i": int, "f": float, "c": complex}[v.f.dt]
        return bool(c.py and issubclass(py, c.py))
    if isinstance(v, AbsSeq):
        return v.rng is not None and c.name == "range"
    t = type_of(I, v)
    if isinstance(t, Cls): return t.issub(c)
    return None


def num(x, deps=frozenset()): return Num(c=x)


def bi_range(I, a, k):
    if any(isinstance(x, Num) and x.f.dt in ("f", "c") for x in a) or any(isinstance(x, (Const, Lst, Tup)) for x in a): I.raise_("TypeError", "cannot be interpreted as an integer")
    if any(isinstance(x, Arr) for x in a): I.raise_("TypeError", "cannot be interpreted as an integer")
    lo, hi, st = L(0), None, 1
    v = [x.lin if isinstance(x, Num) else None for x in a]
    if len(v) == 1: hi = v[0]
    elif len(v) >= 2: lo, hi = v[0], v[1]
    if len(v) == 3: st = a[2].c if isinstance(a[2], Num) else None
    deps = frozenset().union(*[x.deps for x in a]) if a else frozenset()
    if lo is None or hi is None or st is None or st == 0:
        return AbsSeq(None, lambda i: Num(f=F(ONE, V0, "i", deps)), deps, vop("range", *[x.vid for x in a]), rng=(L(0), L(0), L(1)))
    if lo.is_const and hi.is_const:
        its = list(range(int(lo.c), int(hi.c), st))
        if len(its) <= 4096:
            return AbsSeq(L(len(its)), None, items=[Num(c=i) for i in its], rng=(lo, hi, L(st)))
    if st == 1: n = hi - lo
    elif st == -1: n = lo - hi
    elif st > 0: n = floordiv(I, hi - lo + (st - 1), st)
    else: n = floordiv(I, lo - hi + (-st - 1), -st)
    if I.bounds.ge0(-n) is True: return AbsSeq(L(0), None, items=[], rng=(lo, hi, L(st)))
    return AbsSeq(n, lambda i: Num(lin=lo + L(i).scale(st)), deps, vop("range", vlinform(lo), vlinform(hi), st), rng=(lo, hi, L(st)))


def bi_enumerate(I, a, k):
    s = I.to_seq(a[0])
    st = (a[1] if len(a) > 1 else k.get("start", Num(c=0))).lin
    if s.items is not None: return AbsSeq(s.n, None, s.deps, items=[Tup([Num(lin=st + i), x]) for i, x in enumerate(s.items)])
    q = AbsSeq(s.n, lambda i: Tup([Num(lin=st + i), s.get(i)]), s.deps, vop("enum", s.vid))
    q.cuts = s.cuts
    return q


def bi_zip(I, a, k):
    ss = [I.to_seq(x) for x in a]
    if not ss: return AbsSeq(L(0), None, items=[])
    if all(s.items is not None for s in ss):
        return AbsSeq(None, None, frozenset().union(*[s.deps for s in ss]), items=[Tup(list(t)) for t in zip(*[s.items for s in ss])])
    n = None
    for s in ss:
        m = s.n if s.items is None else L(len(s.items))
        if n is None: n = m
        elif m is not None and n != m:
            g = I.bounds.ge0(n - m)
            if g is True: n = m
            elif g is None and I.bounds.ge0(m - n) is not True:
                n = m if I.truth(compare(I, "GtE", Num(lin=n), Num(lin=m))) else n
    def get(i):
        out = []
        for s in ss:
            if s.items is not None:
                if L(i).is_const: out.append(s.items[int(L(i).c)])
                else: out.append(join_vals(I, s.items))
            else: out.append(s.get(i))
        return Tup(out)
    q = AbsSeq(n, get, frozenset().union(*[s.deps for s in ss]), vop("zip", *[s.vid for s in ss]))
    cut = [s.cuts for s in ss if s.cuts and s.n == n]
    if cut and n is not None and all(c == cut[0] for c in cut): q.cuts = cut[0]
    return q


def bi_map(I, a, k):
    f = a[0]; ss = [I.to_seq(x) for x in a[1:]]
    if all(s.items is not None for s in ss):
        return AbsSeq(None, None, items=[I.call(f, list(t), {}) for t in zip(*[s.items for s in ss])])
    z = bi_zip(I, a[1:], {})
    if z.cuts:
        segs, off = [], L(0)
        for n in z.cuts:
            if n.is_const and n.c <= 64: segs += [Seg(L(1), I.call(f, z.get(off + j).items, {})) for j in range(int(n.c))]
            elif I.nonempty(n, "map"):
                name = f"m@{I.site()}[{n}]"
                if name not in I.bounds.b: I.bounds.declare(name, 0, n - 1)
                segs.append(Seg(n, I.call(f, z.get(off + Sym(name)).items, {}), name))
            off = off + n
        return I.to_seq(Lst(segs, I.epoch))
    # evaluate once on a generic index
    name = f"m@{I.site()}[{z.n}]"
    if name not in I.bounds.b: I.bounds.declare(name, 0, z.n - 1 if z.n is not None else None)
    if not I.nonempty(z.n, "map"): return AbsSeq(L(0), None, items=[])
    v = I.call(f, z.get(Sym(name)).items, {})
    return AbsSeq(z.n, lambda i: subst(I, v, name, L(i)), v.deps, vop("map", v.vid if v.vid is not None else -1, vlinform(z.n) if z.n is not None else -1))


def bi_sum(I, a, k):
    s = I.to_seq(a[0])
    st = a[1] if len(a) > 1 else k.get("start", Num(c=0))
    if s.items is not None:
        acc = st
        for x in s.items: acc = I.binop("Add", acc, x)
        return acc
    name = f"s@{I.site()}[{s.n}]"
    if name not in I.bounds.b: I.bounds.declare(name, 0, s.n - 1 if s.n is not None else None)
    e = s.get(Sym(name))
    if isinstance(e, Num):
        f = fjoin(st.f, e.f, I.site(), "sum") if isinstance(st, Num) else e.f
        if f.aff not in (V0, ANEU) and not isinstance(f.aff, Mix): f = f.with_(aff=None)
        return Num(f=f, vid=vop("psum", vlinform(Sym(name)), vlinform(s.n), e.vid, st.vid) if st.vid is not None and s.n is not None else vop("psum_", e.vid))
    if isinstance(e, Arr):
        r = I.binop("Add", st, e)
        if isinstance(r, Arr): 
            r = Arr(r.shape, r.f if r.f.aff == V0 else r.f.with_(aff=None), vop("psum", vlinform(Sym(name)), vlinform(s.n), e.vid, st.vid) if st.vid is not None and s.n is not None else vop("psum_", r.vid), e.band, epoch=I.epoch)
        return r
    return I.unk("sum", e)


def minmax(which):
    def f(I, a, k):
        if len(a) == 1:
            if isinstance(a[0], Arr): return I.npm.call(I, "max" if which == "max" else "min", [a[0]], {})
            s = I.to_seq(a[0]); items = s.items
            if items is None:
                e = s.get(Sym(I.generic_any(s.n))) if hasattr(I, "generic_any") else (s.get(L(0)) if s.get else None)
                return Num(f=e.f, vid=vop(which, s.vid)) if isinstance(e, Num) else I.unk(which, a[0])
            if not items:
                if "default" in k: return k["default"]
                I.raise_("ValueError", f"{which}() arg is an empty sequence")
        else: items = a
        cur = items[0]
        if "key" in k:
            ks = [I.call(k["key"], [x], {}) for x in items]
            if not all(isinstance(x, Num) and x.c is not None for x in ks): return join_vals(I, items)
            return items[[x.c for x in ks].index((max if which == "max" else min)(x.c for x in ks))]
        for x in items[1:]:
            r = compare(I, "GtE" if which == "max" else "LtE", cur, x)
            t = I.known_truth(r)
            if t is None and not (isinstance(r, Num) and r.cond is not None):
                if isinstance(cur, Num) and isinstance(x, Num):
                    cur = Num(f=fjoin(cur.f, x.f, I.site(), which), vid=vop(which + "imum", *sorted([cur.vid, x.vid])))
                    continue
            cur = cur if I.truth(r, prefer=True) else x
        return cur
    return f


def bi_sorted(I, a, k):
    s = I.to_seq(a[0]); rev = "reverse" in k and I.truth(k["reverse"])
    items = s.items
    if items is not None:
        if all(isinstance(x, Const) and isinstance(x.v, str) for x in items) and "key" not in k:
            return fresh_list(I, sorted(items, key=lambda x: x.v, reverse=rev))
        if all(isinstance(x, Num) and x.c is not None for x in items) and "key" not in k:
            return fresh_list(I, sorted(items, key=lambda x: x.c, reverse=rev))
        if not items: return fresh_list(I, [])
        def plain(x):
            if isinstance(x, Num) and x.c is not None: return x.c
            if isinstance(x, Const): return x.v
            if isinstance(x, Tup): return tuple(plain(y) for y in x.items)
            raise TypeError
        try:
            ks = [plain(I.call(k["key"], [x], {}) if "key" in k else x) for x in items]
            return fresh_list(I, [items[i] for i in sorted(range(len(ks)), key=lambda i: ks[i], reverse=rev)])
        except TypeError: pass
        return fresh_list(I, [Seg(L(len(items)), join_vals(I, items))])
    return fresh_list(I, as_segs(I, s))


def bi_isinstance(I, a, k):
    r = isinst(I, a[0], a[1])
    if r is None: return Num(f=F(ONE, V0, "b"), vid=vop("isinstance", a[0].vid if a[0].vid is not None else -1, a[1].vid if a[1].vid is not None else -1))
    return boolv(r)


def bi_getattr(I, a, k):
    n = a[1]
    if not isinstance(n, Const): return I.unk("getattr", *a)
    try:
        v = getattr_(I, a[0], n.v)
    except AbsRaise as e:
        if len(a) > 2 and e.exc.cls.name == "AttributeError": return a[2]
        raise
    if v is None:
        if len(a) > 2: return a[2]
        I.raise_("AttributeError", f"{a[0]!r:.50} has no attribute {n.v!r}")
    return v


PYT = {Lst: list, Tup: tuple, Dct: dict, SetV: set}


def bi_hasattr(I, a, k):
    o, name = a[0], a[1].v if isinstance(a[1], Const) else None
    if name is None: return I.unk("hasattr", *a)
    t = PYT.get(type(o))
    if isinstance(o, Const): return boolv(hasattr(o.v, name))
    if t is not None and not isinstance(o, Obj): return boolv(hasattr(t, name))
    if name.startswith("__") and name.endswith("__"):
        if isinstance(o, AbsSeq): return boolv(name in ("__iter__", "__class__") or name in ("__len__", "__getitem__") and o.n is not None)
        if isinstance(o, Num): return boolv(hasattr(np.float64 if o.np else int if o.f is not None and o.f.dt in ("i", "b") else complex if o.f is not None and o.f.dt == "c" else float, name))
        if isinstance(o, Arr): return boolv(hasattr(np.ndarray, name))
    try: return boolv(getattr_(I, a[0], a[1].v) is not None)
    except AbsRaise as e:
        if e.exc.cls.name == "AttributeError": return boolv(False)
        raise


def bi_setattr(I, a, k):
    I.setattr(a[0], a[1].v, a[2]); return NONE


def bi_anyall(which):
    def f(I, a, k):
        s = I.to_seq(a[0])
        if s.items is not None:
            for x in s.items:
                t = I.truth(x)
                if which == "any" and t: return boolv(True)
                if which == "all" and not t: return boolv(False)
            return boolv(which == "all")
        return Num(f=F(ONE, V0, "b", s.deps), vid=vop(which, s.vid))
    return f


def bi_int(I, a, k):
    if not a: return Num(c=0)
    x = a[0]
    if isinstance(x, Num):
        if x.c is not None:
            try: return Num(c=int(x.c))
            except Exception as e: I.raise_(type(e).__name__, str(e))
        if x.f.dt in ("i", "b"): return Num(lin=x.lin, f=x.f.with_(dt="i"), vid=x.vid)
        if x.lin is not None and all(v.denominator == 1 for _, v in x.lin.t) and x.lin.c.denominator == 1: return Num(lin=x.lin, f=x.f.with_(dt="i"), vid=x.vid)
        I.event("trunc", what="int()", value=x)
        return Num(f=F(x.f.unit, afun(x.f.aff, I.site(), "integer part"), "i", x.deps), vid=vop("int", x.vid))
    if isinstance(x, Const):
        if isinstance(x.v, str):
            try: return Num(c=int(x.v))
            except ValueError: I.raise_("ValueError", "invalid literal for int()")
        I.raise_("TypeError", "int() argument")
    if isinstance(x, (Lst, Tup, Dct)): I.raise_("TypeError", "int() argument")
    return Num(f=F(ONE, V0, "i", x.deps), vid=vop("int", x.vid))


def bi_float(I, a, k):
    if not a: return Num(c=0.0)
    x = a[0]
    if isinstance(x, Num):
        if x.c is not None:
            if isinstance(x.c, complex): I.raise_("TypeError", "can't convert complex to float")
            return Num(c=float(x.c))
        return Num(lin=x.lin, f=x.f.with_(dt="f"), vid=x.vid)
    if isinstance(x, Const):
        if isinstance(x.v, str):
            try: return Num(c=float(x.v))
            except ValueError: I.raise_("ValueError", "could not convert string to float")
        I.raise_("TypeError", "float() argument")
    if isinstance(x, Arr): return Num(f=x.f.with_(dt="f"), vid=vop("item", x.vid))
    if isinstance(x, (Lst, Tup, Dct)): I.raise_("TypeError", "float() argument")
    return Num(f=F(None, None, "f", x.deps), vid=vop("float", x.vid))


def bi_list(I, a, k):
    if not a: return fresh_list(I, [])
    return fresh_list(I, as_segs(I, a[0]))


def bi_tuple(I, a, k):
    if not a: return Tup([])
    s = I.to_seq(a[0])
    if s.items is not None: return Tup(s.items)
    r = fresh_list(I, as_segs(I, s))
    r.tup = True
    return r


def bi_dict(I, a, k):
    d = I.new_epoch(Dct())
    if a:
        if isinstance(a[0], Dct): d.d = dict(a[0].d)
        else:
            for x in I.to_seq(a[0]).items or []:
                p = I.to_seq(x).items
                d.d[I.key(p[0])] = (p[0], p[1])
    for n, v in k.items(): d.d[("c", n)] = (Const(n), v)
    return d


def bi_set(I, a, k):
    s = SetV([])
    if a:
        q = I.to_seq(a[0])
        for x in (q.items or []): s.d[I.key(x)] = x
    return I.new_epoch(s)


def bi_str(I, a, k):
    if not a: return Const("")
    x = a[0]
    if isinstance(x, Const): return Const(str(x.v))
    if isinstance(x, Num) and x.c is not None: return Const(str(x.c))
    if isinstance(x, Obj) and x.cls.py and issubclass(x.cls.py, BaseException): return SymStr(vop("str", x.vid))
    return SymStr(vop("str", x.vid if x.vid is not None else -1), x.deps)


def bi_reversed(I, a, k):
    s = I.to_seq(a[0])
    if s.items is not None: return AbsSeq(s.n, None, s.deps, items=list(reversed(s.items)))
    return AbsSeq(s.n, lambda i: s.get(s.n - 1 - i), s.deps, vop("rev", s.vid))


def bi_iter(I, a, k):
    if isinstance(a[0], Obj):
        f, _ = a[0].cls.lookup("__iter__")
        if f is not None: return I.call(Bound(f, a[0]), [], {})
    s = I.to_seq(a[0])
    if isinstance(a[0], AbsSeq): return s
    return AbsSeq(s.n, s.get, s.deps, s.vid, items=list(s.items)) if s.items is not None else AbsSeq(s.n, s.get, s.deps, s.vid)


def bi_next(I, a, k):
    s = I.to_seq(a[0])
    if s.items is not None:
        if s.items and isinstance(a[0], AbsSeq):       # an iterator advances
            x = s.items.pop(0)
            if s.n is not None: s.n = s.n - 1
            return x
        if s.items: return s.items[0]
        if len(a) > 1: return a[1]
        I.raise_("StopIteration")
    if s.get and isinstance(a[0], AbsSeq) and s.n is not None and I.bounds.ge0(s.n - 1) is True:
        x, g = s.get(L(0)), s.get
        s.n, s.get, s.vid = s.n - 1, lambda i: g(i + 1), vop("rest", s.vid) if s.vid is not None else None
        return x
    return I.unk("next", *a)


def bi_print(I, a, k):
    I.event("io", what="print"); return NONE


def bi_super(I, a, k):
    return SuperV(a[0], a[1])


def bi_round(I, a, k): return I.npm.call(I, "round", a, k)


_BI = {
    "range": bi_range, "enumerate": bi_enumerate, "zip": bi_zip, "map": bi_map, "len": lambda I, a, k: length(I, a[0]),
    "sum": bi_sum, "min": minmax("min"), "max": minmax("max"), "sorted": bi_sorted, "isinstance": bi_isinstance,
    "getattr": bi_getattr, "hasattr": bi_hasattr, "setattr": bi_setattr, "any": bi_anyall("any"), "all": bi_anyall("all"),
    "abs": lambda I, a, k: I.npm.call(I, "abs", a, k), "print": bi_print, "reversed": bi_reversed, "next": bi_next,
    "iter": bi_iter, "callable": lambda I, a, k: boolv(isinstance(a[0], (Func, Bound, Builtin, Cls, StaticM))),
    "round": bi_round, "repr": lambda I, a, k: Const(repr(a[0].v)) if isinstance(a[0], Const) else bi_str(I, a, k), "id": lambda I, a, k: Num(c=getattr(a[0], "id", id(a[0]))),
    "divmod": lambda I, a, k: Tup([I.binop("FloorDiv", a[0], a[1]), I.binop("Mod", a[0], a[1])]),
    "pow": lambda I, a, k: I.binop("Pow", a[0], a[1]) if len(a) == 2 and not k else Num(c=pow(*[x.c for x in a])) if all(isinstance(x, Num) and isinstance(x.c, int) for x in a) and not k else I.unk("pow", *a),
    "hash": lambda I, a, k: Num(f=F(ONE, V0, "i"), vid=vop("hash", a[0].vid)),
    "delattr": lambda I, a, k: (I.del_attr(a[0], a[1].v), NONE)[1],
    "issubclass": lambda I, a, k: boolv(any(a[0].issub(c) for c in (a[1].items if isinstance(a[1], Tup) else [a[1]]))) if isinstance(a[0], Cls) else I.unk("issubclass"),
    "vars": lambda I, a, k: getattr_(I, a[0], "__dict__"), "format": lambda I, a, k: bi_str(I, a, k) if len(a) < 2 else SymStr(vop("format", *[x.vid if x.vid is not None else -1 for x in a])),
    "open": lambda I, a, k: (I.event("io", what="open"), I.unk("open"))[1],
    "input": lambda I, a, k: I.unk("input"), "__import__": lambda I, a, k: I.load_module(a[0].v),
    "filter": lambda I, a, k: AbsSeq(None, None, items=[x for x in (I.to_seq(a[1]).items or []) if I.truth(x if is_none(a[0]) else I.call(a[0], [x], {}))]) if I.to_seq(a[1]).items is not None else I.unk("filter"),
}
_BV = {k: Builtin("builtins." + k, f) for k, f in _BI.items()}

_CLSCALL = {
    "int": bi_int, "float": bi_float, "list": bi_list, "tuple": bi_tuple, "dict": bi_dict, "set": bi_set, "frozenset": bi_set,
    "str": bi_str, "bool": lambda I, a, k: boolv(I.truth(a[0])) if a else boolv(False),
    "type": lambda I, a, k: type_of(I, a[0]) if len(a) == 1 else mk_type(I, a),
    "property": lambda I, a, k: Prop(a[0], a[1] if len(a) > 1 and not is_none(a[1]) else None),
    "staticmethod": lambda I, a, k: StaticM(a[0]), "classmethod": lambda I, a, k: ClassM(a[0]),
    "object": lambda I, a, k: Obj(BUILTIN_CLASSES["object"], {}, I.epoch),
    "slice": lambda I, a, k: SliceV(*( [NONE, a[0], NONE] if len(a) == 1 else [a[0], a[1], NONE] if len(a) == 2 else a)),
    "complex": lambda I, a, k: Num(c=complex(*[x.c for x in a])) if all(isinstance(x, Num) and x.c is not None for x in a) else (Num(f=a[0].f.with_(dt="c"), vid=vop("complex", *[x.vid for x in a])) if isinstance(a[0], Num) else I.unk("complex", *a)),
    "range": bi_range, "enumerate": bi_enumerate, "zip": bi_zip, "map": bi_map, "reversed": bi_reversed, "super": bi_super,
    "filter": _BI["filter"],
    "bytes": lambda I, a, k: I.unk("bytes"), "bytearray": lambda I, a, k: I.unk("bytearray"), "memoryview": lambda I, a, k: I.unk("memoryview"),
}


def mk_type(I, a):
    c = Cls(a[0].v, a[1].items or [BUILTIN_CLASSES["object"]], {k[1]: v for k, (_, v) in a[2].d.items()}, I.modules.get("qmat"), None, "dynamic." + a[0].v, I.epoch)
    return c


def call_builtin_class(I, cls, args, kwargs):
    f = _CLSCALL.get(cls.name)
    if f is not None: return f(I, list(args), dict(kwargs))
    if issubclass(cls.py, BaseException):
        return Obj(cls, {"args": Tup(args)}, I.epoch)
    return I.unk("builtin class " + cls.name, *args)


def builtin(I, name):
    if name in BUILTIN_CLASSES: return BUILTIN_CLASSES[name]
    if name in _BV: return _BV[name]
    if name == "NotImplemented": return Const(NotImplemented)
    if name == "__name__": return Const("?")
    if name == "__debug__": return boolv(True)
    if name == "Ellipsis": return Const(Ellipsis)
    if hasattr(builtins, name): return Builtin("builtins." + name, lambda I, a, k: I.unk("builtin " + name, *a))
    return None


def frame_builtin(I, name, args, fr):
    if name == "eval" and args and isinstance(args[0], Const) and isinstance(args[0].v, str):
        import ast
        try: t = ast.parse(args[0].v.strip(), mode="eval")
        except SyntaxError: I.raise_("SyntaxError", "eval")
        for n in ast.walk(t):
            if hasattr(n, "lineno"): n.lineno = I.line
        return I.eval(t.body, fr)
    if name == "exec": return I.unk("exec")
    if name in ("locals", "globals") or (name in ("vars", "dir") and not args):
        ns = fr.locals if name != "globals" else fr.mod.ns
        f = fr
        while name in ("locals", "vars", "dir") and f.func is None and not f.is_class and f.parent is not None: f = f.parent; ns = f.locals
        d = Dct([(("c", k), (Const(k), v)) for k, v in ns.items()])
        if ns is fr.mod.ns:
            d.ns = ns; d.epoch = fr.mod.epoch; d.origin = "import"
        else: I.new_epoch(d)
        if name == "dir": return fresh_list(I, [kv for kv, _ in d.d.values()])
        return d
    if name in ("vars",): return getattr_(I, args[0], "__dict__") or I.unk("vars")
    return I.unk(name, *args)


# ----------------------------------------------------------------------------- modules

class Native:
    pass


def native_module(I, name):
    m = Mod(name, {}, native=True)
    return m


def native_attr(I, m, name):
    full = m.name + "." + name
    root = m.name.split(".")[0]
    if root in ("numpy", "scipy"):
        v = I.npm.module_attr(I, full)
        m.ns[name] = v
        return v
    if full in STDLIB:
        v = STDLIB[full]
        if not isinstance(v, Val): v = Builtin(full, v)
        m.ns[name] = v
        return v
    if root == "math":
        if hasattr(math, name):
            x = getattr(math, name)
            if isinstance(x, float): return Num(c=x)
            return Builtin(full, lambda I, a, k: math_call(I, name, a))
        return None
    if full in ("os.path", "collections.abc", "importlib.metadata", "importlib.util", "numpy.polynomial", "scipy.linalg"): return I.load_module(full)
    if name.startswith("__"): return None
    return Builtin(full, lambda I, a, k: I.unk("call " + full, *a, *k.values()))


def native_func_attr(I, o, name):
    if o.name.startswith(("numpy", "scipy")):
        return I.npm.func_attr(I, o, name)
    if o.name == "itertools.chain" and name == "from_iterable":
        def fi(I, a, k):
            out = []
            for x in I.to_seq(a[0]).items or []: out += as_segs(I, x)
            return fresh_list(I, out)
        return Builtin("itertools.chain.from_iterable", fi)
    if name.startswith("__"): return None
    return I.unk("attr of builtin " + o.name)


def math_call(I, name, a):
    if name == "log" and len(a) == 2: return I.binop("Div", math_call(I, "log", a[:1]), math_call(I, "log", a[1:]))
    if name in ("prod", "fsum"):
        s = I.to_seq(a[0])
        if s.items is not None and len(a) == 1:
            acc = Num(c=1 if name == "prod" else 0.0)
            for x in s.items: acc = I.binop("Mult" if name == "prod" else "Add", acc, x)
            return acc
        return I.unk("math." + name, *a)
    if name in ("copysign", "atan2", "cosh", "sinh", "tanh", "acos", "asin", "atan", "acosh", "asinh", "atanh", "degrees", "radians", "fmod", "expm1", "log1p", "exp2", "cbrt", "nextafter", "trunc") and not all(isinstance(x, Num) and x.c is not None for x in a):
        nm = {"atan2": "arctan2", "acos": "arccos", "asin": "arcsin", "atan": "arctan", "acosh": "arccosh", "asinh": "arcsinh", "atanh": "arctanh", "degrees": "rad2deg", "radians": "deg2rad"}.get(name, name)
        r = I.npm.call(I, nm, a, {})
        return Num(c=r.c, lin=r.lin, f=r.f if name != "trunc" else r.f.with_(dt="i"), vid=r.vid, cond=r.cond) if isinstance(r, Num) else r
    if name in ("sqrt", "exp", "log", "cos", "sin", "fabs", "floor", "ceil", "isnan", "isinf", "isfinite", "log10", "log2", "tan", "pow", "hypot"):
        nm = {"fabs": "abs", "pow": "power"}.get(name, name)
        r = I.npm.call(I, nm, a, {})
        if isinstance(r, Num): r = Num(c=r.c, lin=r.lin, f=r.f if name not in ("floor", "ceil") else r.f.with_(dt="i"), vid=r.vid, cond=r.cond)
        if isinstance(r, Num) and r.c is not None and name in ("floor", "ceil"): r = Num(c=int(r.c))
        return r
    if name == "isclose":
        return I.npm.call(I, "isclose", a, {})
    if all(isinstance(x, Num) and x.c is not None for x in a):
        try: return wrap(I, getattr(math, name)(*[x.c for x in a]))
        except Exception as e: I.raise_(type(e).__name__ if type(e).__name__ in BUILTIN_CLASSES else "ValueError", str(e))
    return I.unk("math." + name, *a)


def fn_params(I, fn):
    """signature parameters of a function: list of (name, kind, default or None)"""
    skip = 0
    while True:
        if isinstance(fn, Bound): fn = fn.fn; skip = 1
        elif isinstance(fn, (StaticM, ClassM)): fn = fn.fn
        elif isinstance(fn, Func) and "__wrapped__" in fn.attrs: fn = fn.attrs["__wrapped__"]
        elif isinstance(fn, Cls):
            f, _ = fn.lookup("__init__")
            if f is None: return []
            fn = f; skip = 1
        else: break
    if not isinstance(fn, Func): return []
    a = fn.node.args
    out = []
    pos = list(a.posonlyargs) + list(a.args)
    nd = len(fn.defaults)
    for i, p in enumerate(pos):
        j = i - (len(pos) - nd)
        out.append((p.arg, "POSITIONAL_ONLY" if i < len(a.posonlyargs) else "POSITIONAL_OR_KEYWORD", fn.defaults[j] if j >= 0 else None))
    if a.vararg: out.append((a.vararg.arg, "VAR_POSITIONAL", None))
    for p in a.kwonlyargs: out.append((p.arg, "KEYWORD_ONLY", fn.kwdefaults.get(p.arg)))
    if a.kwarg: out.append((a.kwarg.arg, "VAR_KEYWORD", None))
    return out[skip:]


PARAM_CLS = Cls("Parameter", [BUILTIN_CLASSES["object"]], {}, None, None, "inspect.Parameter")
SIG_CLS = Cls("Signature", [BUILTIN_CLASSES["object"]], {}, None, None, "inspect.Signature")
EMPTY_CLS = Cls("_empty", [BUILTIN_CLASSES["object"]], {}, None, None, "inspect._empty")
KINDS = ["POSITIONAL_ONLY", "POSITIONAL_OR_KEYWORD", "VAR_POSITIONAL", "KEYWORD_ONLY", "VAR_KEYWORD"]
for _k in KINDS: PARAM_CLS.ns[_k] = Const("kind:" + _k)
PARAM_CLS.ns["empty"] = EMPTY_CLS


def std_signature(I, a, k):
    fn = a[0]
    d = I.new_epoch(Dct())
    for n, kind, dflt in fn_params(I, fn):
        p = Obj(PARAM_CLS, {"name": Const(n), "kind": Const("kind:" + kind), "default": dflt if dflt is not None else EMPTY_CLS}, I.epoch)
        d.d[("c", n)] = (Const(n), p)
    o = Obj(SIG_CLS, {"parameters": d}, I.epoch)
    def bind(I, a2, k2, partial=False):
        ps = fn_params(I, fn)
        out = I.new_epoch(Dct()); args = list(a2); kw = dict(k2)
        for n, kind, dflt in ps:
            if kind in ("POSITIONAL_ONLY", "POSITIONAL_OR_KEYWORD"):
                if args: out.d[("c", n)] = (Const(n), args.pop(0))
                elif n in kw: out.d[("c", n)] = (Const(n), kw.pop(n))
                elif dflt is None and not partial: I.raise_("TypeError", f"missing a required argument: '{n}'")
            elif kind == "VAR_POSITIONAL": out.d[("c", n)] = (Const(n), Tup(args)); args = []
            elif kind == "KEYWORD_ONLY" and n in kw: out.d[("c", n)] = (Const(n), kw.pop(n))
            elif kind == "VAR_KEYWORD":
                out.d[("c", n)] = (Const(n), I.new_epoch(Dct([(("c", x), (Const(x), v)) for x, v in kw.items()]))); kw = {}
        if args: I.raise_("TypeError", "too many positional arguments")
        if kw: I.raise_("TypeError", f"got an unexpected keyword argument '{next(iter(kw))}'")
        b = Obj(Cls("BoundArguments", [BUILTIN_CLASSES["object"]]), {"arguments": out}, I.epoch)
        b.attrs["apply_defaults"] = Builtin("apply_defaults", lambda I, a, k: NONE)
        return b
    o.attrs["bind"] = Builtin("Signature.bind", bind)
    o.attrs["bind_partial"] = Builtin("Signature.bind_partial", lambda I, a, k: bind(I, a, k, True))
    return o


def std_wraps(I, a, k):
    wrapped = a[0]
    def deco(I, b, kk):
        f = b[0]
        if isinstance(f, Func): f.attrs["__wrapped__"] = wrapped
        return f
    return Builtin("functools.wraps()", deco)


def std_partial(I, a, k):
    fn, pre, kw = a[0], list(a[1:]), dict(k)
    b = Builtin("functools.partial()", lambda I, x, y: I.call(fn, pre + list(x), {**kw, **y}))
    b.vid = vop("partial", fn.vid if fn.vid is not None else -1, *[x.vid for x in pre if x.vid is not None])
    return b


def std_cache(I, a, k):
    """functools.lru_cache / cache: a dictionary keyed by the arguments"""
    def deco(I, b, kk):
        fn = b[0]
        store = Dct(); store.epoch = I.epoch; store.origin = "import" if I.epoch == 0 else "fresh"
        def call(I, x, y):
            kk = ("t",) + tuple(I.key(v) for v in x) + tuple((n, I.key(v)) for n, v in sorted(y.items()))
            if kk in store.d: return store.d[kk][1]
            v = I.call(fn, x, y)
            I.dct_set(store, kk, Tup(x), v)
            if I.effects and I.effects[-1].obj is store: I.effects[-1].kind = "memo"
            return v
        r = Builtin("functools.cache()", call, {"__wrapped__": fn, "method": True,
                    "cache_clear": Builtin("cache_clear", lambda I, a, k: (I.dct_clear(store), NONE)[1]), "_store": store})
        return r
    if len(a) == 1 and isinstance(a[0], (Func, Bound, Builtin)) and not k: return deco(I, a, {})
    return Builtin("functools.lru_cache()", deco)


def std_walk_packages(I, a, k):
    out = []
    for p in I.to_seq(a[0]).items or []:
        def walk(d, prefix):
            for f in sorted(os.listdir(d)):
                full = os.path.join(d, f)
                if f.endswith(".py") and f != "__init__.py": out.append(Tup([NONE, Const(prefix + f[:-3]), boolv(False)]))
                elif os.path.isdir(full) and os.path.exists(os.path.join(full, "__init__.py")):
                    out.append(Tup([NONE, Const(prefix + f), boolv(True)])); walk(full, prefix + f + ".")
        if isinstance(p, Const): walk(p.v, k["prefix"].v if "prefix" in k else "")
    return AbsSeq(L(len(out)), None, items=out)


def std_iter_modules(I, a, k):
    r = std_walk_packages(I, a, k)
    its = [x for x in r.items if "." not in x.items[1].v]
    return AbsSeq(L(len(its)), None, items=its)


def std_copy(deep):
    def f(I, a, k):
        x = a[0]
        if isinstance(x, Arr): return I.npm.copy_arr(I, x)
        if isinstance(x, Lst): return fresh_list(I, [Seg(s.n, f(I, [s.val], {}) if deep else s.val, s.sym) for s in x.segs])
        if isinstance(x, Dct):
            d = I.new_epoch(Dct())
            for kk, (kv, v) in x.d.items(): d.d[kk] = (kv, f(I, [v], {}) if deep else v)
            return d
        if isinstance(x, Obj):
            o = Obj(x.cls, {}, I.epoch); o.opaque = x.opaque
            for n, v in x.attrs.items(): o.attrs[n] = f(I, [v], {}) if deep else v
            return o
        return x
    return f


def std_simplefilter(I, a, k):
    if not I.catch_warn: I.event("global", what="warnings.simplefilter")
    return NONE


def std_catch_warnings(I, a, k):
    def ent(I):
        I.catch_warn += 1
        return I.new_epoch(Lst([])) if "record" in k else NONE
    def ex(I): I.catch_warn -= 1
    return CtxMgr("warnings.catch_warnings", ent, ex)


def std_warn(I, a, k):
    I.event("warn", what=a[0]); return NONE


def std_product(I, a, k):
    ss = [I.to_seq(x).items for x in a]
    if any(s is None for s in ss): return I.unk("itertools.product", *a)
    rep = k["repeat"].c if "repeat" in k else 1
    import itertools
    return AbsSeq(None, None, items=[Tup(list(t)) for t in itertools.product(*ss, repeat=rep)])


def std_chain(I, a, k):
    segs = []
    for x in a: segs += as_segs(I, x)
    return fresh_list(I, segs)


def std_accumulate(I, a, k):
    s = I.to_seq(a[0])
    f = a[1] if len(a) > 1 else k.get("func")
    if s.items is None:
        if isinstance(a[0], Arr) and a[0].shape is not None and len(a[0].shape) == 1 and f is None and "initial" not in k: return fresh_list(I, as_segs(I, I.npm.call(I, "cumsum", [a[0]], {})))
        return I.unk("accumulate", *a)
    items = list(s.items)
    if "initial" in k and not is_none(k["initial"]): items.insert(0, k["initial"])
    out = items[:1]
    for x in items[1:]: out.append(I.binop("Add", out[-1], x) if f is None or is_none(f) else I.call(f, [out[-1], x], {}))
    return fresh_list(I, [Seg(L(1), x) for x in out])


def std_selection(name):
    """combinatorial iterators over sequences with known elements"""
    import itertools
    def f(I, a, k):
        ss = [I.to_seq(x).items if not isinstance(x, Num) else None for x in a]
        n = [x.c for x in a[1:] if isinstance(x, Num)]
        if name in ("pairwise", "zip_longest"):
            if any(x is None for x in ss): return I.unk("itertools." + name, *a)
            it = itertools.pairwise(ss[0]) if name == "pairwise" else itertools.zip_longest(*ss, fillvalue=k.get("fillvalue", NONE))
        else:
            if not ss or ss[0] is None or any(not isinstance(x, int) for x in n) or len(n) != len(a) - 1: return I.unk("itertools." + name, *a)
            it = getattr(itertools, name)(ss[0], *n)
        return AbsSeq(None, None, items=[Tup(list(t)) for t in it])
    return f


def std_starmap(I, a, k):
    s = I.to_seq(a[1]).items
    ss = None if s is None else [I.to_seq(x).items for x in s]
    if ss is None or any(x is None for x in ss): return I.unk("starmap", *a)
    return AbsSeq(None, None, items=[I.call(a[0], list(x), {}) for x in ss])


def std_while(take):
    def f(I, a, k):
        s = I.to_seq(a[1]).items
        if s is None: return I.unk("itertools.takewhile", *a)
        for i, x in enumerate(s):
            if not I.truth(I.call(a[0], [x], {})): return AbsSeq(None, None, items=list(s[:i] if take else s[i:]))
        return AbsSeq(None, None, items=list(s) if take else [])
    return f


def std_itemgetter(I, a, k):
    return Builtin("itemgetter()", lambda I, b, kk: I.getitem(b[0], a[0]) if len(a) == 1 else Tup([I.getitem(b[0], x) for x in a]))


def std_attrgetter(I, a, k):
    if not all(isinstance(x, Const) and isinstance(x.v, str) for x in a): return I.unk("attrgetter", *a)
    def one(I, o, n):
        for y in n.split("."): o = getattr_(I, o, y)
        return o
    return Builtin("attrgetter()", lambda I, b, kk: one(I, b[0], a[0].v) if len(a) == 1 else Tup([one(I, b[0], x.v) for x in a]))


def std_reduce(I, a, k):
    s = I.to_seq(a[1])
    if s.items is None: return I.unk("reduce", *a)
    items = list(s.items)
    acc = a[2] if len(a) > 2 else items.pop(0)
    for x in items: acc = I.call(a[0], [acc, x], {})
    return acc


def std_contextmanager(I, a, k): return Builtin("contextmanager()", lambda I, b, kk: I.unk("contextmanager", *b))


def std_defaultdict(I, a, k):
    d = bi_dict(I, a[1:], k)
    if a and not is_none(a[0]): d.default_factory = a[0]
    return d


def std_islice(I, a, k):
    sl = SliceV(NONE, a[1], NONE) if len(a) == 2 else SliceV(a[1], a[2], a[3] if len(a) > 3 else NONE)
    return fresh_list(I, slice_segs(I, as_segs(I, a[0]), sl, I.to_seq(a[0]).n or L(len(I.to_seq(a[0]).items or []))))


def named_tuple(I, cls, args, kw):
    """an instance of a class of tuples with named items"""
    names = cls.ntup
    if len(args) > len(names) or set(kw) - set(names) or set(kw) & set(names[:len(args)]): I.raise_("TypeError", "arguments of a named tuple")
    out = list(args)
    for n in names[len(args):]:
        if n in kw: out.append(kw[n])
        elif n in cls.ns: out.append(cls.ns[n])
        else: I.raise_("TypeError", f"missing argument {n}")
    t = Tup(out)
    t.cls = cls
    return t


def std_namedtuple(I, a, k):
    if not isinstance(a[0], Const): return I.unk("namedtuple", *a)
    if isinstance(a[1], Const): names = a[1].v.replace(",", " ").split()
    else:
        it = I.to_seq(a[1]).items
        if it is None or not all(isinstance(x, Const) for x in it): return I.unk("namedtuple", *a)
        names = [x.v for x in it]
    c = Cls(a[0].v, [BUILTIN_CLASSES["object"]], {}, None, None, a[0].v, I.epoch)
    c.ntup = names
    if "defaults" in k:
        d = I.to_seq(k["defaults"]).items or []
        c.ns.update(zip(names[len(names) - len(d):], d))
    return c


def std_dataclass(I, a, k):
    if not a: return Builtin("dataclass()", lambda I, b, kk: std_dataclass(I, b, k))
    c = a[0]
    if not isinstance(c, Cls) or "__init__" in c.ns: return c
    names = []
    for b in reversed(c.mro()):
        for n in getattr(b, "annots", ()):
            if n not in names: names.append(n)
    dflt = {n: c.lookup(n)[0] for n in names if c.lookup(n)[0] is not None}
    def init(I, b, kk):
        o, pos = b[0], list(b[1:])
        use = [n for n in names if not (getattr(dflt.get(n), "field", None) or {}).get("init") is False]
        if len(pos) > len(use) or set(kk) - set(use) or set(kk) & set(use[:len(pos)]): I.raise_("TypeError", f"arguments of {c.name}")
        given = {**dict(zip(use, pos)), **kk}
        for n in names:
            d = dflt.get(n)
            fld = getattr(d, "field", None)
            if n in given: v = given[n]
            elif fld is not None and "default_factory" in fld: v = I.call(fld["default_factory"], [], {})
            elif fld is not None and "default" in fld: v = fld["default"]
            elif fld is None and d is not None: v = d
            else: I.raise_("TypeError", f"missing argument {n}")
            I.set_attr(o, n, v)
        f, _ = c.lookup("__post_init__")
        if f is not None: I.call(Bound(f, o), [], {})
        return NONE
    c.ns["__init__"] = Builtin(c.name + ".__init__", init)
    return c


def std_field(I, a, k):
    b = Builtin("dataclasses.field()", lambda I, a, k: I.unk("field"))
    b.field = {n: (False if n == "init" and isinstance(v, Num) and not v.c else v) for n, v in k.items()}
    return b


def op_fn(name): return lambda I, a, k: I.binop(name, a[0], a[1])


STDLIB = {
    "inspect.signature": std_signature, "inspect.Parameter": PARAM_CLS, "inspect.Signature": SIG_CLS, "inspect._empty": EMPTY_CLS,
    "inspect.isclass": lambda I, a, k: boolv(isinstance(a[0], Cls)),
    "inspect.isfunction": lambda I, a, k: boolv(isinstance(a[0], Func)),
    "functools.wraps": std_wraps, "functools.partial": std_partial, "functools.lru_cache": std_cache, "functools.cache": std_cache,
    "functools.reduce": std_reduce, "functools.cached_property": lambda I, a, k: CachedProp(a[0]),
    "functools.update_wrapper": lambda I, a, k: (a[0].attrs.__setitem__("__wrapped__", a[1]) if isinstance(a[0], Func) else None, a[0])[1],
    "pkgutil.walk_packages": std_walk_packages, "pkgutil.iter_modules": std_iter_modules,
    "importlib.import_module": lambda I, a, k: I.load_module(a[0].v),
    "copy.copy": std_copy(False), "copy.deepcopy": std_copy(True),
    "time.time": lambda I, a, k: Num(f=F(None, None, "f"), vid=VN.mk(("atom", f"time{newid()}"))),
    "time.perf_counter": lambda I, a, k: Num(f=F(None, None, "f")),
    "warnings.simplefilter": std_simplefilter, "warnings.filterwarnings": std_simplefilter, "warnings.resetwarnings": std_simplefilter,
    "warnings.catch_warnings": std_catch_warnings, "warnings.warn": std_warn,
    "typing.TypeVar": lambda I, a, k: Builtin("typing.TypeVar()", lambda I, a, k: NONE),
    "itertools.product": std_product, "itertools.chain": std_chain, "itertools.accumulate": std_accumulate, "itertools.islice": std_islice,
    "itertools.repeat": lambda I, a, k: fresh_list(I, [Seg(a[1].lin if len(a) > 1 else None, a[0])]),
    "contextlib.contextmanager": std_contextmanager, "contextlib.suppress": lambda I, a, k: I.unk("suppress"),
    "collections.OrderedDict": bi_dict, "collections.defaultdict": std_defaultdict,
    "itertools.combinations": std_selection("combinations"), "itertools.permutations": std_selection("permutations"), "itertools.pairwise": std_selection("pairwise"),
    "itertools.combinations_with_replacement": std_selection("combinations_with_replacement"), "itertools.zip_longest": std_selection("zip_longest"),
    "itertools.starmap": std_starmap, "itertools.takewhile": std_while(True), "itertools.dropwhile": std_while(False),
    "operator.itemgetter": std_itemgetter, "operator.attrgetter": std_attrgetter, "operator.neg": lambda I, a, k: I.binop("Mult", Num(c=-1), a[0]),
    "operator.pow": op_fn("Pow"), "operator.matmul": op_fn("MatMult"), "operator.floordiv": op_fn("FloorDiv"), "operator.mod": op_fn("Mod"),
    "operator.getitem": lambda I, a, k: I.getitem(a[0], a[1]), "operator.not_": lambda I, a, k: boolv(not I.truth(a[0])),
    **{"operator." + p: (lambda q: lambda I, a, k: compare(I, q, a[0], a[1]))(q) for p, q in (("eq", "Eq"), ("ne", "NotEq"), ("lt", "Lt"), ("le", "LtE"), ("gt", "Gt"), ("ge", "GtE"))},
    "operator.add": op_fn("Add"), "operator.mul": op_fn("Mult"), "operator.sub": op_fn("Sub"), "operator.truediv": op_fn("Div"),
    "abc.ABC": BUILTIN_CLASSES["object"], "abc.abstractmethod": lambda I, a, k: a[0],
    "fractions.Fraction": lambda I, a, k: (I.binop("Div", a[0], a[1]) if len(a) > 1 else a[0]),
    "os.environ": Dct(), "typing.TYPE_CHECKING": Num(c=False),
    "types.MappingProxyType": lambda I, a, k: a[0], "dataclasses.dataclass": std_dataclass, "dataclasses.field": std_field, "collections.namedtuple": std_namedtuple,
}
