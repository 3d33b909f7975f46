"""Models of numpy and scipy over the abstract array domain (shapes, facts, bands, buffers, constants)."""
import math
import numpy as np
from .core import *
from . import core
from . import lib

DTN = {"b": bool, "i": int, "f": float, "c": complex}
NDARRAY = Cls("ndarray", [lib.BUILTIN_CLASSES["object"]], {}, None, None, "numpy.ndarray", 0, "import")
_unk = Band(None, None, False)


# ----------------------------------------------------------------------------- construction

def mk(I, shape, f, vid=None, band=None, segs=None, const=None, origin="fresh"):
    if shape is not None: shape = tuple(None if d is None else L(d) for d in shape)
    a = Arr(shape, f, vid, band, const, segs, epoch=I.epoch, origin=origin)
    I.buf_origin[a.buf] = origin
    return a


def dt_of(x):
    k = np.asarray(x).dtype.kind
    return {"b": "b", "i": "i", "u": "i", "f": "f", "c": "c"}.get(k, "o")


def const_band(x):
    if x.ndim != 2: return None
    i, j = np.nonzero(x)
    if len(i) == 0: return EMPTY
    d = i - j
    return Band(L(int(d.min())), L(int(d.max())), True)


def mkconst(I, x, f=None):
    x = np.asarray(x)
    dt = dt_of(x)
    if dt == "o": return mk(I, tuple(L(n) for n in x.shape), F(None, None, None))
    if f is None:
        f = F(ANY if not np.any(x != 0) else ONE, V0, dt)
    a = mk(I, tuple(L(n) for n in x.shape), f.with_(dt=dt), vop("carr", str(x.shape), repr(x.ravel().tolist())), const_band(x), None, x)
    return a


def npnum(x, f=None):
    """wrap a numpy scalar constant"""
    if isinstance(x, (np.bool_, bool)): v = bool(x)
    elif isinstance(x, (np.integer, int)): v = int(x)
    elif isinstance(x, (np.complexfloating, complex)): v = complex(x)
    else: v = float(x)
    n = Num(c=v); n.np = True
    return n


def from_np(I, x):
    if isinstance(x, tuple): return Tup([from_np(I, y) for y in x])
    if isinstance(x, np.ndarray) and x.ndim: return mkconst(I, x)
    if isinstance(x, np.ndarray): return npnum(x[()])
    return npnum(x)


def cval(v):
    """python/numpy constant of a value or None"""
    if isinstance(v, Num): return v.c
    if isinstance(v, Arr): return v.const
    return None


def facts(v):
    if isinstance(v, (Num, Arr)): return v.f
    return F(None, None, None, v.deps if isinstance(v, Val) else frozenset())


def lit(v):
    """is the value a literal constant"""
    return isinstance(v, Num) and v.c is not None


def size_of(shape):
    n = L(1)
    for d in shape:
        if d is None: return None
        if n.is_const: n = d.scale(n.c)
        elif d.is_const: n = n.scale(d.c)
        else: return None
    return n


def size_sym(I, a):
    """size of an array as a linear form (opaque symbol for products)"""
    if a.shape is None: return None
    n = size_of(a.shape)
    if n is not None: return n
    if any(d is None for d in a.shape): return None
    return prod_sym(I, a.shape)


def prod_sym(I, dims):
    dims = [d for d in dims if d != L(1)]
    k = Fraction(1); rest = []
    for d in dims:
        if d.is_const: k *= d.c
        else: rest.append(d)
    if not rest: return L(k)
    if len(rest) == 1: return rest[0].scale(k)
    name = "*".join(sorted(f"({d})" for d in rest))
    PRODS[name] = rest
    if name not in I.bounds.b: I.bounds.declare(name, 0, None)
    if all((I.bounds.min(d) or 0) >= 1 for d in rest): I.bounds.add(name, lo=1)
    return Sym(name).scale(k)


def first_of(I, vid, n):
    """the first n elements of the vector a value number stands for"""
    m = VLEN.get(vid)
    if n is not None and m is not None and (m == n or I.bounds.eq0(m - n) is True): return vid
    return vop("idx", vid, vop("slice", vdim(L(0)), vdim(n), 1))


def vdim(d): return vlinform(d) if d is not None else -1


def dim_of(I, v):
    """dimension from an index-like value"""
    if isinstance(v, Num): 
        if v.c is not None and isinstance(v.c, float): I.raise_("TypeError", "'float' object cannot be interpreted as an integer")
        if v.f.dt in ("f", "c") and v.c is None: I.raise_("TypeError", "'float' object cannot be interpreted as an integer")
        if v.lin is not None:
            if I.bounds.ge0(v.lin) is False: I.raise_("ValueError", "negative dimensions are not allowed")
        return v.lin
    if isinstance(v, Const): I.raise_("TypeError", "expected an integer dimension")
    return None


def shape_arg(I, v):
    if isinstance(v, (Tup, Lst)):
        s = I.to_seq(v)
        if s.items is None: return None
        return tuple(dim_of(I, x) for x in s.items)
    if isinstance(v, Arr) and v.const is not None: return tuple(L(int(x)) for x in np.ravel(v.const))
    if isinstance(v, (Unk, Arr)): return None
    return (dim_of(I, v),)


# ----------------------------------------------------------------------------- dtypes

_DTYPES = {"float": "f", "float64": "f", "float32": "f", "double": "f", "longdouble": "f", "floating": "f", "float16": "f",
           "int": "i", "int64": "i", "int32": "i", "intp": "i", "integer": "i", "int_": "i", "float_": "f", "uint64": "i", "uint8": "i", "int8": "i", "int16": "i",
           "complex": "c", "complex128": "c", "complex64": "c", "cdouble": "c", "bool": "b", "bool_": "b", "object": "o"}


def dtype_arg(I, v):
    """element type or None; (known, dt)"""
    if v is None or lib.is_none(v): return None
    if isinstance(v, Cls) and v.name in _DTYPES: return _DTYPES[v.name]
    if isinstance(v, Builtin): return _DTYPES.get(v.name.split(".")[-1])
    if isinstance(v, Const) and isinstance(v.v, str): 
        try: return {"b": "b", "i": "i", "u": "i", "f": "f", "c": "c"}.get(np.dtype(v.v).kind)
        except TypeError: I.raise_("TypeError", "data type not understood")
    if isinstance(v, Obj) and v.label and v.label.startswith("dtype:"): return v.label[6:]
    return None


DTYPE_CLS = Cls("dtype", [lib.BUILTIN_CLASSES["object"]], {}, None, None, "numpy.dtype", 0, "import")


def dtype_obj(I, dt):
    o = Obj(DTYPE_CLS, {}, I.epoch)
    o.label = f"dtype:{dt}"
    o._vid = vop("dtype", str(dt))
    o.attrs["kind"] = Const({"b": "b", "i": "i", "f": "f", "c": "c"}.get(dt, "?")) if dt else I.unk("dtype kind")
    o.attrs["type"] = Builtin("numpy." + {"b": "bool_", "i": "int64", "f": "float64", "c": "complex128"}.get(dt, "object"), None)
    o.attrs["itemsize"] = Num(c=8)
    o.attrs["name"] = Const({"b": "bool", "i": "int64", "f": "float64", "c": "complex128"}.get(dt, "object"))
    o.opaque = lambda I, o, n: I.unk("dtype attribute " + n)
    return o


def np_scalar_type(I, v):
    return Builtin("numpy." + {"b": "bool_", "i": "int64", "f": "float64", "c": "complex128"}.get(v.f.dt, "generic"), None)


def isinst(I, v, name):
    leaf = name.split(".")[-1]
    if leaf == "ndarray": return isinstance(v, Arr) if not isinstance(v, Unk) else None
    if isinstance(v, Unk): return None
    if leaf in _DTYPES or leaf in ("number", "generic", "inexact", "signedinteger", "complexfloating"):
        if not isinstance(v, Num): return False
        if not v.np: return (leaf == "float64" and False)
        if v.f.dt is None: return None
        if leaf in ("generic", "number"): return True
        if leaf == "inexact": return v.f.dt in ("f", "c")
        if leaf == "complexfloating": return v.f.dt == "c"
        if leaf == "signedinteger": return v.f.dt == "i"
        return _DTYPES[leaf] == v.f.dt
    return None


# ----------------------------------------------------------------------------- bands

def shift_band(b, d):
    """entries move from offset o to o + d"""
    if b is None: return None
    if d is None: return _unk
    return Band(None if b.lo is None else b.lo + d, None if b.hi is None else b.hi + d, b.tight)


def _lmin(I, a, b):
    if a is None or b is None: return None
    if I.bounds.ge0(b - a) is True: return a
    if I.bounds.ge0(a - b) is True: return b
    x, y = I.bounds.min(a), I.bounds.min(b)
    return L(min(x, y)) if x is not None and y is not None else None


def _lmax(I, a, b):
    if a is None or b is None: return None
    if I.bounds.ge0(a - b) is True: return a
    if I.bounds.ge0(b - a) is True: return b
    x, y = I.bounds.max(a), I.bounds.max(b)
    return L(max(x, y)) if x is not None and y is not None else None


def band_join(I, a, b, tight=None):
    if a is None or b is None: return _unk if (a is not None or b is not None) else None
    if band_empty(a): return b if tight is None else Band(b.lo, b.hi, b.tight and tight)
    if band_empty(b): return a if tight is None else Band(a.lo, a.hi, a.tight and tight)
    lo, hi = _lmin(I, a.lo, b.lo), _lmax(I, a.hi, b.hi)
    t = a.tight and b.tight if tight is None else tight and a.tight and b.tight
    # an undecidable bound loses tightness
    if lo is None and a.lo is not None and b.lo is not None: t = False
    if hi is None and a.hi is not None and b.hi is not None: t = False
    return Band(lo, hi, t)


def band_meet(I, a, b):
    if a is None: a = _unk
    if b is None: b = _unk
    if band_empty(a): return a
    if band_empty(b): return b
    lo = b.lo if a.lo is None else a.lo if b.lo is None else _lmax(I, a.lo, b.lo)
    hi = b.hi if a.hi is None else a.hi if b.hi is None else _lmin(I, a.hi, b.hi)
    t = a.tight and b.tight
    if lo is not None and hi is not None and I.bounds.ge0(lo - hi - 1) is True: return EMPTY
    return Band(lo, hi, t)


def band_of(v):
    if isinstance(v, Arr) and v.shape is not None and len(v.shape) == 2: return v.band if v.band is not None else _unk
    return None


def atoms_of(v):
    return {x for x in vsubterms(v) if VN.rev[x][0] == "atom" or (VN.rev[x][0] == "op" and str(VN.rev[x][1]).startswith("unk"))}


def band_add(I, a, b, sub):
    ba, bb = a.band or _unk, b.band or _unk
    r = band_join(I, ba, bb)
    if r.tight and not band_empty(ba) and not band_empty(bb):
        neg = sub
        if not neg:
            k = VN.rev[b.vid]; k2 = VN.rev[a.vid]
            for q in (k, k2):
                if q[0] == "lin" and any(x < 0 for _, x in q[1]): neg = True
        if neg and atoms_of(a.vid) & atoms_of(b.vid): r = Band(r.lo, r.hi, False)
    return r


# ----------------------------------------------------------------------------- broadcasting

def bdim(I, a, b):
    if a is None or b is None:
        if a is not None and a != L(1): return a
        if b is not None and b != L(1): return b
        return None
    if a == b: return a
    if a == L(1): return b
    if b == L(1): return a
    e = I.bounds.eq0(a - b)
    if e is True: return a
    if e is False:
        ea, eb = I.bounds.eq0(a - 1), I.bounds.eq0(b - 1)
        if ea is False and eb is False: I.raise_("ValueError", f"operands could not be broadcast together with shapes ({a}) ({b})")
    # undecided: a literal symbol is kept
    return a if not a.is_const else b


def bshape(I, *shapes):
    if any(s is None for s in shapes): return None
    n = max(len(s) for s in shapes)
    out = []
    for i in range(n):
        d = L(1)
        for s in shapes:
            j = i - (n - len(s))
            if j >= 0: d = bdim(I, d, s[j])
        out.append(d)
    return tuple(out)


def shp(v):
    if isinstance(v, Arr): return v.shape
    return ()


def full2d(I, a, shape):
    """does the operand fill the 2D shape itself (no broadcast)"""
    return isinstance(a, Arr) and a.shape is not None and len(a.shape) == 2 and all(
        x is not None and y is not None and (x == y or I.bounds.eq0(x - y) is True) for x, y in zip(a.shape, shape))


# ----------------------------------------------------------------------------- elementwise operators

def num_np(a, b): return (isinstance(a, Num) and a.np) or (isinstance(b, Num) and b.np)


_PYOP = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mult": lambda a, b: a * b, "Div": lambda a, b: a / b, "Pow": lambda a, b: a ** b,
         "FloorDiv": lambda a, b: a // b, "Mod": lambda a, b: a % b, "MatMult": lambda a, b: a @ b,
         "BitAnd": lambda a, b: a & b, "BitOr": lambda a, b: a | b, "BitXor": lambda a, b: a ^ b, "LShift": lambda a, b: a << b, "RShift": lambda a, b: a >> b}


def op_facts(I, op, a, b):
    """facts and value number of an elementwise binary operation"""
    fa, fb = a.f, b.f
    deps = fa.deps | fb.deps
    dt = dtjoin(fa.dt, fb.dt)
    site = I.site()
    va, vb = a.vid, b.vid
    if op in ("Add", "Sub"):
        if dt == "b": dt = "i"
        what = "sum" if op == "Add" else "difference"
        u = ujoin(fa.unit, fb.unit, site, what)
        return F(u, aadd(fa.aff, fb.aff, 1 if op == "Add" else -1), dt, deps), vadd(va, vb, 1 if op == "Add" else -1)
    if op == "Mult":
        return F(umul(fa.unit, fb.unit), amul(fa.aff, va, fb.aff, vb), dt, deps), vmul(va, vb)
    if op == "Div":
        if dt in ("b", "i"): dt = "f"
        u = umul(fa.unit, fb.unit, -1)
        if fa.unit is ANY and not isinstance(fb.unit, Mix): u = ANY
        return F(u, adiv(fa.aff, fb.aff, vb, site), dt, deps), vdiv(va, vb)
    if op == "Pow":
        e = cval(b) if isinstance(b, Num) else None
        if fa.unit is ANY or fa.unit == ONE:
            u = fa.unit if e is None or e > 0 else (ONE if fa.unit == ONE else ANY)
            if isinstance(fb.unit, Mix): u = fb.unit
            elif fb.unit not in (ONE, ANY) and fb.unit is not None and fa.unit == ONE: u = Mix(site, f"exponent with dimension [{ushow(fb.unit)}]")
        elif isinstance(e, (int, float)) and not isinstance(e, complex): u = upow(fa.unit, e) if e != 0 else ONE
        else: u = fa.unit if isinstance(fa.unit, Mix) else None
        aff = fa.aff if e == 1 else afun(fa.aff, site, "power")
        if aff == V0 or aff is ANEU:
            aff = afun(fb.aff, site, "exponentiation")
        if dt in ("b", "i"): dt = "f" if isinstance(e, float) or (isinstance(e, int) and e < 0 and not (isinstance(a, Arr) or a.np)) else "i"
        if isinstance(e, int) and not isinstance(e, bool) and 0 < abs(e) <= 6:
            v = V1
            for _ in range(abs(e)): v = vmul(v, va) if e > 0 else vdiv(v, va)
        else: v = vop("pow", va, vb)
        return F(u, aff, dt, deps), v
    if op == "Mod":
        return F(ujoin(fa.unit, fb.unit, site, "remainder"), afun(aadd(fa.aff, fb.aff), site, "remainder"), dt, deps), vop("mod", va, vb)
    if op == "FloorDiv":
        u = umul(fa.unit, fb.unit, -1)
        aff = afun(fa.aff, site, "floor division")
        return F(u, aff, dt, deps), vop("floordiv", va, vb)
    if op in ("BitAnd", "BitOr", "BitXor", "LShift", "RShift"):
        u = fa.unit if isinstance(fa.unit, Mix) else fb.unit if isinstance(fb.unit, Mix) else ONE
        s = (va, vb) if op in ("LShift", "RShift") else tuple(sorted((va, vb)))
        aff = fa.aff if isinstance(fa.aff, Mix) else fb.aff if isinstance(fb.aff, Mix) else V0
        return F(u, aff, dt, deps), vop(op, *s)
    return F(None, None, None, deps), vop(op, va, vb)


def raising(I, what):
    """fork on a floating point error when the error state asks for an exception"""
    for es in reversed(I.errstate):
        mode = es.get(what) or es.get("all")
        if mode == "raise":
            # at most one floating point error per guarded block (the handler is not assumed to fail again)
            if es.get("_raised"): return
            if I.choose(("fpe", I.site()), [0, 1], "FloatingPointError"):
                es["_raised"] = True
                I.raise_("FloatingPointError", what)
            return
        if mode is not None: return


def binop(I, op, a, b):
    for x in (a, b):
        if isinstance(x, Arr): I.refresh(x)
    if op == "MatMult": return matmul(I, a, b)
    if isinstance(a, Num) and isinstance(b, Num): return num_binop(I, op, a, b)
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None and op in _PYOP and not I.errstate:
        try:
            with np.errstate(all="ignore"): r = _PYOP[op](ca, cb)
            r = from_np(I, r)
            if isinstance(r, (Arr, Num)): r.f = r.f.with_(deps=a.deps | b.deps)
            return r
        except ValueError as e: I.raise_("ValueError", str(e))
        except TypeError as e: I.raise_("TypeError", str(e))
    if op in ("Div", "Pow", "Mult"): raising(I, "over")
    shape = bshape(I, shp(a), shp(b))
    f, vid = op_facts(I, op, a, b)
    # the value number of an array is not the one of a scalar
    if op == "Pow" and isinstance(b, Num) and lit(b) and f.dt == "i" and isinstance(b.c, int) and b.c < 0: f = f.with_(dt="f")
    for x in (a, b):
        if isinstance(x, (Num, Arr)) and vid == x.vid and shp(x) != shape: vid = vop("bc", vid, *[vdim(d) for d in (shape or ())])
    if visconst(vid) is not None and not (isinstance(a, Num) and isinstance(b, Num)): vid = vop("bc", vid, *[vdim(d) for d in (shape or ())])
    band = None
    if shape is not None and len(shape) == 2:
        A2, B2 = full2d(I, a, shape), full2d(I, b, shape)
        if op in ("Add", "Sub"):
            if A2 and B2: band = band_add(I, a, b, op == "Sub")
            elif A2 and isinstance(b, Num) and b.c == 0: band = a.band
            elif B2 and isinstance(a, Num) and a.c == 0: band = b.band
            else: band = FULL if not (band_of(a) or band_of(b) or _unk) is _unk else Band(None, None, bool(A2 or B2))
        elif op == "Mult":
            if A2 and B2: band = band_meet(I, a.band, b.band)
            elif A2: band = a.band
            elif B2: band = b.band
            else: band = Band(None, None, True)
            if isinstance(a, Num) and a.c == 0 or isinstance(b, Num) and b.c == 0: band = EMPTY
        elif op in ("Div", "FloorDiv", "Mod"):
            band = a.band if A2 else FULL
        elif op == "Pow": band = a.band if A2 and isinstance(b, Num) and isinstance(b.c, (int, float)) and b.c > 0 else _unk
        elif op == "BitAnd": band = band_meet(I, a.band, b.band) if A2 and B2 else _unk
        else: band = _unk
    segs = None
    if shape is not None and len(shape) == 1: segs = zip_segs(I, a, b, lambda x, y: num_binop(I, op, x, y), shape[0])
    return mk(I, shape, f, vid, band, segs)


def seg_f(segs, site=None):
    """facts of an array from its segments"""
    f = None
    for s in segs:
        if not isinstance(s.val, (Num, Arr)): return None
        if s.n is not None and s.n.is_const and s.n.c == 0: continue
        f = s.val.f if f is None else fjoin(f, s.val.f, site, "elements of one array")
    return f


def segs_of(I, a):
    """segments of a 1-D array (possibly one generic segment)"""
    I.refresh(a)
    if a.segs is not None: return list(a.segs)
    if a.shape is None or len(a.shape) != 1 or a.shape[0] is None: return None
    if a.const is not None and len(a.const) <= 64: return [Seg(L(1), npnum(x)) for x in a.const]
    if a.shape[0].is_const and a.shape[0].c <= 8: return [Seg(L(1), el(a, L(i))) for i in range(int(a.shape[0].c))]
    name = f"e@{a.shape[0]}"
    if name not in I.bounds.b: I.bounds.declare(name, 0, a.shape[0] - 1)
    return [Seg(a.shape[0], el(a, Sym(name)), name)]


def el(a, idx):
    return Num(f=a.f, vid=vop("el", a.vid, vlinform(idx)), np=True)


def zip_segs(I, a, b, fn, n):
    """elementwise operation on segmented 1-D arrays (None when nothing is segmented)"""
    sa = isinstance(a, Arr) and a.segs is not None; sb = isinstance(b, Arr) and b.segs is not None
    if not (sa or sb): return None
    def ok(x): return isinstance(x, Num) or (isinstance(x, Arr) and x.shape is not None and len(x.shape) == 1 and x.shape[0] is not None)
    if not ok(a) or not ok(b): return None
    A = segs_of(I, a) if isinstance(a, Arr) else None
    B = segs_of(I, b) if isinstance(b, Arr) else None
    if A is not None and isinstance(a, Arr) and a.shape[0] == L(1) and n != L(1): return None
    if B is not None and isinstance(b, Arr) and b.shape[0] == L(1) and n != L(1): return None
    out = []
    if A is None or B is None:
        for s in (A if A is not None else B):
            if not isinstance(s.val, Num): return None
            out.append(Seg(s.n, fn(s.val, b) if A is not None else fn(a, s.val), s.sym))
        return out
    guard = 0
    while A and B:
        guard += 1
        if guard > 64: return None
        x, y = A[0], B[0]
        if x.n is None or y.n is None or not isinstance(x.val, Num) or not isinstance(y.val, Num): return None
        if I.bounds.eq0(x.n - y.n) is True: m = x.n
        elif I.bounds.ge0(x.n - y.n) is True: m = y.n
        elif I.bounds.ge0(y.n - x.n) is True: m = x.n
        else: return None
        r = lib.split_segs(I, A, m); q = lib.split_segs(I, B, m)
        if r is None or q is None or len(r[0]) != 1 or len(q[0]) != 1: return None
        s, t = r[0][0], q[0][0]
        sym = s.sym or t.sym
        tv = t.val
        if s.sym and t.sym and s.sym != t.sym: tv = lib.subst(I, t.val, t.sym, Sym(s.sym))
        out.append(Seg(m, fn(s.val, tv), sym))
        A, B = r[1], q[1]
    return out if not A and not B else None


def map_segs(a, fn):
    if a.segs is None: return None
    out = []
    for s in a.segs:
        if not isinstance(s.val, Num): return None
        out.append(Seg(s.n, fn(s.val), s.sym))
    return out


def num_binop(I, op, a, b):
    isnp = a.np or b.np
    if a.c is not None and b.c is not None and op in _PYOP:
        try:
            if isnp:
                with np.errstate(all="ignore"):
                    r = _PYOP[op](np.asarray(a.c)[()], np.asarray(b.c)[()])
                return Num(c=npnum(r).c, f=npnum(r).f.with_(deps=a.deps | b.deps), np=True)
            r = _PYOP[op](a.c, b.c)
            if isinstance(r, (bool, int, float, complex)):
                n = Num(c=r)
                if a.deps or b.deps: n.f = n.f.with_(deps=a.deps | b.deps)
                return n
        except ZeroDivisionError: I.raise_("ZeroDivisionError", "division by zero")
        except (OverflowError, TypeError, ValueError) as e: I.raise_(type(e).__name__, str(e))
    if op == "MatMult": I.raise_("TypeError", "unsupported operand type(s) for @")
    f, vid = op_facts(I, op, a, b)
    if not isnp and op == "Pow" and f.dt == "i" and not (isinstance(b.c, int) and b.c >= 0): f = f.with_(dt="f")
    lin = None
    if a.lin is not None and b.lin is not None:
        if op == "Add": lin = a.lin + b.lin
        elif op == "Sub": lin = a.lin - b.lin
        elif op == "Mult":
            if a.lin.is_const: lin = b.lin.scale(a.lin.c)
            elif b.lin.is_const: lin = a.lin.scale(b.lin.c)
            elif f.dt == "i": lin = prod_sym(I, [a.lin, b.lin])
        elif op == "FloorDiv" and b.lin.is_const and b.lin.c > 0 and b.lin.c.denominator == 1 and f.dt == "i": lin = lib.floordiv(I, a.lin, int(b.lin.c))
        elif op == "Mod" and b.lin.is_const and b.lin.c > 0 and b.lin.c.denominator == 1 and f.dt == "i": lin = lib.mod(I, a.lin, int(b.lin.c))
        elif op == "Div" and b.lin.is_const and b.lin.c != 0: lin = a.lin.scale(Fraction(1) / b.lin.c)
    if a.c == 0 and op in ("Mult",) and not f.dt == "i":
        pass
    if lin is not None:
        n = Num(lin=lin, f=f, vid=vlinform(lin), np=isnp)
        if n.c is not None and f.dt == "f": n.c = float(n.c)
        return n
    if op in ("Add", "Sub", "Mult", "Div"):
        k = visconst(vid)
        if k is not None and f.dt in ("f",) and not isinstance(f.unit, Mix):
            n = Num(c=float(k), f=f, vid=vid, np=isnp)
            return n
    if op == "Div" and not isnp and b.c is None and b.lin is not None and I.bounds.eq0(b.lin) is True: I.raise_("ZeroDivisionError", "division by zero")
    return Num(f=f, vid=vid, np=isnp)


def unknown_op(I, op, a, b):
    deps = a.deps | b.deps
    if isinstance(a, (Unk, SymStr)) or isinstance(b, (Unk, SymStr)):
        o = next((x for x in (a, b) if isinstance(x, Arr)), None)
        I.unknown["operator on unknown"] = I.unknown.get("operator on unknown", 0) + 1
        return Unk("operator", deps, vop("unkop", op, a.vid if a.vid is not None else -1, b.vid if b.vid is not None else -1))
    I.raise_("TypeError", f"unsupported operand types for {op}")


def unary(I, op, v):
    if isinstance(v, Num):
        if op == "USub":
            if v.c is not None: return Num(c=-v.c, f=v.f, np=v.np)
            return Num(lin=-v.lin if v.lin is not None else None, f=v.f.with_(aff=aadd(V0, v.f.aff, -1)), vid=vscale(v.vid, -1), np=v.np)
        if op == "UAdd": return v
        if op == "Invert":
            if v.f.dt == "b" and v.np and v.c is None: return Num(f=v.f, vid=vop("not", v.vid), cond=("not", v.cond) if v.cond else None, np=True)
            if isinstance(v.c, bool) and v.np: return npnum(not v.c)
            if isinstance(v.c, int): return Num(c=~v.c)
            return Num(f=v.f, vid=vop("inv", v.vid), np=v.np)
    if isinstance(v, Arr):
        I.refresh(v)
        if v.const is not None: return from_np(I, -v.const if op == "USub" else ~v.const if op == "Invert" else +v.const)
        if op == "USub": return mk(I, v.shape, v.f.with_(aff=aadd(V0, v.f.aff, -1)), vscale(v.vid, -1), v.band, map_segs(v, lambda x: unary(I, "USub", x)))
        if op == "Invert": return mk(I, v.shape, v.f, vop("not", v.vid), _unk if v.ndim == 2 else None)
        return copy_arr(I, v)
    if isinstance(v, Obj):
        f, _ = v.cls.lookup({"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[op])
        if f is not None: return I.call(Bound(f, v), [], {})
    if isinstance(v, (Lst, Tup, Const, Dct)): I.raise_("TypeError", "bad operand type for unary operator")
    return I.unk("unary", v)


_CMP = {"Eq": lambda a, b: a == b, "NotEq": lambda a, b: a != b, "Lt": lambda a, b: a < b, "LtE": lambda a, b: a <= b, "Gt": lambda a, b: a > b, "GtE": lambda a, b: a >= b}


def cmp_facts(I, op, a, b):
    deps = a.deps | b.deps
    u = ujoin(a.f.unit, b.f.unit, I.site(), "comparison")
    inf = any(isinstance(cval(x), float) and not math.isfinite(cval(x)) for x in (a, b) if isinstance(x, Num))
    if isinstance(u, Mix) and inf: u = ONE
    u = u if isinstance(u, Mix) else ONE
    aff = V0
    w = None if inf else aadd(a.f.aff, b.f.aff, -1)
    if isinstance(w, Mix): aff = w
    elif w is not None and w != V0 and visconst(w) is not None: aff = Mix(I.site(), "comparison of a time point with a value that does not move with the time origin")
    elif w is None: aff = None
    return F(u, aff, "b", deps)


def compare(I, op, a, b):
    for x in (a, b):
        if isinstance(x, Arr): I.refresh(x)
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None:
        try: r = _CMP[op](ca, cb)
        except TypeError as e: I.raise_("TypeError", str(e))
        if isinstance(r, np.ndarray) and r.ndim: return mkconst(I, r)
        return Num(c=bool(r), np=num_np(a, b) or isinstance(a, Arr) or isinstance(b, Arr), f=fconst(bool(r)).with_(deps=a.deps | b.deps))
    if isinstance(a, Num) and isinstance(b, Num):
        d = None
        if a.lin is not None and b.lin is not None: d = a.lin - b.lin
        isnp = a.np or b.np
        if d is not None:
            integral = a.f.dt in ("i", "b") and b.f.dt in ("i", "b")
            r = cond = None
            g = I.bounds
            if op == "Eq": r = g.eq0(d); cond = ("eq0", d)
            elif op == "NotEq":
                r = g.eq0(d); r = None if r is None else not r; cond = ("not", ("eq0", d))
            elif op == "GtE": r = g.ge0(d); cond = ("ge0", d)
            elif op == "LtE": r = g.ge0(-d); cond = ("ge0", -d)
            elif op == "Gt": r = g.ge0(d - 1); cond = ("ge0", d - 1)
            elif op == "Lt": r = g.ge0(-d - 1); cond = ("ge0", -d - 1)
            if all(x.denominator == 1 for _, x in d.t) and d.c.denominator == 1 or integral:
                f = F(ONE, V0, "b", a.deps | b.deps)
                if r is not None: return Num(c=r, f=F(ANY, V0, "b", a.deps | b.deps), np=isnp)
                return Num(f=f, vid=vop("ge0", vlinform(cond[1])) if cond[0] == "ge0" else vop("eq0", vlinform(norm_sign(d))) if cond[0] == "eq0" else vop("not", vop("eq0", vlinform(norm_sign(d)))), cond=cond, np=isnp)
        if a.vid == b.vid and op in ("Eq", "GtE", "LtE", "NotEq", "Lt", "Gt") :
            t = op in ("Eq", "GtE", "LtE")
            return Num(c=t, np=isnp, f=fconst(t).with_(deps=a.deps | b.deps))
        f = cmp_facts(I, op, a, b)
        if op in ("Eq", "NotEq"):
            v = vop("eq", *sorted((a.vid, b.vid)))
            cond = ("eqv", a, b)
            if op == "Eq": return Num(f=f, vid=v, cond=cond, np=isnp)
            return Num(f=f, vid=vop("not", v), cond=("not", cond), np=isnp)
        if op in ("Lt", "GtE"): v, neg = vop("lt", a.vid, b.vid), op == "GtE"
        else: v, neg = vop("lt", b.vid, a.vid), op == "LtE"
        return Num(f=f, vid=vop("not", v) if neg else v, cond=("not", ("cmp",)) if neg else ("cmp",), np=isnp)
    shape = bshape(I, shp(a), shp(b)) if not (op in ("Eq", "NotEq")) else try_bshape(I, shp(a), shp(b))
    f = cmp_facts(I, op, a, b)
    return mk(I, shape, f, vop("cmp" + op, a.vid, b.vid), _unk if shape is not None and len(shape) == 2 else None)


def try_bshape(I, a, b):
    try: return bshape(I, a, b)
    except AbsRaise: return ()


def norm_sign(d):
    if d.t and d.t[0][1] < 0: return -d
    return d


# ----------------------------------------------------------------------------- in-place

def inplace(I, op, arr, rhs):
    if isinstance(rhs, (Lst, Tup)): rhs = asarray(I, rhs)
    if not isinstance(rhs, (Num, Arr)):
        d = arr.f.deps | rhs.deps
        I.arr_write(arr, op, data=rhs)
        put(I, arr, F(None, None, arr.f.dt, d), vop("unk", arr.vid, rhs.vid if rhs.vid is not None else -1), _unk if arr.ndim == 2 else None, None, None)
        return arr
    I.refresh(arr)
    r = binop(I, op, arr, rhs)
    if not isinstance(r, Arr): return r
    check_store(I, arr, r.f, "in-place " + op, rhs)
    if arr.f.dt == "i" and op == "Div":
        I.raise_("TypeError", "Cannot cast ufunc 'divide' output from dtype('float64') to dtype('int64')")
    if arr.f.dt in ("i", "b") and r.f.dt in ("f", "c"):
        I.raise_("TypeError", "Cannot cast ufunc output to an integer array")
    if arr.f.dt == "f" and r.f.dt == "c": I.raise_("TypeError", "Cannot cast ufunc output from complex to float")
    same = arr.shape is None or r.shape is None or len(arr.shape) == len(r.shape)
    if not same: I.raise_("ValueError", "non-broadcastable output operand")
    overwrite(I, arr, "in-place " + op, r, rhs)
    return arr


def check_store(I, arr, f, what, v=None):
    if arr.f.dt in ("i", "b") and f.dt in ("f", "c"): I.event("trunc", what=what, arr=arr, value=v)


def overwrite(I, arr, what, r, data=None):
    """all elements of arr become those of r"""
    f = r.f.with_(dt=arr.f.dt) if arr.f.dt is not None else r.f
    segs = r.segs
    band = r.band
    if arr.shape is not None and len(arr.shape) == 2 and band is None: band = _unk
    const = r.const
    if const is not None and arr.f.dt in DTN: const = const.astype(DTN[arr.f.dt])
    if r.shape != arr.shape and arr.shape is not None:
        segs = None if r.shape is None or len(r.shape) != len(arr.shape) else segs
        const = None
    put(I, arr, f, r.vid, band, segs, const, what, data)


def put(I, arr, f, vid, band, segs, const, what="write", data=None):
    I.arr_write(arr, what, data=data, f=f, vid=vid, band=band, segs=segs, const=const)
    if arr.view is not None:
        base, fn, wfn = arr.view
        wfn(I, base, arr)
        arr.basever = base.ver


# ----------------------------------------------------------------------------- conversions

def asarray(I, v, dt=None, copy=False, what="asarray"):
    if isinstance(v, Arr):
        I.refresh(v)
        if not copy and (dt is None or dt == v.f.dt or v.f.dt is None): return v
        return astype(I, v, dt)
    if isinstance(v, Num):
        if v.c is not None: 
            a = mk(I, (), v.f.with_(dt=dt or v.f.dt), v.vid, None, None, np.asarray(v.c, dtype=DTN.get(dt)))
        else: a = mk(I, (), v.f.with_(dt=dt or v.f.dt), v.vid)
        return a
    if isinstance(v, (Lst, Tup)) or (isinstance(v, AbsSeq) and (v.rng is not None)):
        return from_list(I, v, dt)
    if isinstance(v, (Unk, SymStr)): return mk(I, None, F(None, None, dt, v.deps), vop("asarray", v.vid))
    if isinstance(v, Const): 
        if isinstance(v.v, str) and dt in ("f", "i", "c"): I.raise_("ValueError", "could not convert string to float")
        return mk(I, (), F(None, None, "o"), v.vid)
    if isinstance(v, (AbsSeq, Dct, SetV, Obj)):
        if isinstance(v, Obj) and v.opaque is not None: return mk(I, None, F(None, None, dt, v.deps), vop("asarray", v.vid))
        if dt in ("f", "i", "c"): I.raise_("TypeError", "float() argument must be a string or a real number")
        return mk(I, (), F(None, None, "o", v.deps), vop("asarray", v.vid if v.vid is not None else -1))
    return mk(I, None, F(None, None, dt), None)


def f01(f):
    """facts of a truth value used as a number: 0 and 1 are special values of any quantity, like literals"""
    return f.with_(unit=ANY) if f.dt == "b" and f.unit == ONE else f


def astype(I, v, dt):
    f = v.f
    if dt is not None and dt != f.dt:
        if dt in ("i", "b") and f.dt in ("f", "c", None):
            if v.const is None or not np.array_equal(v.const, np.asarray(v.const).astype(int)): I.event("trunc", what="conversion to an integer type", arr=v, value=v)
        f = f01(f).with_(dt=dt)
    const = v.const
    if const is not None: const = const.astype(DTN[dt]) if dt in DTN else const.copy()
    segs = v.segs
    if segs is not None and dt is not None and dt != v.f.dt: segs = [Seg(s.n, cast(s.val, dt), s.sym) for s in segs]
    a = mk(I, v.shape, f, castvid(v.vid, v.f.dt, dt), v.band, segs, const)
    a.tags = v.tags
    return a


def castvid(vid, old, dt):
    """value of a term after conversion to a type"""
    if vid is None or dt == old: return vid
    if dt == "i" and old in ("f", "c", None): return vop("int", vid) if VN.rev[vid][:2] != ("op", "int") else vid
    if dt == "b": return vop("nz", vid)
    if dt in ("f", "i") and old == "c": return vop("real", vid)
    return vid


def cast(x, dt):
    if isinstance(x, Num):
        if x.c is not None: 
            c = DTN[dt](x.c) if not (isinstance(x.c, complex) and dt != "c") else x.c
            return Num(c=c, f=x.f.with_(dt=dt), np=True, vid=x.vid if c == x.c or c != c else None)
        vid = castvid(x.vid, x.f.dt, dt)
        return Num(lin=x.lin if vid == x.vid else None, f=x.f.with_(dt=dt), vid=vid, cond=x.cond if vid == x.vid or dt == "b" else None, np=True)
    return x


def copy_arr(I, a):
    I.refresh(a)
    n = mk(I, a.shape, a.f, a.vid, a.band, a.segs, None if a.const is None else a.const.copy())
    n.tags = a.tags
    return n


def from_list(I, v, dt=None):
    segs = lib.as_segs(I, v)
    # ragged / nested
    vals = []
    for s in segs:
        x = s.val
        if isinstance(x, (Lst, Tup)) or (isinstance(x, AbsSeq) and x.rng is not None): x = from_list(I, x, dt)
        elif isinstance(x, Arr): I.refresh(x)
        elif isinstance(x, Const):
            if x.v is None: return mk(I, None, F(None, None, dt or "o", v.deps), vop("array", v.vid))
            if dt in ("f", "i", "c"): I.raise_("ValueError", "could not convert string to float")
            return mk(I, None, F(None, None, "o", v.deps), vop("array", v.vid))
        elif not isinstance(x, Num):
            return mk(I, None, F(None, None, dt, v.deps), vop("array", v.vid))
        vals.append(Seg(s.n, x, s.sym))
    n = L(0)
    for s in vals: n = None if (n is None or s.n is None) else n + s.n
    if not vals: return mk(I, (L(0),), F(ANY, ANEU, dt or "f"), vop("array0"), None, [])
    # constant folding
    if all(s.n is not None and s.n.is_const and s.n.c <= 64 and cval(s.val) is not None for s in vals):
        rows = []
        for s in vals: rows += [cval(s.val)] * int(s.n.c)
        try: x = np.array(rows, dtype=DTN.get(dt))
        except ValueError as e: I.raise_("ValueError", str(e))
        if x.dtype.kind in "bifc": return mkconst(I, x)
    sub = None; f = None; site = I.site()
    for s in vals:
        sh = shp(s.val)
        if sh is None: sub = "?"; 
        elif sub is None: sub = sh
        elif sub != "?":
            if len(sub) != len(sh): I.raise_("ValueError", "setting an array element with a sequence. The requested array has an inhomogeneous shape")
            for p, q in zip(sub, sh):
                if p is not None and q is not None and I.bounds.eq0(p - q) is False: I.raise_("ValueError", "inhomogeneous shape")
            sub = tuple(p if p is not None else q for p, q in zip(sub, sh))
        f = s.val.f if f is None else fjoin(f, s.val.f, site, "elements of one array")
    if dt is not None:
        if dt in ("i", "b") and f.dt in ("f", "c"): I.event("trunc", what="conversion to an integer array", arr=None, value=v)
        f = f.with_(dt=dt)
    if sub == "?" or sub is None: return mk(I, None, f, vop("array", v.vid))
    nsegs = [Seg(s.n, cast(s.val, dt) if dt else s.val, s.sym) for s in vals]
    vid = vop("array", *[y for s in vals for y in (vdim(s.n), s.val.vid)])
    if len(vals) == 1 and vals[0].sym is not None and isinstance(vals[0].val, Num):
        # [x[i] for i in range(n)] is x
        k = VN.rev[vals[0].val.vid]
        if k[0] == "op" and k[1] == "el" and k[3] == vlinform(Sym(vals[0].sym)): vid = first_of(I, k[2], vals[0].n)
    band = None
    if len(sub) == 1: band = _unk
    whole = getattr(v, "arr_vid", None)
    if whole is not None and len(v.segs) == 1 and v.segs[0] is whole[1]:      # the list holds the elements of one unknown array
        return mk(I, (n,) + sub, f, whole[0], FULL if len(sub) == 1 else None, None)
    a = mk(I, (n,) + sub, f, vid, band, nsegs)
    return a


# ----------------------------------------------------------------------------- indexing

class Ix:
    """one parsed index item: kind in int / slice / new / adv / mask"""
    __slots__ = ("kind", "v", "lo", "hi", "st", "n", "ax", "vid", "full")
    def __init__(self, kind, v=None, ax=None):
        self.kind, self.v, self.ax = kind, v, ax
        self.lo = self.hi = self.st = self.n = None
        self.vid = None; self.full = False


def parse_index(I, o, k):
    items = list(k.items) if isinstance(k, Tup) else [k]
    nd = 0
    out = []
    for x in items:
        if isinstance(x, Const) and x.v is Ellipsis: out.append(Ix("ell"))
        elif isinstance(x, Const) and x.v is None: out.append(Ix("new"))
        elif isinstance(x, SliceV): out.append(Ix("slice", x)); nd += 1
        elif isinstance(x, Num):
            if x.f.dt in ("f", "c"): I.raise_("IndexError", "only integers, slices, ellipsis, numpy.newaxis and integer or boolean arrays are valid indices")
            if x.f.dt == "b" and not (x.np or True): return None
            out.append(Ix("int", x)); nd += 1
        elif isinstance(x, (Arr, Lst)) or (isinstance(x, AbsSeq)):
            if not isinstance(x, Arr): x = asarray(I, x)
            I.refresh(x)
            if x.f.dt == "f" and not (x.shape is not None and len(x.shape) == 1 and x.shape[0] == L(0)): I.raise_("IndexError", "arrays used as indices must be of integer (or boolean) type")
            if x.f.dt == "b":
                out.append(Ix("mask", x)); nd += x.ndim if x.ndim is not None else 1
            elif x.shape == (): out.append(Ix("int", Num(f=x.f, vid=x.vid, c=int(x.const) if x.const is not None else None))); nd += 1
            else: out.append(Ix("adv", x)); nd += 1
        elif isinstance(x, Const): I.raise_("IndexError", "only integers, slices, ellipsis, numpy.newaxis and integer or boolean arrays are valid indices")
        else: return None
    if o.shape is None: return None
    rank = len(o.shape)
    if nd > rank: I.raise_("IndexError", f"too many indices for array: array is {rank}-dimensional, but {nd} were indexed")
    fill = rank - nd
    res = []; seen = False
    for x in out:
        if x.kind == "ell":
            if not seen:
                for _ in range(fill): res.append(Ix("slice", SliceV(NONE, NONE, NONE)))
            seen = True
        else: res.append(x)
    if not seen:
        for _ in range(fill): res.append(Ix("slice", SliceV(NONE, NONE, NONE)))
    ax = 0
    for x in res:
        if x.kind == "new": x.vid = vconst("new"); continue
        x.ax = ax
        n = o.shape[ax]
        if x.kind == "slice":
            ax += 1
            x.full = lib.is_none(x.v.lo) and lib.is_none(x.v.hi) and lib.is_none(x.v.st)
            if x.full:
                x.lo, x.hi, x.st, x.n = L(0), n, 1, n
                x.vid = vconst(":")
                continue
            b = lib.slice_bounds(I, x.v, n)
            if b is None:
                x.vid = vop("slice", *[y.vid for y in (x.v.lo, x.v.hi, x.v.st)])
                continue
            x.lo, x.hi, x.st = b
            if x.st > 0: ln = x.hi - x.lo
            else: ln = x.lo - x.hi
            if I.bounds.ge0(ln) is False or I.bounds.eq0(ln) is True: ln = L(0)
            elif abs(x.st) > 1: ln = lib.floordiv(I, ln + (abs(x.st) - 1), abs(x.st))
            x.n = ln
            if n is not None and x.lo == L(0) and x.hi == n and x.st == 1: x.full = True; x.vid = vconst(":")
            else: x.vid = vop("slice", vdim(x.lo), vdim(x.hi), x.st)
        elif x.kind == "int":
            ax += 1
            i = lib.norm_index(I, x.v, n)
            if i is None and x.v.lin is not None and n is not None:
                # sign of the index undecided: assume non-negative
                i = x.v.lin
            x.lo = i
            x.vid = vlinform(i) if i is not None else x.v.vid
            if i is not None and n is not None:
                if I.bounds.ge0(n - i - 1) is False or (x.v.c is not None and x.v.c < 0 and I.bounds.ge0(i) is False):
                    I.raise_("IndexError", f"index {x.v.c if x.v.c is not None else i} is out of bounds for axis {x.ax} with size {n}")
        elif x.kind == "adv":
            ax += 1; x.vid = x.v.vid
        else:
            ax += x.v.ndim if x.v.ndim is not None else 1; x.vid = x.v.vid
    return res


def basic_view(I, o, ix):
    """facts of a basic-indexing view"""
    dims = []
    for x in ix:
        if x.kind == "new": dims.append(L(1))
        elif x.kind == "slice": dims.append(x.n)
    toks = [x.vid for x in ix]
    while toks and toks[-1] == vconst(":"): toks.pop()
    vid = vop("idx", o.vid, *toks) if toks else o.vid
    const = None
    if o.const is not None:
        try:
            key = []
            for x in ix:
                if x.kind == "new": key.append(None)
                elif x.kind == "int":
                    if x.lo is None or not x.lo.is_const: raise LookupError
                    key.append(int(x.lo.c))
                else:
                    sl = lib.const_slice(x.v)
                    if sl is None: raise LookupError
                    key.append(sl)
            const = o.const[tuple(key)]
        except LookupError: pass
        except IndexError as e: I.raise_("IndexError", str(e))
    if const is not None and const.ndim:
        c = mkconst(I, const)
        f = o.f
        return Arr(tuple(L(n) for n in const.shape), c.f.with_(dt=o.f.dt, deps=o.f.deps), c.vid, c.band, const)
    band = None
    nn = [x for x in ix if x.kind != "new"]
    if len(dims) == 2:
        band = _unk
        if len(o.shape) == 2 and len(nn) == 2 and all(x.kind == "slice" for x in ix):
            r, c = nn
            if r.st == 1 and c.st == 1 and r.lo is not None and c.lo is not None:
                band = shift_band(o.band or _unk, c.lo - r.lo)
        elif any(x.kind == "new" for x in ix): band = FULL
        elif len(o.shape) == 3 and o.segs is not None: band = None
    f = o.f; segs = None
    first = nn[0] if nn else None
    if o.segs is not None and nn and ix[0].kind != "new":
        rest = ix[1:]
        s0 = None
        if first.kind == "slice" and first.lo is not None and first.n is not None:
            s0 = sub_segs(I, o.segs, first)
        if s0 is not None:
            restfull = all(x.kind == "slice" and x.full for x in rest)
            if restfull: segs = s0
            elif len(rest) >= 1 and all(isinstance(s.val, Arr) for s in s0):
                segs = []
                for s in s0:
                    sub = index_val(I, s.val, rest)
                    if sub is None: segs = None; break
                    segs.append(Seg(s.n, sub, s.sym))
            else: segs = None
            if segs is not None:
                g = seg_f(segs)
                if g is not None: f = g.with_(dt=o.f.dt)
                if dims and len(dims) == 2 and segs and len(o.shape) == 3: band = None
                if len(segs) == 1 and segs[0].sym is not None and isinstance(segs[0].val, Num) and len(dims) == 1:
                    k = VN.rev[segs[0].val.vid]
                    if k[0] == "op" and k[1] == "el" and k[3] == vlinform(Sym(segs[0].sym)): vid = first_of(I, k[2], segs[0].n)
    elif nn and o.segs is not None and ix[0].kind == "new" and len(ix) == 2 and nn[0].kind == "slice" and nn[0].full:
        pass
    a = Arr(tuple(dims), f, vid, band, const, segs)
    if len(dims) == 2 and band is None: a.band = _unk
    if all(x.kind == "slice" and x.full for x in ix): a.tags = o.tags; a.band = o.band
    return a


def index_val(I, v, ix):
    """index a sub-array value (Num or facts-only array)"""
    if not isinstance(v, Arr) or v.shape is None: return None
    if all(x.kind == "int" for x in ix) and len(ix) == len(v.shape):
        return elem(I, v, [x.lo for x in ix], ix)
    if all(x.kind in ("int", "slice", "new") for x in ix): return basic_view(I, v, ix)
    return None


def sub_segs(I, segs, x):
    if x.st == 1:
        r = lib.split_segs(I, segs, x.lo)
        if r is None: return None
        if x.n == L(0): return []
        r2 = lib.split_segs(I, r[1], x.n)
        return None if r2 is None else r2[0]
    if x.st == -1 and x.full is False and all(s.n is not None for s in segs):
        tot = L(0)
        for s in segs: tot = tot + s.n
        if x.lo == tot - 1:
            rev = [Seg(s.n, s.val if s.sym is None else lib.subst(I, s.val, s.sym, s.n - 1 - Sym(s.sym)), s.sym) for s in reversed(segs)]
            r = lib.split_segs(I, rev, x.n)
            return None if r is None else r[0]
    return None


def elem(I, o, idx, ix=None):
    """one element (Num) of an array at known Lin indices (or None)"""
    if o.const is not None and all(i is not None and i.is_const for i in idx):
        try: n = npnum(o.const[tuple(int(i.c) for i in idx)])
        except IndexError as e: I.raise_("IndexError", str(e))
        if o.f.deps: n.f = n.f.with_(deps=o.f.deps)
        return n
    if o.segs is not None and idx and idx[0] is not None:
        v = lib.seg_at(I, o.segs, idx[0])
        if v is False: I.raise_("IndexError", "index out of bounds")
        if isinstance(v, Num) and len(idx) == 1:
            if not v.np: v = Num(v.c, v.lin, v.f, v.vid, v.cond, True)
            return v
        if isinstance(v, Arr) and len(idx) > 1: return elem(I, v, idx[1:])
    vids = [vlinform(i) if i is not None else (x.vid if ix is not None else -1) for i, x in zip(idx, ix or [None] * len(idx))]
    f = o.f
    # known zeros of a banded matrix
    if len(idx) == 2 and o.band is not None and all(i is not None for i in idx):
        d = idx[0] - idx[1]
        if band_empty(o.band) or (o.band.lo is not None and I.bounds.ge0(o.band.lo - d - 1) is True) or (o.band.hi is not None and I.bounds.ge0(d - o.band.hi - 1) is True):
            return Num(c=0.0 if f.dt != "i" else 0, f=F(ANY, V0, f.dt, f.deps), np=True)
    return Num(f=f, vid=el_vid(o.vid, vids), np=True)


def el_vid(base, vids):
    """element of a value number, through transparent views"""
    k = VN.rev[base]
    if k[0] == "op" and k[1] == "bc" and len(vids) >= 1: return k[2]
    if k[0] == "op" and k[1] == "idx" and len(vids) == 1:
        toks = list(k[3:])
        if len(toks) == 1:
            t = VN.rev[toks[0]]
            if t[0] == "op" and t[1] == "slice" and t[4] == "#1" and isinstance(t[2], Vid): return el_vid(k[2], [vadd(vids[0], t[2])])
            if t[0] != "op" and t[0] != "const": return el_vid(k[2], [toks[0], vids[0]])
            if t[0] == "op" and t[1] not in ("slice",): return el_vid(k[2], [toks[0], vids[0]])
    return vop("el", base, *vids)


def arr_getitem(I, o, k):
    I.refresh(o)
    ix = parse_index(I, o, k)
    if ix is None:
        r = mk(I, None, o.f.with_(deps=o.f.deps | k.deps), vop("idx", o.vid, k.vid if k.vid is not None else -1))
        return r
    kinds = {x.kind for x in ix}
    if kinds <= {"int"}:
        e = elem(I, o, [x.lo for x in ix], ix)
        kd = frozenset().union(*[x.v.deps for x in ix]) if ix else frozenset()
        if kd - e.f.deps: e = Num(e.c, e.lin, e.f.with_(deps=e.f.deps | kd), e.vid, e.cond, True)
        return e
    if not (kinds & {"adv", "mask"}):
        # one row of a segmented array of arrays
        if o.segs is not None and ix[0].kind == "int" and ix[0].lo is not None:
            v = lib.seg_at(I, o.segs, ix[0].lo)
            if v is False: I.raise_("IndexError", f"index out of bounds")
            if isinstance(v, Arr):
                r = basic_view(I, v, ix[1:]) if not all(x.kind == "slice" and x.full for x in ix[1:]) else Arr(v.shape, v.f, v.vid, v.band, v.const, v.segs)
                r.f = r.f.with_(dt=o.f.dt)
                return attach(I, o, r, ix, lambda b: None)
        r = basic_view(I, o, ix)
        if len(ix) == 1 and ix[0].kind == "int": pass
        return attach(I, o, r, ix)
    return adv_get(I, o, ix)


def attach(I, o, r, ix, fn=None):
    """make facts r a view of o"""
    r.buf = o.buf; r.epoch = o.epoch; r.origin = o.origin
    def refresh(base):
        if ix and ix[0].kind == "int" and base.segs is not None and ix[0].lo is not None and any(isinstance(s.val, Arr) for s in base.segs):
            v = lib.seg_at(I, base.segs, ix[0].lo)
            if isinstance(v, Arr):
                return basic_view(I, v, ix[1:])
        return basic_view(I, base, ix)
    def wback(I, base, view):
        write_sub(I, base, ix, view, "store through a view")
    r.view = (o, refresh, wback)
    r.basever = o.ver
    return r


def adv_get(I, o, ix):
    advs = [x for x in ix if x.kind in ("adv", "mask")]
    deps = o.f.deps
    for x in ix:
        if isinstance(x.v, Val): deps = deps | x.v.deps
    ashape = ()
    for x in advs:
        if x.kind == "mask": sh = (None,)
        else: sh = x.v.shape
        ashape = None if ashape is None or sh is None else bshape(I, ashape, sh)
    dims = []
    pos = [i for i, x in enumerate(ix) if x.kind in ("adv", "mask", "int")]
    contiguous = pos == list(range(pos[0], pos[-1] + 1))
    placed = False
    if ashape is None: shape = None
    else:
        if not contiguous: dims += list(ashape); placed = True
        for i, x in enumerate(ix):
            if x.kind == "new": dims.append(L(1))
            elif x.kind == "slice": dims.append(x.n)
            elif not placed: dims += list(ashape); placed = True
        shape = tuple(dims)
    toks = [x.vid for x in ix]
    vid = vop("take", o.vid, *toks)
    if len(ix) == 2 and "unique_inv" in tagsof(ix[1].v) and ix[0].kind == "slice" and ix[0].full: vid = vop("takeinv", o.vid, ix[1].vid)
    const = None
    if o.const is not None and all((x.kind in ("adv", "mask") and x.v.const is not None) or (x.kind == "slice" and lib.const_slice(x.v) is not None) or (x.kind == "int" and x.lo is not None and x.lo.is_const) for x in ix):
        key = tuple(x.v.const if x.kind in ("adv", "mask") else lib.const_slice(x.v) if x.kind == "slice" else int(x.lo.c) for x in ix)
        try: return mkconst(I, o.const[key])
        except IndexError as e: I.raise_("IndexError", str(e))
    r = mk(I, shape, o.f.with_(deps=deps), vid, _unk if shape is not None and len(shape) == 2 else None)
    if len(ix) == 1 and ix[0].kind == "adv" and o.ndim == 1:
        k = VN.rev[ix[0].v.vid]
        if k[0] == "op" and k[1] == "argsort" and k[2] == o.vid: r.vid = vop("sort", o.vid)
    if r.shape is not None and len(r.shape) == 2 and len(o.shape) == 2 and o.band is not None and band_empty(o.band): r.band = EMPTY
    return r


def tagsof(v): return v.tags if isinstance(v, Arr) else frozenset()


def gen_lin(I, arr, lin, upper):
    """replace the symbols of the loops around (started after the array was created) by their extreme"""
    if lin is None: return None
    for lc in reversed(I.loops):
        s = getattr(lc, "sym", None)
        if s is None or arr.id > lc.start_id: continue
        c = dict(lin.t).get(s)
        if not c: continue
        lo, hi = I.bounds.b.get(s, ([], []))
        bs = hi if (c > 0) == upper else lo
        if not bs: return None
        lin = lin.subst({s: bs[0]})
    return lin


def gen_band(I, arr, b):
    # symbols introduced by inner loops are younger: substitute from the innermost outwards
    if band_empty(b): return b
    return Band(gen_lin(I, arr, b.lo, False), gen_lin(I, arr, b.hi, True), b.tight)


def arr_setitem(I, o, k, v, aug=False):
    I.refresh(o)
    if isinstance(v, (Lst, Tup)): v = asarray(I, v)
    if isinstance(v, Arr): I.refresh(v)
    if isinstance(v, Const) and v.v is None:
        if o.f.dt in ("f", "i", "c"):
            if o.f.dt == "f": v = Num(c=math.nan)
            else: I.raise_("TypeError", "float() argument must be a string or a real number, not 'NoneType'")
    if not isinstance(v, (Num, Arr)):
        I.unk("array store of unknown", v)
        put(I, o, F(None, None, o.f.dt, o.f.deps | v.deps), vop("unk", o.vid, v.vid if v.vid is not None else -1), _unk if o.ndim == 2 else None, None, None, "item store", v)
        return
    check_store(I, o, v.f, "item store", v)
    if o.f.dt in ("i", "b") and v.f.dt == "c": I.raise_("TypeError", "complex to int")
    if o.f.dt in ("f",) and v.f.dt == "c":
        I.event("discard-imag", arr=o, value=v)
        if isinstance(v, Num) and o.shape is not None: I.raise_("TypeError", "float() argument must be a string or a real number, not 'complex'")
    ix = parse_index(I, o, k)
    write_sub(I, o, ix, v, "item store", k)
    if o.view is not None:
        base, fn, wfn = o.view
        wfn(I, base, o)
        o.basever = base.ver


def write_sub(I, o, ix, v, what, k=None):
    """store v into the part of o described by ix (ix None: unknown part)"""
    I.refresh(o)
    vf = v.f.with_(dt=o.f.dt if o.f.dt is not None else v.f.dt)
    zero = cval(v) is not None and not np.any(np.asarray(cval(v)) != 0)
    kdeps = frozenset()
    if ix is not None:
        for x in ix:
            if isinstance(x.v, Val): kdeps = kdeps | x.v.deps
    if ix is None or o.shape is None:
        f = weak_join(I, o.f, vf)
        put(I, o, f.with_(deps=f.deps | kdeps), vop("updat", o.vid, k.vid if k is not None and k.vid is not None else -1, v.vid), _unk if o.ndim == 2 else None, None, None, what, v)
        return
    # complete overwrite
    if all(x.kind == "slice" and x.full for x in ix) :
        vs = shp(v)
        if vs is not None and len(vs) > len(o.shape): 
            pass
        if vs is not None: bshape(I, o.shape, vs)
        const = None
        if cval(v) is not None and all(d is not None and d.is_const for d in o.shape):
            try: const = np.broadcast_to(np.asarray(cval(v)), tuple(int(d.c) for d in o.shape)).astype(DTN.get(o.f.dt, float)).copy()
            except ValueError as e: I.raise_("ValueError", str(e))
        band = None
        if len(o.shape) == 2: band = EMPTY if zero else (v.band if full2d(I, v, o.shape) else FULL)
        segs = None
        if len(o.shape) == 1:
            segs = v.segs if isinstance(v, Arr) else [Seg(o.shape[0], cast(v, o.f.dt))] if o.f.dt in DTN else None
        if isinstance(v, Arr) and v.shape != o.shape: segs = None if len(o.shape) != 1 or v.shape is None or len(v.shape) != 1 or not bool(I.bounds.eq0((o.shape[0] or L(0)) - (v.shape[0] or L(0)))) else segs
        put(I, o, vf, v.vid if shp(v) == o.shape else vop("bc", v.vid, *[vdim(d) for d in o.shape]), band, segs, const, what, v)
        return
    # constant update
    const = None
    if o.const is not None and cval(v) is not None:
        key = []
        for x in ix:
            if x.kind == "int" and x.lo is not None and x.lo.is_const: key.append(int(x.lo.c))
            elif x.kind == "slice" and lib.const_slice(x.v) is not None: key.append(lib.const_slice(x.v))
            elif x.kind in ("adv", "mask") and x.v.const is not None: key.append(x.v.const)
            elif x.kind == "new": key.append(None)
            else: key = None; break
        if key is not None:
            const = o.const.copy()
            try: const[tuple(key)] = cval(v)
            except (ValueError, IndexError) as e: I.raise_(type(e).__name__, str(e))
    # shape agreement of the stored value
    tdims = []
    for x in ix:
        if x.kind == "slice": tdims.append(x.n)
        elif x.kind == "new": tdims.append(L(1))
    if not any(x.kind in ("adv", "mask") for x in ix) and isinstance(v, Arr) and v.shape is not None:
        vs = v.shape
        while len(vs) > len(tdims) and vs[0] == L(1): vs = vs[1:]
        if len(vs) > len(tdims): I.raise_("ValueError", "setting an array element with a sequence" if not tdims else "could not broadcast input array")
        for p, q in zip(reversed(vs), reversed(tdims)):
            if p is not None and q is not None and p != L(1) and I.bounds.eq0(p - q) is False and not (q == L(0)):
                if I.bounds.eq0(p - 1) is False: I.raise_("ValueError", f"could not broadcast input array from shape ({p}) into shape ({q})")
    # neutral stores (special entries, no statement about the dimension)
    neutral = v.f.dt == "b" or (any(x.kind in ("adv", "mask") for x in ix) and isinstance(v, Num) and v.c is not None)
    nf = vf
    if neutral: nf = F(ANY, V0 if v.f.dt != "b" else ANEU, vf.dt, vf.deps)
    # strong updates along the first axis
    segs = None
    x0 = ix[0]
    if (o.segs is not None or len(o.shape) == 1) and all(x.kind == "slice" and x.full for x in ix[1:]) and x0.kind in ("int", "slice"):
        segs = seg_store(I, o, x0, v, neutral)
    elif o.segs is not None and len(o.shape) > 1 and x0.kind == "int" and x0.lo is not None: segs = None
    toks = [x.vid for x in ix]
    kb = VN.rev[o.vid]
    if kb[0] == "op" and kb[1] == "upd" and kb[4:] == tuple(t if isinstance(t, Vid) else f"#{t}" for t in toks): vid = vop("upd", kb[2], v.vid, *toks)    # overwritten at the same place
    else: vid = vop("upd", o.vid, v.vid, *toks)
    if segs is not None:
        f = seg_f(segs)
        if f is None: f = weak_join(I, o.f, nf)
        f = f.with_(dt=o.f.dt, deps=f.deps | kdeps)
        vid = segs_vid(segs, vid)
    else:
        nofill = o.f.aff is ANEU or o.f.unit is ANY
        f = F(ujoin(o.f.unit, nf.unit, I.site(), "store into an array") if nofill else weak_unit(o.f.unit, nf.unit, I.site()),
              ajoin(o.f.aff, nf.aff, I.site(), "store into an array") if nofill else weak_aff(o.f.aff, nf.aff), o.f.dt, o.f.deps | nf.deps | kdeps)
        if isinstance(nf.unit, Mix): f.unit = nf.unit
        if isinstance(nf.aff, Mix): f.aff = nf.aff
    band = None
    if len(o.shape) == 2: band = store_band(I, o, ix, v, zero)
    put(I, o, f, vid, band, segs, const, what, v)


def segs_vid(segs, dflt):
    out = []
    for s in segs:
        if s.n is None or s.val.vid is None: return dflt
        out += [vlinform(s.n), s.val.vid]
    return vop("segs", *out)


def weak_unit(a, b, site):
    if isinstance(a, Mix): return a
    if a is ANY: return b
    if b is ANY: return a
    return a if a == b else None


def weak_aff(a, b):
    if isinstance(a, Mix): return a
    if a is ANEU: return b
    if b is ANEU: return a
    return a if a == b else None


def weak_join(I, a, b):
    return F(weak_unit(a.unit, b.unit, None), weak_aff(a.aff, b.aff), dtjoin(a.dt, b.dt) if a.dt is None else a.dt, a.deps | b.deps)


def seg_store(I, o, x, v, neutral):
    segs = segs_of(I, o) if len(o.shape) == 1 else (list(o.segs) if o.segs is not None else None)
    if segs is None: return None
    loopsym = None
    if x.kind == "int":
        if x.lo is None: return None
        lo, n = x.lo, L(1)
        for lc in reversed(I.loops):
            s = getattr(lc, "sym", None)
            if s is not None and o.id <= lc.start_id and dict(lo.t).get(s):
                if dict(lo.t)[s] not in (1, -1) or lc.n is None or loopsym is not None: return None
                loopsym = (s, lc.n, dict(lo.t)[s])
        if loopsym is not None:
            s, n, sg = loopsym
            lo0 = lo.subst({s: L(0)}) if sg == 1 else lo.subst({s: n - 1})
        else:
            # an index that depends on a loop through another symbol
            lo0 = lo
        if isinstance(v, Arr) and len(o.shape) == 1 and v.shape not in ((), None): return None
        val = v if isinstance(v, Num) or len(o.shape) > 1 else Num(f=v.f, vid=v.vid, np=True)
        if len(o.shape) > 1 and not isinstance(val, Arr): return None
        if neutral and isinstance(val, Num): val = Num(c=val.c, lin=val.lin, f=F(ANY, V0, val.f.dt, val.f.deps), vid=val.vid)
        if isinstance(val, Num) and o.f.dt in DTN: val = cast(val, o.f.dt) if not (val.c is not None and isinstance(val.c, float) and not math.isfinite(val.c) and o.f.dt == "i") else val
        if isinstance(val, Arr): val = Arr(val.shape, val.f, val.vid, val.band, val.const, val.segs)
        sym = None
        if loopsym is not None:
            sym = loopsym[0]
            if loopsym[2] == -1: val = lib.subst(I, val, sym, n - 1 - Sym(sym))
        new = [Seg(n, val, sym)]
        r = lib.split_segs(I, segs, lo0)
        if r is None: return None
        r2 = lib.split_segs(I, r[1], n)
        if r2 is None: return None
        return r[0] + new + r2[1]
    if x.lo is None or x.n is None or x.st != 1: return None
    for lc in I.loops:
        s = getattr(lc, "sym", None)
        if s is not None and o.id <= lc.start_id and (dict(x.lo.t).get(s) or dict(x.n.t).get(s)): return None
    if len(o.shape) != 1: return None
    if isinstance(v, Num): new = [Seg(x.n, cast(v, o.f.dt) if o.f.dt in DTN and not (v.c is not None and isinstance(v.c, float) and not math.isfinite(v.c)) else v)]
    else:
        if v.shape is None or len(v.shape) > 1: return None
        if v.shape == (): new = [Seg(x.n, Num(f=v.f, vid=v.vid, np=True))]
        else:
            new = segs_of(I, v)
            if new is None: return None
            if v.shape[0] == L(1) and x.n != L(1): return None
            if o.f.dt in DTN: new = [Seg(s.n, cast(s.val, o.f.dt), s.sym) if isinstance(s.val, Num) and s.val.c is None else s for s in new]
    r = lib.split_segs(I, segs, x.lo)
    if r is None: return None
    r2 = lib.split_segs(I, r[1], x.n)
    if r2 is None: return None
    return r[0] + new + r2[1]


def store_band(I, o, ix, v, zero):
    old = o.band or _unk
    if zero:
        return old if band_empty(old) else Band(old.lo, old.hi, False)
    if len(ix) != 2: return _unk
    r, c = ix
    new = None
    if r.kind == "int" and c.kind == "int":
        if r.lo is not None and c.lo is not None: new = Band(r.lo - c.lo, r.lo - c.lo, True)
    elif r.kind == "slice" and c.kind == "slice":
        if r.st == 1 and c.st == 1 and r.lo is not None and c.lo is not None:
            vb = v.band if isinstance(v, Arr) and v.shape is not None and len(v.shape) == 2 else None
            if vb is None:
                # scalar or broadcast vector: the whole block
                vb = Band(None if c.n is None else L(1) - c.n, None if r.n is None else r.n - 1, True)
                if r.n is None or c.n is None: vb = Band(vb.lo, vb.hi, False)
            new = shift_band(vb, r.lo - c.lo)
    elif r.kind == "int" and c.kind == "slice":
        if r.lo is not None and c.lo is not None and c.n is not None and c.st == 1:
            new = Band(r.lo - c.lo - c.n + 1, r.lo - c.lo, True)
            if I.bounds.eq0(c.n) is True: new = EMPTY
            new = clip_row(I, o, new, v, c)
    elif r.kind == "slice" and c.kind == "int":
        if r.lo is not None and c.lo is not None and r.n is not None and r.st == 1:
            new = Band(r.lo - c.lo, r.lo + r.n - 1 - c.lo, True)
            if I.bounds.eq0(r.n) is True: new = EMPTY
    elif r.kind == "adv" and c.kind == "adv":
        d = visconst(vsub(strip_off(r.v)[0], strip_off(c.v)[0]))
        if d is not None and d.denominator == 1: new = Band(L(d), L(d), True)
        elif "tril" in tagsof(r.v) | tagsof(c.v) and getattr(r.v, "triband", None) is not None and getattr(c.v, "triband", None) is r.v.triband: new = r.v.triband
    elif r.kind == "adv" and c.kind == "slice": new = Band(None, None, False)
    if new is None: return _unk
    new = gen_band(I, o, new)
    return band_join(I, old, new)


def clip_row(I, o, b, v, c): return b


def strip_off(a): return (a.vid, 0)
