"""numpy / scipy functions, array methods and attributes over the abstract domain."""
import math
import numpy as np
from .core import *
from . import lib
from . import npm
from .npm import (mk, mkconst, npnum, from_np, cval, facts, shp, asarray, astype, f01, copy_arr, binop, compare, unary, dtype_arg, dtype_obj,
                  shape_arg, dim_of, put, overwrite, map_segs, segs_of, el, seg_f, band_meet, band_join, band_of, bshape, vdim,
                  size_sym, size_of, prod_sym, _unk, DTN, DTYPE_CLS, num_binop, raising, check_store, basic_view, attach, Ix)

FN = {}


def fn(*names):
    def deco(f):
        for n in names: FN[n] = f
        return f
    return deco


def bind(a, k, names, req=0):
    """values of the named parameters (None when absent)"""
    out = [None] * len(names)
    for i, x in enumerate(a[:len(names)]): out[i] = x
    for n, x in k.items():
        if n in names: out[names.index(n)] = x
    return out


def isarr(v): return isinstance(v, (Arr, Num))


def conv(I, v):
    """array operand: Arr / Num, or None when nothing is known"""
    if isinstance(v, Arr): I.refresh(v); return v
    if isinstance(v, Num): return v
    if isinstance(v, (Lst, Tup)): return asarray(I, v)
    if isinstance(v, AbsSeq) and v.rng is not None: return asarray(I, v)
    if isinstance(v, Const): I.raise_("TypeError", "unsupported operand type")
    return None


def opaque(I, name, vals, shape=None, unit=None, aff=None, dt=None):
    """result about which only the given facts are known"""
    d = frozenset()
    vv = []
    for v in vals:
        if isinstance(v, Val):
            if isinstance(v, Arr): I.refresh(v)
            d = d | v.deps
            if v.vid is not None: vv.append(v.vid)
    vid = vop(name, *vv)
    f = F(unit, aff, dt, d)
    if shape == (): return Num(f=f, vid=vid, np=True)
    return mk(I, shape, f, vid, _unk if shape is not None and len(shape) == 2 else None)


def npcall(I, name, a, k, shape=None, f=None):
    """a numpy function known by its name and arguments only (its term is evaluated by numpy itself in a model)"""
    d, vv = frozenset(), []
    for x in [*a, *[y for t in k.items() for y in t]]:
        if isinstance(x, str): vv.append(":" + x); continue
        if isinstance(x, Arr): I.refresh(x)
        d = d | x.deps
        if x.vid is None: return I.unk(name, *a)
        vv.append(x.vid)
    f = F(None, None, None, d) if f is None else f.with_(deps=f.deps | d)
    vid = vop("np", name, *vv)
    if shape == (): return Num(f=f, vid=vid, np=True)
    return mk(I, shape, f, vid, _unk if shape is not None and len(shape) == 2 else None)


class NoFold(Exception): pass


def pyval(v):
    if isinstance(v, Num):
        if v.c is None: raise NoFold
        return np.asarray(v.c)[()] if v.np and not isinstance(v.c, bool) else v.c
    if isinstance(v, Arr):
        if v.const is None: raise NoFold
        return v.const
    if isinstance(v, Const): return v.v
    if isinstance(v, Tup): return tuple(pyval(x) for x in v.items)
    if isinstance(v, Lst):
        out = []
        for s in v.segs:
            if s.n is None or not s.n.is_const or s.n.c > 64: raise NoFold
            out += [pyval(s.val)] * int(s.n.c)
        return out
    if isinstance(v, (Cls, Builtin)):
        t = npm._DTYPES.get(v.name.split(".")[-1])
        if t in DTN: return DTN[t]
    raise NoFold


def fold(I, npf, a, k, deps):
    """constant folding through a pure library function; raises NoFold"""
    pa = [pyval(x) for x in a]; pk = {n: pyval(x) for n, x in k.items()}
    try:
        with np.errstate(all="ignore"):
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r = npf(*pa, **pk)
    except NoFold: raise
    except np.linalg.LinAlgError as e: I.raise_("LinAlgError", str(e))
    except (ValueError, TypeError, IndexError, ZeroDivisionError, OverflowError) as e: I.raise_(type(e).__name__ if type(e).__name__ in lib.BUILTIN_CLASSES else "ValueError", str(e))
    if isinstance(r, np.ndarray) and (r.size > 20000 or r.dtype.kind not in "biufc"): raise NoFold
    if isinstance(r, (tuple, list)): 
        out = []
        for x in r:
            if not isinstance(x, (np.ndarray, np.generic, int, float, complex)): raise NoFold
            out.append(from_np(I, np.array(x) if isinstance(x, np.ndarray) else x))
        r = Tup(out) if isinstance(r, tuple) else I.new_epoch(Lst(out))
        return r
    if isinstance(r, np.ndarray): r = np.array(r)
    if r is None: raise NoFold
    v = from_np(I, r)
    if deps and isinstance(v, (Num, Arr)): v.f = v.f.with_(deps=deps)
    return v


_NOFOLD = {"linspace", "zeros", "ones", "full", "empty", "zeros_like", "ones_like", "full_like", "empty_like", "fill_diagonal", "asarray", "array",
           "ravel", "reshape", "copy", "asanyarray", "ascontiguousarray", "errstate", "seterr", "random", "put", "copyto", "diag_indices", "tril_indices",
           "triu_indices", "atleast_1d", "transpose", "swapaxes", "squeeze", "expand_dims", "moveaxis", "broadcast_to",
           "polynomial.legendre.leggauss", "scipy.special.roots_legendre", "scipy.special.p_roots", "polynomial.chebyshev.chebgauss"}


def npfunc(name):
    o = np
    for p in name.split("."):
        o = getattr(o, p, None)
        if o is None: return None
    return o if callable(o) else None


def call(I, name, a, k):
    """numpy function by name relative to numpy ('zeros', 'linalg.solve'), or full scipy name"""
    I.calls += 1
    a = list(a); k = dict(k)
    for x in list(a) + list(k.values()):
        if isinstance(x, Arr): I.refresh(x)
    out = k.pop("out", None)
    if isinstance(out, Tup): out = out.items[0]
    if out is not None and lib.is_none(out): out = None
    r = None
    deps = frozenset()
    for x in list(a) + list(k.values()):
        if isinstance(x, Val): deps = deps | x.deps
    root = name.split(".")[0]
    if root == "random" or name.startswith("random"):
        I.event("global", what="use of the global random state: numpy." + name)
    if name not in _NOFOLD and root != "random" and root != "scipy" and not I_hasraise(I):
        f = npfunc(name)
        if f is not None and not isinstance(f, type):
            try: r = fold(I, f, a, k, deps)
            except NoFold: r = None
    if r is None:
        f = FN.get(name)
        if f is None:
            r = I.unk("numpy." + name, *a, *k.values())
        else: r = f(I, a, k)
    if out is not None:
        if isinstance(out, Arr):
            if isinstance(r, (Arr, Num)):
                rr = r if isinstance(r, Arr) else asarray(I, r)
                check_store(I, out, rr.f, "out=", rr)
                overwrite(I, out, "out= of " + name, rr, rr)
            else:
                put(I, out, F(None, None, out.f.dt, out.f.deps | deps), None, _unk if out.ndim == 2 else None, None, None, "out= of " + name, r)
            return out
    return r


def I_hasraise(I): return bool(I.errstate)


# ----------------------------------------------------------------------------- elementwise functions

def ew1(I, name, v, uf, af, dtf=None, band="keep", npf=None, vidf=None):
    v = conv(I, v)
    if v is None: return None
    c = cval(v)
    if c is not None and npf is not None:
        with np.errstate(all="ignore"):
            r = npf(np.asarray(c))
        r = from_np(I, r)
        if v.f.deps: r.f = r.f.with_(deps=v.f.deps)
        return r
    site = I.site()
    dt = dtf(v.f.dt) if dtf else v.f.dt
    f = F(uf(v.f.unit, site), af(v.f.aff, site), dt, v.f.deps)
    vid = vidf(v.vid) if vidf else vop(name, v.vid)
    if isinstance(v, Num): return Num(f=f, vid=vid, np=True)
    b = None
    if v.ndim == 2: b = v.band if band == "keep" else npm.FULL
    return mk(I, v.shape, f, vid, b, map_segs(v, lambda x: ew1(I, name, x, uf, af, dtf, band, npf, vidf)))


def u_same(u, s): return u
def u_one(u, s): return u if isinstance(u, Mix) else ONE
def u_pure(what):
    def g(u, s):
        if isinstance(u, Mix): return u
        if u is None: return None
        if u is ANY or u == ONE: return ONE
        return Mix(s, f"{what} of a quantity with dimension [{ushow(u)}]")
    return g
def u_log(u, s):
    if isinstance(u, Mix): return u
    return ONE if u is ANY or u == ONE else None
def a_same(a, s): return a
def a_nl(what): return lambda a, s: afun(a, s, what)
def d_float(d): return "f" if d in ("i", "b", "f") else d
def d_real(d): return "f" if d == "c" else d


def _e(name, uf, what=None, dtf=d_float, band="full", af=None):
    def g(I, a, k):
        if not a: return I.unk(name)
        if name in ("exp", "expm1", "sqrt", "cosh", "sinh"): raising(I, "over")
        r = ew1(I, name, a[0], uf, af or a_nl(name), dtf, band, getattr(np, name, None))
        return r if r is not None else I.unk(name, *a)
    FN[name] = g


for _n in ("exp", "expm1", "cos", "sin", "tan", "cosh", "sinh", "tanh", "arccos", "arcsin", "arctan"): _e(_n, u_pure(_n), band="keep" if _n in ("sin", "tan", "sinh", "tanh", "arcsin", "arctan", "expm1") else "full")
for _n in ("log", "log10", "log2", "log1p"): _e(_n, u_log)
for _n, _m in (("acos", "arccos"), ("asin", "arcsin"), ("atan", "arctan")): FN[_n] = FN[_m]
_e("sqrt", lambda u, s: upow(u, Fraction(1, 2)), band="keep")
_e("cbrt", lambda u, s: upow(u, Fraction(1, 3)), band="keep")
_e("sign", u_one, dtf=None, band="keep")
_e("floor", u_same, dtf=d_float, band="keep"); _e("ceil", u_same, band="keep"); _e("rint", u_same, band="keep"); _e("trunc", u_same, band="keep")
for _n in ("isnan", "isinf", "isfinite", "logical_not", "signbit"): _e(_n, u_one, dtf=lambda d: "b", band="full", af=lambda a, s: V0)
_e("real", u_same, dtf=d_real, band="keep", af=a_same); _e("imag", u_same, dtf=d_real, band="keep", af=lambda a, s: V0 if a == V0 else None)
_e("conjugate", u_same, dtf=None, band="keep", af=a_same); FN["conj"] = FN["conjugate"]
_e("positive", u_same, dtf=None, band="keep", af=a_same); _e("fix", u_same, dtf=d_float, band="keep")
for _n in ("arcsinh", "arccosh", "arctanh", "sinc", "exp2"): _e(_n, u_pure(_n))
for _n in ("deg2rad", "rad2deg"): _e(_n, u_pure(_n), band="keep")
for _n, _m in (("radians", "deg2rad"), ("degrees", "rad2deg"), ("asinh", "arcsinh"), ("acosh", "arccosh"), ("atanh", "arctanh")): FN[_n] = FN[_m]
for _n in ("isneginf", "isposinf", "isreal", "iscomplex"): _e(_n, u_one, dtf=lambda d: "b", af=lambda a, s: V0)
_e("angle", u_one, dtf=lambda d: "f")


@fn("abs", "absolute", "fabs")
def f_abs(I, a, k):
    v = conv(I, a[0])
    if v is None: return I.unk("abs", *a)
    if isinstance(v, Num) and v.c is not None:
        n = Num(c=abs(v.c), np=v.np)
        if v.deps: n.f = n.f.with_(deps=v.deps)
        return n
    if isinstance(v, Num) and v.lin is not None:
        if I.bounds.ge0(v.lin) is True: return v
        if I.bounds.ge0(-v.lin) is True: return unary(I, "USub", v)
    def vidf(x):
        k = VN.rev[x]
        return vop("abs", x)
    r = ew1(I, "abs", v, u_same, a_nl("absolute value"), d_real, "keep", np.abs, vidf)
    if isinstance(r, Num) and not v.np: r.np = False
    return r


@fn("round", "around", "round_")
def f_round(I, a, k):
    v = conv(I, a[0])
    if v is None: return I.unk("round", *a)
    if isinstance(v, Num) and v.c is not None and (len(a) < 2 or isinstance(a[1], Num) and a[1].c is not None) and not v.np:
        return Num(c=round(*[x.c for x in a]))
    dec = bind(a, k, ["x", "decimals"])[1]
    u = lambda x, s: x
    if dec is not None and not (isinstance(dec, Num) and dec.c == 0):
        # rounding to an absolute number of digits
        u = lambda x, s: x if x is None or x is ANY or x == ONE or isinstance(x, Mix) else Mix(s, f"rounding a quantity with dimension [{ushow(x)}] to a fixed number of digits")
    r = ew1(I, "round", v, u, a_nl("rounding"), None, "keep", None)
    if dec is not None and not (isinstance(dec, Num) and dec.c == 0) and dec.vid is not None and not (isinstance(r, Num) and r.c is not None) and not (isinstance(r, Arr) and r.const is not None):
        vid = vop("np", "round", v.vid, dec.vid)
        r = Num(f=r.f, vid=vid, np=r.np) if isinstance(r, Num) else Arr(r.shape, r.f, vid, r.band)
    if isinstance(r, Num) and not v.np: r.np = False; r.f = r.f.with_(dt="i" if len(a) < 2 else r.f.dt)
    return r


def binfn(op):
    def g(I, a, k):
        x, y = conv(I, a[0]), conv(I, a[1])
        if x is None or y is None: return I.unk(op, *a)
        if isinstance(x, Num) and not x.np: x = Num(x.c, x.lin, x.f, x.vid, x.cond, True)
        return binop(I, op, x, y)
    return g


for _n, _o in (("add", "Add"), ("subtract", "Sub"), ("multiply", "Mult"), ("divide", "Div"), ("true_divide", "Div"), ("power", "Pow"), ("float_power", "Pow"),
               ("mod", "Mod"), ("remainder", "Mod"), ("floor_divide", "FloorDiv"), ("pow", "Pow"), ("logical_and", "BitAnd"), ("logical_or", "BitOr"),
               ("bitwise_and", "BitAnd"), ("bitwise_or", "BitOr"), ("logical_xor", "BitXor")): FN[_n] = binfn(_o)
FN["square"] = lambda I, a, k: FN["power"](I, [a[0], Num(c=2)], {})
FN["reciprocal"] = lambda I, a, k: FN["divide"](I, [Num(c=1), a[0]], {})
def negate(I, a, k):
    x = conv(I, a[0]); return unary(I, "USub", x) if x is not None else I.unk("negative", *a)
FN["negative"] = negate
FN["invert"] = FN["bitwise_not"] = FN["bitwise_invert"] = lambda I, a, k: unary(I, "Invert", conv(I, a[0])) if conv(I, a[0]) is not None else I.unk("invert", *a)
def cmpfn(op):
    def g(I, a, k):
        x, y = conv(I, a[0]), conv(I, a[1])
        return I.unk(op, *a) if x is None or y is None else compare(I, op, x, y)
    return g
for _n, _o in (("equal", "Eq"), ("not_equal", "NotEq"), ("less", "Lt"), ("less_equal", "LtE"), ("greater", "Gt"), ("greater_equal", "GtE")): FN[_n] = cmpfn(_o)


def ew2(I, name, x, y, comm=False):
    """elementwise selection between two operands of the same kind (maximum, minimum)"""
    x, y = conv(I, x), conv(I, y)
    if x is None or y is None: return None
    site = I.site()
    f = fjoin(x.f, y.f, site, name)
    vid = vop(name, *(sorted((x.vid, y.vid)) if comm else (x.vid, y.vid)))
    if x.vid == y.vid: vid = x.vid
    if isinstance(x, Num) and isinstance(y, Num):
        if x.lin is not None and y.lin is not None:
            g = I.bounds.ge0(x.lin - y.lin)
            if g is not None: return x if g == (name == "maximum") else y
        return Num(f=f, vid=vid, np=True)
    s = bshape(I, shp(x), shp(y))
    b = None
    if s is not None and len(s) == 2:
        bx, by = band_of(x), band_of(y)
        b = band_join(I, bx, by) if bx and by else _unk
        b = npm.Band(b.lo, b.hi, False)
    return mk(I, s, f, vid, b)


@fn("maximum", "fmax")
def f_maximum(I, a, k): return ew2(I, "maximum", a[0], a[1], True) or I.unk("maximum", *a)
@fn("minimum", "fmin")
def f_minimum(I, a, k): return ew2(I, "minimum", a[0], a[1], True) or I.unk("minimum", *a)


for _n in ("hypot", "fmod", "nextafter", "logaddexp", "logaddexp2", "gcd", "lcm"): FN[_n] = lambda I, a, k, n=_n: pair(I, n, a)
for _n in ("arctan2", "copysign", "heaviside"): FN[_n] = lambda I, a, k, n=_n: pair(I, n, a)
FN["atan2"] = FN["arctan2"]


def pair(I, name, a):
    x, y = conv(I, a[0]), conv(I, a[1])
    if x is None or y is None: return I.unk(name, *a)
    if isinstance(x, Num) and isinstance(y, Num) and x.c is not None and y.c is not None and not x.deps and not y.deps: return from_np(I, getattr(np, name)(x.c, y.c))
    r = ew2(I, name, x, y)
    if r is None: return I.unk(name, *a)
    if x.vid == y.vid: r = mk(I, r.shape, r.f, vop(name, x.vid, y.vid), _unk if r.shape is not None and len(r.shape) == 2 else None) if isinstance(r, Arr) else Num(f=r.f, vid=vop(name, x.vid, y.vid), np=True)
    if isinstance(r, Arr) and r.shape is not None and len(r.shape) == 2: r.band = npm.FULL
    one = name in ("arctan2", "heaviside")
    f = r.f.with_(unit=ONE if one and not isinstance(r.f.unit, Mix) else r.f.unit, aff=afun(r.f.aff, I.site(), name), dt="f" if r.f.dt in ("i", "b") and name not in ("gcd", "lcm", "fmod") else r.f.dt)
    r.f = f
    return r


@fn("clip")
def f_clip(I, a, k):
    x, lo, hi = bind(a, k, ["a", "a_min", "a_max"])
    r = x
    if lo is not None and not lib.is_none(lo): r = ew2(I, "maximum", r, lo)
    if r is not None and hi is not None and not lib.is_none(hi): r = ew2(I, "minimum", r, hi)
    return r if r is not None else I.unk("clip", *a)


@fn("where")
def f_where(I, a, k):
    if len(a) == 1:
        return f_nonzero(I, a, k)
    c = conv(I, a[0]); x, y = conv(I, a[1]), conv(I, a[2])
    if c is None or x is None or y is None: return I.unk("where", *a)
    if cval(c) is not None and isinstance(c, Num): return x if c.c else y
    f = fjoin(f01(x.f), f01(y.f), I.site(), "where")
    # literals as special values of where
    for p, q in ((x, y), (y, x)):
        if isinstance(p, Num) and p.c is not None: f = F(q.f.unit if not isinstance(f.unit, Mix) or True else f.unit, q.f.aff if p.c == 0 else None, f.dt, f.deps)
    if isinstance(c.f.unit, Mix): f.unit = c.f.unit
    if isinstance(c.f.aff, Mix): f.aff = c.f.aff
    f.deps = f.deps | c.f.deps
    s = bshape(I, shp(c), shp(x), shp(y))
    if s is None: return mk(I, None, f, vop("where", c.vid, x.vid, y.vid))
    if s == (): return Num(f=f, vid=vop("where", c.vid, x.vid, y.vid), np=True)
    band = _unk if len(s) == 2 else None
    if band is not None:
        bc, bx, by = band_of(c), band_of(x), band_of(y)
        if y.vid is not None and visconst(y.vid) == 0: band = band_meet(I, bc, bx if isinstance(x, Arr) and x.shape == s else _unk)
        elif bx is not None and by is not None and x.shape == y.shape == s: band = band_join(I, bx, by)
        elif x.vid is not None and visconst(x.vid) == 0 and by is not None and y.shape == s: band = Band(by.lo, by.hi, False)
        if band is not None and band.tight: band = Band(band.lo, band.hi, False)
    return mk(I, s, f, vop("where", c.vid, x.vid, y.vid), band)


@fn("argwhere")
def f_argwhere(I, a, k):
    c = conv(I, a[0])
    if not isinstance(c, Arr) or c.shape is None: return I.unk("argwhere", *a)
    return npcall(I, "argwhere", a, k, (None, L(len(c.shape))), F(ONE, c.f.aff if isinstance(c.f.aff, Mix) else V0, "i", c.f.deps))


@fn("flatnonzero")
def f_flatnonzero(I, a, k):
    c = conv(I, a[0])
    if c is None: return I.unk("flatnonzero", *a)
    if isinstance(c, Arr) and c.shape is not None and len(c.shape) != 1: c = FN["ravel"](I, [c], {})
    r = f_nonzero(I, [c], {})
    return r.items[0] if isinstance(r, Tup) else r


@fn("nonzero")
def f_nonzero(I, a, k):
    c = conv(I, a[0])
    if c is None: return I.unk("nonzero", *a)
    n = len(c.shape) if isinstance(c, Arr) and c.shape is not None else None
    if n is None: return I.unk("nonzero", *a)
    aff = c.f.aff if isinstance(c.f.aff, Mix) else V0
    u = c.f.unit if isinstance(c.f.unit, Mix) else ONE
    arrs = [mk(I, (None,), F(u, aff, "i", c.f.deps), vop("nonzero", c.vid, i)) for i in range(max(n, 1))]
    return Tup(arrs)


# ----------------------------------------------------------------------------- construction

def elsym(I, n):
    """generic index below n"""
    name = f"e@{n}"
    if name not in I.bounds.b: I.bounds.declare(name, 0, n - 1)
    return name


def filled(I, shape, val, dt, kind):
    """constant-filled array"""
    zero = isinstance(val, Num) and val.c is not None and not val.c and not isinstance(val.c, complex)
    if shape is None:
        f = F(ANY, ANEU, dt) if zero else val.f.with_(dt=dt) if isinstance(val, Num) else F(None, None, dt, val.deps)
        return mk(I, None, f, vop(kind, val.vid))
    if isinstance(val, Num):
        f = F(ANY, ANEU, dt, val.deps) if zero else val.f.with_(dt=dt)
        if val.c is not None and all(d is not None and d.is_const for d in shape):
            n = 1
            for d in shape: n *= int(d.c)
            if n <= 4096 and dt in DTN: return mkconst(I, np.full(tuple(int(d.c) for d in shape), val.c, dtype=DTN[dt]), f)
        band = None
        if len(shape) == 2: band = EMPTY if zero else FULL
        segs = [Seg(shape[0], npm.cast(val, dt) if dt in DTN else val)] if len(shape) == 1 and shape[0] is not None else None
        return mk(I, shape, f, vop("full", val.vid, *[vdim(d) for d in shape]), band, segs)
    r = mk(I, shape, val.f.with_(dt=dt or facts(val).dt) if isinstance(val, Arr) else F(None, None, dt, val.deps), vop("full", val.vid if val.vid is not None else -1, *[vdim(d) for d in shape]), FULL if len(shape) == 2 else None)
    return r


def _fill(kind, val):
    def g(I, a, k):
        sh, dt = bind(a, k, ["shape", "dtype"])
        dt = dtype_arg(I, dt) if dt is not None else "f"
        s = shape_arg(I, sh)
        if val is None:
            # uninitialised memory
            return mk(I, s, F(ANY, ANEU, dt), vop("empty", *([vdim(d) for d in s] if s is not None else [-1]), newid()), EMPTY if s is not None and len(s) == 2 else None)
        return filled(I, s, Num(c=val), dt, kind)
    FN[kind] = g
    def h(I, a, k):
        x, dt = bind(a, k, ["a", "dtype"])
        x = conv(I, x)
        dt = dtype_arg(I, dt) if dt is not None else (x.f.dt if x is not None else None)
        s = shp(x) if x is not None else None
        if "shape" in k: s = shape_arg(I, k["shape"])
        if val is None: return mk(I, s, F(ANY, ANEU, dt), vop("empty", newid()), EMPTY if s is not None and len(s) == 2 else None)
        return filled(I, s, Num(c=val), dt, kind)
    FN[kind + "_like"] = h


_fill("zeros", 0.0); _fill("ones", 1.0); _fill("empty", None)


@fn("full")
def f_full(I, a, k):
    sh, v, dt = bind(a, k, ["shape", "fill_value", "dtype"])
    dt = dtype_arg(I, dt) if dt is not None else facts(v).dt
    if isinstance(v, (Lst, Tup)): v = asarray(I, v)
    return filled(I, shape_arg(I, sh), v, dt, "full")


@fn("full_like")
def f_full_like(I, a, k):
    x, v, dt = bind(a, k, ["a", "fill_value", "dtype"])
    x = conv(I, x)
    return filled(I, shp(x) if x is not None else None, v, dtype_arg(I, dt) if dt is not None else (x.f.dt if x is not None else None), "full")


def int_arg(I, v, dflt=None):
    """Lin of an integer argument"""
    if v is None or lib.is_none(v): return dflt
    if isinstance(v, Num): return v.lin
    return "?"


@fn("eye")
def f_eye(I, a, k):
    n, m, kk, dt = bind(a, k, ["N", "M", "k", "dtype"])
    n = dim_of(I, n); m = n if m is None or lib.is_none(m) else dim_of(I, m)
    kk = int_arg(I, kk, L(0))
    dt = dtype_arg(I, dt) or "f"
    b = npm.Band(-kk, -kk, True) if isinstance(kk, Lin) else _unk
    r = mk(I, (n, m), F(ONE, V0, dt), eye_vid(n, kk if isinstance(kk, Lin) else None), b)
    if all(isinstance(x, Lin) and x.is_const and x.c <= 64 for x in (n, m, kk)) and dt in DTN:
        r.const = np.eye(int(n.c), int(m.c), int(kk.c), dtype=DTN[dt])
    return r


def eye_vid(n, kk): return vop("eye", vdim(n), vdim(kk))


@fn("identity")
def f_identity(I, a, k): return f_eye(I, a[:1], k)


@fn("tri")
def f_tri(I, a, k):
    n, m, kk, dt = bind(a, k, ["N", "M", "k", "dtype"])
    n = dim_of(I, n); m = n if m is None or lib.is_none(m) else dim_of(I, m)
    kk = int_arg(I, kk, L(0))
    return mk(I, (n, m), F(ONE, V0, dtype_arg(I, dt) or "f"), vop("tri", vdim(n), vdim(m), vdim(kk) if isinstance(kk, Lin) else -1), npm.Band(-kk, None, True) if isinstance(kk, Lin) else _unk)


@fn("arange")
def f_arange(I, a, k):
    st, sp, step, dt = bind(a, k, ["start", "stop", "step", "dtype"])
    if len([x for x in a]) == 1 and "stop" not in k: st, sp = None, st
    st = st or Num(c=0); step = step or Num(c=1)
    if sp is None or not all(isinstance(x, Num) for x in (st, sp, step)): return opaque(I, "arange", [st, sp, step], (None,), None, None, None)
    d = dtjoin(dtjoin(st.f.dt, sp.f.dt), step.f.dt)
    if d == "b": d = "i"
    dt = dtype_arg(I, dt) or d
    deps = st.deps | sp.deps | step.deps
    if d == "i" and st.lin is not None and sp.lin is not None and step.lin is not None and step.lin.is_const and step.lin.c != 0:
        s = int(step.lin.c)
        n = sp.lin - st.lin if s > 0 else st.lin - sp.lin
        if I.bounds.ge0(n) is not True and I.bounds.ge0(-n) is True: n = L(0)
        if abs(s) > 1: n = lib.floordiv(I, n + abs(s) - 1, abs(s))
        sym = elsym(I, n)
        v = Num(lin=st.lin + Sym(sym).scale(s), f=F(ONE, V0, "i", deps), np=True)
        if dt != "i" and dt in DTN: v = npm.cast(v, dt)
        r = mk(I, (n,), F(ONE, V0, dt, deps), vop("arange", vlinform(st.lin), vlinform(n), s), None, [Seg(n, v, sym)])
        if st.lin == L(0) and s == 1: r.tags = frozenset(["arange"])
        if n.is_const and st.lin.is_const and 0 <= n.c <= 64 and dt in DTN: r.const = (int(st.lin.c) + s * np.arange(int(n.c))).astype(DTN[dt])
        return r
    site = I.site()
    f = fjoin(st.f, step.f, site, "arange")
    f = F(f.unit, None, dt, deps)
    if st.f.aff == V0 and step.f.aff == V0: f.aff = V0
    return mk(I, (None,), f, vop("arange", st.vid, sp.vid, step.vid))


@fn("linspace")
def f_linspace(I, a, k):
    s, e, n, endp, dt = bind(a, k, ["start", "stop", "num", "endpoint", "dtype"])
    n = n or Num(c=50)
    s, e = conv(I, s), conv(I, e)
    if s is None or e is None: return opaque(I, "linspace", [*a, *k.values()], (None,), None, None, "f")
    n = dim_of(I, n)
    closed = True if endp is None else I.truth(endp)
    retstep = "retstep" in k and I.truth(k["retstep"])
    dt = dtype_arg(I, dt) or ("c" if "c" in (s.f.dt, e.f.dt) else "f")
    f = fjoin(s.f, e.f, I.site(), "linspace").with_(dt=dt)
    va = vop("linspace", s.vid, e.vid, vdim(n), closed)
    if not isinstance(s, Num) or not isinstance(e, Num) or n is None:
        sh = bshape(I, shp(s), shp(e))
        r = mk(I, ((n,) + sh) if sh is not None else None, f, va)
        return r
    if n.is_const and n.c <= 200 and s.c is not None and e.c is not None:
        try:
            r = mkconst(I, np.linspace(s.c, e.c, int(n.c), endpoint=closed))
            if f.deps: r.f = r.f.with_(deps=f.deps)
            return r
        except ValueError as x: I.raise_("ValueError", str(x))
    def fl(v): return Num(c=None if v.c is None else float(v.c) if not isinstance(v.c, complex) else v.c, f=v.f.with_(dt=dt), vid=v.vid, np=True)
    segs = None
    if n == L(1): segs = [Seg(L(1), fl(s))]
    elif I.bounds.ge0(n - 2) is True:
        mid = n - 2 if closed else n - 1
        segs = [Seg(L(1), fl(s))]
        if mid != L(0):
            sym = elsym(I, mid)
            segs.append(Seg(mid, Num(f=f, vid=vop("el", va, vlinform(Sym(sym) + 1)), np=True), sym))
        if closed: segs.append(Seg(L(1), fl(e)))
    elif I.bounds.ge0(n - 1) is True:
        sym = elsym(I, n - 1)
        segs = [Seg(L(1), fl(s)), Seg(n - 1, Num(f=f, vid=vop("el", va, vlinform(Sym(sym) + 1)), np=True), sym)]
    r = mk(I, (n,), f, va, None, segs)
    if retstep:
        return Tup([r, binop(I, "Div", binop(I, "Sub", e, s), Num(lin=n - 1 if closed else n))])
    return r


@fn("logspace", "geomspace")
def f_logspace(I, a, k):
    n = bind(a, k, ["a", "b", "num"])[2] or Num(c=50)
    return opaque(I, "logspace", [*a, *k.values()], (dim_of(I, n),), None, None, "f")


@fn("asarray", "array", "asanyarray", "ascontiguousarray", "asfarray", "require")
def f_array(I, a, k):
    v, dt = bind(a, k, ["a", "dtype"])
    if v is None: v = k.get("object")
    dt = dtype_arg(I, dt)
    r = asarray(I, v, dt)
    nd = k.get("ndmin")
    if nd is not None and isinstance(nd, Num) and nd.c is not None and r.shape is not None and len(r.shape) < nd.c:
        r = mk(I, (L(1),) * (int(nd.c) - len(r.shape)) + r.shape, r.f, r.vid, FULL if nd.c == 2 else None)
    return r


def f_nparray(I, a, k):
    v, dt = bind(a, k, ["object", "dtype"])
    cp = k.get("copy")
    nocopy = cp is not None and (lib.is_none(cp) or (isinstance(cp, Num) and not cp.c))
    dt = dtype_arg(I, dt)
    if isinstance(v, Arr):
        r = asarray(I, v, dt, copy=not nocopy)
        if r is v and not nocopy: r = copy_arr(I, v)
        if r is not v: r.tags = v.tags
    else: r = asarray(I, v, dt)
    nd = k.get("ndmin")
    if nd is not None and isinstance(nd, Num) and nd.c is not None and r.shape is not None and len(r.shape) < nd.c:
        r = mk(I, (L(1),) * (int(nd.c) - len(r.shape)) + r.shape, r.f, r.vid, FULL if nd.c == 2 else None)
    return r


FN["array"] = f_nparray


@fn("copy")
def f_copy(I, a, k):
    v = conv(I, a[0])
    if v is None: return I.unk("copy", *a)
    return copy_arr(I, v) if isinstance(v, Arr) else asarray(I, v)


@fn("diag", "diagflat")
def f_diag(I, a, k):
    v, kk = bind(a, k, ["v", "k"])
    v = conv(I, v)
    kk = int_arg(I, kk, L(0))
    if v is None or not isinstance(v, Arr) or v.shape is None or not isinstance(kk, Lin): return opaque(I, "diag", a, None, None, None, facts(v).dt if v is not None else None)
    if len(v.shape) == 1:
        s = I.bounds.ge0(kk)
        ak = kk if s is True else -kk if I.bounds.ge0(-kk) is True else None
        n = None if v.shape[0] is None or ak is None else v.shape[0] + ak
        ev = eye_vid(n, kk)
        aff = v.f.aff
        if aff is ANEU or aff == V0: aff = aff
        elif aff is not None and not isinstance(aff, Mix): aff = vmul(aff, ev)
        z = cval(v) is not None and not np.any(v.const)
        return mk(I, (n, n), v.f.with_(aff=aff), vmul(v.vid, ev), EMPTY if z else npm.Band(-kk, -kk, True))
    if len(v.shape) == 2:
        return diagonal(I, v, kk)
    I.raise_("ValueError", "Input must be 1- or 2-d.")


def diagonal(I, v, kk=L(0)):
    n = None
    r, c = v.shape[0], v.shape[1]
    if r is not None and c is not None and (r == c or I.bounds.eq0(r - c) is True):
        ak = kk if I.bounds.ge0(kk) is True else -kk if I.bounds.ge0(-kk) is True else None
        n = None if ak is None else r - ak
    # vmul(x, eye) -> x
    vid = vop("diagonal", v.vid, vlinform(kk))
    ev = eye_vid(n, kk)
    q = vdiv(v.vid, ev)
    if n is not None and ev not in vsubterms(q): vid = q
    aff = v.f.aff
    if aff is not None and not isinstance(aff, (Mix, type(ANEU))) and aff != V0:
        q = vdiv(aff, ev)
        aff = q if ev not in vsubterms(q) else None
    return mk(I, (n,), v.f.with_(aff=aff), vid)


@fn("diagonal")
def f_diagonal(I, a, k):
    v = conv(I, a[0])
    if v is None or not isinstance(v, Arr) or v.shape is None or len(v.shape) != 2: return opaque(I, "diagonal", a, (None,))
    kk = int_arg(I, bind(a, k, ["a", "offset"])[1], L(0))
    return diagonal(I, v, kk) if isinstance(kk, Lin) else opaque(I, "diagonal", a, (None,), v.f.unit)


def _tri(lower):
    def g(I, a, k):
        v, kk = bind(a, k, ["m", "k"])
        v = conv(I, v)
        kk = int_arg(I, kk, L(0))
        if v is None or not isinstance(v, Arr) or v.shape is None or not isinstance(kk, Lin): return opaque(I, "tril", a, None)
        b = npm.Band(-kk, None, True) if lower else npm.Band(None, -kk, True)
        aff = v.f.aff if v.f.aff in (V0, ANEU, None) or isinstance(v.f.aff, Mix) else None
        if len(v.shape) == 1: return mk(I, (v.shape[0], v.shape[0]), v.f.with_(aff=aff), vop("tril" if lower else "triu", v.vid, vlinform(kk)), b)
        nb = band_meet(I, v.band, b) if len(v.shape) == 2 else None
        return mk(I, v.shape, v.f.with_(aff=aff), vop("tril" if lower else "triu", v.vid, vlinform(kk)), nb)
    return g


FN["tril"], FN["triu"] = _tri(True), _tri(False)


def range_arr(I, n):
    return f_arange(I, [Num(lin=n)], {}) if n is not None else opaque(I, "arange", [], (None,), ONE, V0, "i")


@fn("diag_indices")
def f_diag_indices(I, a, k):
    n = dim_of(I, a[0])
    return Tup([range_arr(I, n), range_arr(I, n)])


@fn("diag_indices_from")
def f_diag_indices_from(I, a, k):
    v = conv(I, a[0])
    n = v.shape[0] if isinstance(v, Arr) and v.shape is not None and len(v.shape) == 2 else None
    return Tup([range_arr(I, n), range_arr(I, n)])


def _triidx(lower, frm):
    def g(I, a, k):
        if frm:
            v = conv(I, a[0]); n = v.shape[0] if isinstance(v, Arr) and v.shape else None
            kk = int_arg(I, bind(a, k, ["arr", "k"])[1], L(0))
        else:
            n = dim_of(I, a[0]); kk = int_arg(I, bind(a, k, ["n", "k"])[1], L(0))
        r = [mk(I, (None,), F(ONE, V0, "i"), vop("trilidx" if lower else "triuidx", vdim(n), vdim(kk) if isinstance(kk, Lin) else -1, i)) for i in (0, 1)]
        if isinstance(kk, Lin):
            b = npm.Band(-kk, None, True) if lower else npm.Band(None, -kk, True)
            for x in r: x.tags = frozenset(["tril"]); x.triband = b
        return Tup(r)
    return g


FN["tril_indices"], FN["triu_indices"] = _triidx(True, False), _triidx(False, False)
FN["tril_indices_from"], FN["triu_indices_from"] = _triidx(True, True), _triidx(False, True)


@fn("fill_diagonal")
def f_fill_diagonal(I, a, k):
    m, v = a[0], a[1]
    if not isinstance(m, Arr): return I.unk("fill_diagonal", *a)
    n = m.shape[0] if m.shape is not None and len(m.shape) == 2 else None
    idx = range_arr(I, n)
    if n is None:
        npm.arr_setitem(I, m, I.unk("diagonal index"), v)
    else: npm.arr_setitem(I, m, Tup([idx, idx]), v)
    return NONE


# ----------------------------------------------------------------------------- joining

def seqvals(I, v):
    """list of (count, value) of a sequence argument"""
    if isinstance(v, Arr):
        I.refresh(v)
        if v.shape is not None and len(v.shape) >= 1 and v.shape[0] is not None and v.shape[0].is_const and v.shape[0].c <= 32:
            return [I.getitem(v, Num(c=i)) for i in range(int(v.shape[0].c))]
        return None
    try: s = I.to_seq(v)
    except AbsRaise: return None
    return s.items


@fn("concatenate", "hstack", "append")
def f_concat(I, a, k): return None


def join_arrays(I, items, axis, name):
    """concatenate along an axis; items: arrays"""
    xs = []
    for x in items:
        x = conv(I, x)
        if x is None: return opaque(I, name, items, None)
        xs.append(x if isinstance(x, Arr) else asarray(I, x))
    if not xs: I.raise_("ValueError", "need at least one array to concatenate")
    if all(x.const is not None for x in xs):
        try: return mkconst(I, np.concatenate([x.const for x in xs], axis=axis))
        except ValueError as e: I.raise_("ValueError", str(e))
    f = None; site = I.site()
    for x in xs: f = x.f if f is None else fjoin(f, x.f, site, name)
    vid = vop("concat", axis, *[x.vid for x in xs])
    if any(x.shape is None for x in xs): return mk(I, None, f, vid)
    nd = {len(x.shape) for x in xs}
    if len(nd) > 1: I.raise_("ValueError", "all the input array dimensions must match")
    nd = nd.pop()
    if nd == 0: I.raise_("ValueError", "zero-dimensional arrays cannot be concatenated")
    ax = axis if axis >= 0 else nd + axis
    if not 0 <= ax < nd: I.raise_("AxisError" if "AxisError" in lib.BUILTIN_CLASSES else "ValueError", "axis out of bounds")
    dims = []
    for d in range(nd):
        if d == ax:
            t = L(0)
            for x in xs: t = None if t is None or x.shape[d] is None else t + x.shape[d]
            dims.append(t)
        else:
            t = None
            for x in xs:
                if t is None: t = x.shape[d]
                elif x.shape[d] is not None and I.bounds.eq0(t - x.shape[d]) is False:
                    I.raise_("ValueError", f"all the input array dimensions except for the concatenation axis must match exactly, but {t} and {x.shape[d]}")
            dims.append(t)
    segs = None
    if ax == 0 and nd == 1:
        segs = []
        for x in xs:
            s = segs_of(I, x)
            if s is None: segs = None; break
            segs += s
        if segs is not None: vid = npm.segs_vid(segs, vid)
    elif ax == 0:
        segs = []
        for x in xs:
            if x.segs is not None: segs += x.segs
            elif x.shape[0] == L(1): segs.append(Seg(L(1), basic_row(I, x)))
            else: segs = None; break
    band = None
    if nd == 2:
        # blocks placed side by side
        band = EMPTY; off = L(0)
        for x in xs:
            b = x.band or _unk
            d = None if off is None else (off if ax == 0 else -off)
            band = band_join(I, band, npm.shift_band(b, d) if not npm.band_empty(b) else b)
            off = None if off is None or x.shape[ax] is None else off + x.shape[ax]
        if any(not npm.band_empty(x.band or _unk) and (x.band or _unk).lo is None or (x.band or _unk).hi is None for x in xs): band = npm.Band(None, None, False)
    return mk(I, tuple(dims), f, vid, band, segs)


def basic_row(I, x):
    i0 = Ix("int", Num(c=0)); i0.lo = L(0); i0.vid = vconst(0)
    rest = []
    for d in x.shape[1:]:
        s = Ix("slice", SliceV(NONE, NONE, NONE)); s.lo, s.hi, s.st, s.n, s.full, s.vid = L(0), d, 1, d, True, vconst(":")
        rest.append(s)
    return basic_view(I, x, [i0] + rest)


def axis_arg(I, v, dflt=None):
    if v is None: return dflt
    if lib.is_none(v): return None
    if isinstance(v, Num) and v.c is not None: return int(v.c)
    return "?"


def _concat(I, a, k):
    v, ax = bind(a, k, ["arrays", "axis"])
    items = seqvals(I, v)
    ax = axis_arg(I, ax, 0)
    if items is None or ax == "?": return opaque(I, "concat", [v], None)
    if ax is None: items = [ravel(I, conv(I, x)) if conv(I, x) is not None else x for x in items]; ax = 0
    return join_arrays(I, items, ax, "concatenate")


FN["concatenate"] = FN["concat"] = _concat


@fn("hstack")
def f_hstack(I, a, k):
    items = seqvals(I, a[0])
    if items is None: return opaque(I, "hstack", a, None)
    xs = [at_least(I, x, 1) for x in items]
    if any(x is None or x.shape is None for x in xs): return opaque(I, "hstack", a, None)
    return join_arrays(I, xs, 0 if len(xs[0].shape) == 1 else 1, "hstack")


@fn("vstack", "row_stack")
def f_vstack(I, a, k):
    items = seqvals(I, a[0])
    if items is None: return opaque(I, "vstack", a, None)
    xs = [at_least(I, x, 2) for x in items]
    if any(x is None or x.shape is None for x in xs): return opaque(I, "vstack", a, None)
    return join_arrays(I, xs, 0, "vstack")


@fn("column_stack")
def f_colstack(I, a, k):
    items = seqvals(I, a[0])
    if items is None: return opaque(I, "column_stack", a, None)
    xs = []
    for x in items:
        x = at_least(I, x, 1)
        if x is None or x.shape is None: return opaque(I, "column_stack", a, None)
        if len(x.shape) == 1: x = mk(I, (x.shape[0], L(1)), x.f, vop("col", x.vid), FULL)
        xs.append(x)
    return join_arrays(I, xs, 1, "column_stack")


def at_least(I, x, n):
    x = conv(I, x)
    if x is None: return None
    if isinstance(x, Num): x = asarray(I, x)
    if x.shape is None: return x
    if len(x.shape) >= n: return x
    if n == 1:
        v = Num(c=float(x.const) if x.const is not None and x.f.dt == "f" else None, f=x.f, vid=x.vid, np=True)
        return mk(I, (L(1),), x.f, vop("at1", x.vid), None, [Seg(L(1), v)]) if x.const is None else mkconst(I, np.atleast_1d(x.const))
    if len(x.shape) == 0: x = at_least(I, x, 1)
    if x.const is not None: return mkconst(I, x.const[None, :])
    row = Arr(x.shape, x.f, x.vid, None, None, x.segs)
    return mk(I, (L(1),) + x.shape, x.f, vop("row", x.vid), FULL, [Seg(L(1), row)])


@fn("atleast_1d")
def f_al1(I, a, k):
    x = conv(I, a[0])
    if x is None: return I.unk("atleast_1d", *a)
    return x if isinstance(x, Arr) and x.shape is not None and len(x.shape) >= 1 else at_least(I, x, 1)


@fn("atleast_2d")
def f_al2(I, a, k):
    x = conv(I, a[0])
    if x is None: return I.unk("atleast_2d", *a)
    return x if isinstance(x, Arr) and x.shape is not None and len(x.shape) >= 2 else at_least(I, x, 2)


@fn("stack")
def f_stack(I, a, k):
    v, ax = bind(a, k, ["arrays", "axis"])
    ax = axis_arg(I, ax, 0)
    if ax == 0:
        return asarray(I, v, copy=True) if not isinstance(v, Arr) else copy_arr(I, v)
    items = seqvals(I, v)
    if items is None: return opaque(I, "stack", [v], None)
    xs = [conv(I, x) for x in items]
    f = None
    for x in xs:
        if x is None: return opaque(I, "stack", [v], None)
        f = x.f if f is None else fjoin(f, x.f, I.site(), "stack")
    sh = shp(xs[0])
    if sh is None or not isinstance(ax, int): return mk(I, None, f)
    n = len(sh) + 1
    p = ax if ax >= 0 else n + ax
    return mk(I, sh[:p] + (L(len(xs)),) + sh[p:], f, vop("stack", ax, *[x.vid for x in xs]), _unk if n == 2 else None)


@fn("append")
def f_append(I, a, k):
    x, v, ax = bind(a, k, ["arr", "values", "axis"])
    ax = axis_arg(I, ax, None)
    if ax is None:
        xs = []
        for y in (x, v):
            y = at_least(I, y, 1)
            if y is None: return opaque(I, "append", a, (None,))
            xs.append(ravel(I, y))
        return join_arrays(I, xs, 0, "append")
    if ax == "?": return opaque(I, "append", a, None)
    return join_arrays(I, [x, v], ax, "append")


def one_lin(I, v):
    return v.lin if isinstance(v, Num) else None


@fn("insert")
def f_insert(I, a, k):
    x0, pos, v, ax = bind(a, k, ["arr", "obj", "values", "axis"])
    x, v = conv(I, x0), conv(I, v)
    if x is None or isinstance(x, Num) or x.shape is None or v is None: return I.unk("insert", *a)
    ax = axis_arg(I, ax, None)
    if len(x.shape) == 1 and ax in (None, 0) and isinstance(pos, Num) and pos.lin is not None and (isinstance(v, Num) or v.shape is not None and len(v.shape) <= 1):
        v = at_least(I, v, 1)
        if v is not None and x.f.dt == "i" and v.f.dt != "i": v = astype(I, v, "i")
        if v is not None: return join_arrays(I, [I.getitem(x, SliceV(NONE, pos, NONE)), v, I.getitem(x, SliceV(pos, NONE, NONE))], 0, "insert")
    return npcall(I, "insert", a, k, (None,) if len(x.shape) == 1 else (None, None) if ax is not None and len(x.shape) == 2 else None, fjoin(x.f, v.f, I.site(), "insert"))


@fn("delete")
def f_delete(I, a, k):
    x, pos, ax = bind(a, k, ["arr", "obj", "axis"])
    x = conv(I, x)
    if x is None or isinstance(x, Num) or x.shape is None: return I.unk("delete", *a)
    ax = axis_arg(I, ax, None)
    nd = len(x.shape)
    if isinstance(pos, Num) and pos.c is not None and (nd == 1 and ax in (None, 0) or nd == 2 and ax in (0, 1, -1, -2)):
        d = (ax or 0) % nd
        full = SliceV(NONE, NONE, NONE)
        sl = lambda y: I.getitem(x, y) if nd == 1 else I.getitem(x, Tup([full] * d + [y]))
        n, p = x.shape[d], int(pos.c)
        if n is not None:
            out = I.bounds.ge0(n - p - 1 if p >= 0 else n + p)
            if out is False: I.raise_("IndexError", "index out of bounds for delete")
            if out is True:
                if p == 0: return copy_arr(I, sl(SliceV(Num(c=1), NONE, NONE)))
                if p == -1: return copy_arr(I, sl(SliceV(NONE, Num(c=-1), NONE)))
                return join_arrays(I, [sl(SliceV(NONE, Num(c=p), NONE)), sl(SliceV(Num(c=p + 1), NONE, NONE))], d, "delete")
    return npcall(I, "delete", a, k, (None,) * (1 if ax is None else nd), x.f)


@fn("repeat")
def f_repeat(I, a, k):
    x, r, ax = bind(a, k, ["a", "repeats", "axis"])
    x = conv(I, x)
    if x is None: return I.unk("repeat", *a)
    r2 = r.lin if isinstance(r, Num) else None
    if isinstance(x, Num):
        return mk(I, (r2,), x.f, vop("repeat", x.vid, r.vid), None, [Seg(r2, x)] if r2 is not None else None)
    ax = axis_arg(I, ax, None)
    sh = None
    if x.shape is not None and r2 is not None:
        if ax is None and len(x.shape) == 1 or ax == 0 and len(x.shape) == 1:
            sh = (None,)
            if r2.is_const and x.shape[0] is not None: sh = (x.shape[0].scale(r2.c),)
            elif x.shape[0] is not None: sh = (prod_sym(I, [x.shape[0], r2]),)
        elif ax is not None and -len(x.shape) <= ax < len(x.shape):
            d = x.shape[ax]
            if d is not None: d = r2 if d == L(1) else d.scale(r2.c) if r2.is_const else prod_sym(I, [d, r2])
            sh = list(x.shape); sh[ax] = d; sh = tuple(sh)
    return mk(I, sh, x.f.with_(deps=x.f.deps | r.deps), vop("repeat", x.vid, r.vid if r.vid is not None else -1, -99 if ax is None else ax))


@fn("tile")
def f_tile(I, a, k):
    x, r = bind(a, k, ["A", "reps"])
    x = conv(I, x)
    if x is None: return I.unk("tile", *a)
    if isinstance(r, Num) and isinstance(x, Num): return f_repeat(I, [x, r], {})
    sh = None
    if isinstance(x, Arr) and x.shape is not None:
        rs = shape_arg(I, r)
        if rs is not None and all(q is not None for q in rs):
            n = max(len(rs), len(x.shape))
            s1 = (L(1),) * (n - len(x.shape)) + x.shape; r1 = (L(1),) * (n - len(rs)) + rs
            sh = tuple(None if p is None else prod_sym(I, [p, q]) for p, q in zip(s1, r1))
    return mk(I, sh, x.f.with_(deps=x.f.deps | r.deps), vop("tile", x.vid, r.vid if r.vid is not None else -1), _unk if sh is not None and len(sh) == 2 else None)


# ----------------------------------------------------------------------------- shape manipulation

def ravel(I, x):
    if isinstance(x, Num): x = asarray(I, x)
    I.refresh(x)
    if x.shape is not None and len(x.shape) == 1: return x
    n = size_sym(I, x)
    c = x.const.ravel().copy() if x.const is not None else None
    if c is not None:
        r = mkconst(I, c, x.f)
    else:
        segs = None
        if x.shape == (): segs = [Seg(L(1), Num(f=x.f, vid=x.vid, np=True))]
        elif x.shape is not None and len(x.shape) == 2 and x.segs is not None and all(isinstance(s.val, Arr) and s.n == L(1) for s in x.segs):
            segs = []
            for s in x.segs:
                t = segs_of(I, s.val)
                if t is None: segs = None; break
                segs += t
        r = mk(I, (n,), x.f, vop("ravel", x.vid), None, segs)
    r.buf = x.buf; r.origin = x.origin; r.epoch = x.epoch
    def wback(I, base, view):
        put(I, base, view.f.with_(dt=base.f.dt), vop("unravel", view.vid, base.vid), _unk if base.ndim == 2 else None, None, None, "store through a view", view)
    def refr(base):
        q = ravel(I, base)
        return q
    r.view = (x, refr, wback); r.basever = x.ver
    return r


@fn("ravel")
def f_ravel(I, a, k):
    x, o = bind(a, k, ["a", "order"])
    x = conv(I, x)
    if x is None: return I.unk("ravel", *a)
    if o is not None and order_of(o) != "C":
        return ravel(I, transpose(I, x)) if order_of(o) == "F" and isinstance(x, Arr) else npcall(I, "ravel", a, k, None, x.f)
    return ravel(I, x)


def order_of(o):
    """memory order asked for: "C", "F" or None"""
    if o is None: return "C"
    if isinstance(o, Const) and o.v in ("C", "F"): return o.v
    return None


@fn("reshape")
def f_reshape(I, a, k):
    x, sh = bind(a, k, ["a", "newshape"])
    if sh is None: sh = k.get("shape")
    x = conv(I, x)
    if x is None: return I.unk("reshape", *a)
    o = a[2] if len(a) > 2 else k.get("order")
    return ordered_reshape(I, x if isinstance(x, Arr) else asarray(I, x), [sh], o)


def ordered_reshape(I, x, a, o):
    if order_of(o) == "C": return reshape(I, x, a)
    dims = I.to_seq(a[0]).items if len(a) == 1 and isinstance(a[0], (Tup, Lst)) else list(a)
    if order_of(o) == "F" and dims is not None: return transpose(I, reshape(I, transpose(I, x), [Tup(dims[::-1])]))
    return npcall(I, "reshape", [x, *a], {"order": o}, None, x.f)


def reshape(I, x, a):
    if len(a) == 1 and isinstance(a[0], (Tup, Lst)):
        it = I.to_seq(a[0]).items
        sh = None if it is None else tuple(dim_of2(I, y) for y in it)
    elif any(isinstance(y, (Unk, Arr)) for y in a): sh = None
    else: sh = tuple(dim_of2(I, y) for y in a)
    I.refresh(x)
    n = size_sym(I, x)
    if sh is not None:
        neg = [i for i, d in enumerate(sh) if d is not None and d == L(-1)]
        if len(neg) == 1:
            rest = [d for i, d in enumerate(sh) if i != neg[0]]
            q = None
            if n is not None and all(d is not None for d in rest):
                p = prod_sym(I, rest)
                if p == L(1): q = n
                elif p == n: q = L(1)
                elif p.is_const and p.c and n.is_const and n.c % p.c == 0: q = L(n.c // p.c)
                elif p.is_const and p.c: q = n.scale(Fraction(1) / p.c)
                else:
                    qs = [d for d in (x.shape or ()) if d is not None]
                    for d in qs:
                        if prod_sym(I, [p, d]) == n: q = d
            sh = sh[:neg[0]] + (q,) + sh[neg[0] + 1:]
        elif n is not None and all(d is not None for d in sh):
            p = prod_sym(I, list(sh))
            if I.bounds.eq0(p - n) is False: I.raise_("ValueError", f"cannot reshape array of size {n} into shape {sh}")
    c = None
    if x.const is not None and sh is not None and all(d is not None and d.is_const for d in sh):
        c = x.const.reshape(tuple(int(d.c) for d in sh)).copy()
    if sh is not None and len(sh) == 1 and x.shape is not None and len(x.shape) == 1: r = Arr(sh, x.f, x.vid, None, c, x.segs)
    else:
        b = None; segs = None
        if sh is not None and len(sh) == 2:
            b = _unk
            if x.shape is not None and len(x.shape) == 1 and (sh[0] == L(1) or sh[1] == L(1)): b = FULL
        if c is not None and c.ndim == 2: b = npm.const_band(c)
        if sh is not None and len(sh) == 2 and sh[0] == L(1) and x.shape is not None and len(x.shape) == 1: segs = [Seg(L(1), Arr(x.shape, x.f, x.vid, None, None, x.segs))]
        r = Arr(sh, x.f, x.vid if sh == x.shape else vop("reshape", x.vid, *([vdim(d) for d in sh] if sh is not None else [-1])), b, c, segs)
    r.buf = x.buf; r.origin = x.origin; r.epoch = x.epoch
    def refr(base): return reshape(I, base, a)
    def wback(I, base, view):
        put(I, base, view.f.with_(dt=base.f.dt), vop("unreshape", view.vid, base.vid), _unk if base.ndim == 2 else None, view.segs if base.ndim == 1 and view.ndim == 1 else None, None, "store through a view", view)
    r.view = (x, refr, wback); r.basever = x.ver
    return r


def dim_of2(I, v):
    if isinstance(v, Num) and v.lin is not None: return v.lin
    return dim_of(I, v)


def transpose(I, x, axes=None):
    I.refresh(x)
    if x.shape is None: sh = None
    elif axes is None: sh = tuple(reversed(x.shape))
    else: sh = None if any(i is None for i in axes) else tuple(x.shape[i] for i in axes)
    if x.shape is not None and len(x.shape) == 1: return x
    if axes is not None and None not in axes and x.shape is not None:
        axes = [i % len(x.shape) for i in axes]
        if axes == list(range(len(x.shape)))[::-1]: axes = None
    same = axes is not None and None not in axes and list(axes) == sorted(axes)
    b = None
    if sh is not None and len(sh) == 2: b = x.band or _unk; b = b if same or npm.band_empty(b) else npm.Band(None if b.hi is None else -b.hi, None if b.lo is None else -b.lo, b.tight)
    k = VN.rev[x.vid]
    vid = x.vid if same else k[2] if k[0] == "op" and k[1] == "T" and axes is None else vop("T", x.vid, *(() if axes is None else axes))
    r = Arr(sh, x.f, vid, b, None if x.const is None else np.transpose(x.const, axes).copy())
    r.buf = x.buf; r.origin = x.origin; r.epoch = x.epoch
    def refr(base): return transpose(I, base, axes)
    def wback(I, base, view):
        t = transpose(I, view, None if axes is None else list(np.argsort(axes)))
        put(I, base, t.f.with_(dt=base.f.dt), t.vid, t.band, None, t.const, "store through a view", view)
    r.view = (x, refr, wback); r.basever = x.ver
    return r


@fn("transpose", "permute_dims")
def f_transpose(I, a, k):
    x, ax = bind(a, k, ["a", "axes"])
    x = conv(I, x)
    if x is None or isinstance(x, Num): return x or I.unk("transpose", *a)
    axes = None
    if ax is not None and not lib.is_none(ax):
        it = I.to_seq(ax).items
        axes = [int(y.c) if isinstance(y, Num) and y.c is not None else None for y in it] if it is not None else [None]
    return transpose(I, x, axes)


def const_int(v): return int(v.c) if isinstance(v, Num) and v.c is not None and int(v.c) == v.c else None


@fn("swapaxes", "moveaxis", "rollaxis")
def f_swapaxes(I, a, k, name="swapaxes"):
    x, p, q = bind(a, k, ["a", "axis1" if name == "swapaxes" else "source" if name == "moveaxis" else "axis", "axis2" if name == "swapaxes" else "destination" if name == "moveaxis" else "start"])
    x = conv(I, x)
    if x is None or isinstance(x, Num) or x.shape is None: return I.unk(name, *a)
    p, q = const_int(p), 0 if q is None and name == "rollaxis" else const_int(q)
    if p is None or q is None: return npcall(I, name, a, k, None, x.f)
    try: perm = getattr(np, name)(np.empty(range(2, 2 + len(x.shape))), p, q).shape
    except Exception as e: I.raise_("ValueError", str(e))
    return transpose(I, x, [d - 2 for d in perm])


FN["moveaxis"] = lambda I, a, k: f_swapaxes(I, a, k, "moveaxis")
FN["rollaxis"] = lambda I, a, k: f_swapaxes(I, a, k, "rollaxis")


@fn("expand_dims")
def f_expand_dims(I, a, k):
    x, ax = bind(a, k, ["a", "axis"])
    x, ax = asarray(I, conv(I, x)) if conv(I, x) is not None else None, const_int(ax)
    if x is None or x.shape is None or ax is None: return I.unk("expand_dims", *a)
    nd = len(x.shape) + 1
    full = SliceV(NONE, NONE, NONE)
    return I.getitem(x, Tup([NONE if i == ax % nd else full for i in range(nd)]))


@fn("broadcast_to")
def f_broadcast_to(I, a, k):
    x, d = bind(a, k, ["array", "shape"])
    x = conv(I, x)
    if x is None: return I.unk("broadcast_to", *a)
    sh = shape_arg(I, d)
    r = npcall(I, "broadcast_to", [x, d], {}, sh, x.f)
    if sh == (): return x
    if isinstance(x, Num) and sh is not None and None not in sh: return fill_like(I, r, x)
    if isinstance(x, Arr) and x.shape is not None and sh is not None and len(sh) == len(x.shape) and all(p is not None and q is not None and I.bounds.eq0(p - q) for p, q in zip(sh, x.shape)): return I.getitem(x, Const(Ellipsis)) if x.shape else x
    return r


def fill_like(I, r, x):
    return call(I, "full", [Tup([Num(lin=d) for d in r.shape]), x], {})


@fn("roll")
def f_roll(I, a, k):
    x, s, ax = bind(a, k, ["a", "shift", "axis"])
    x = conv(I, x)
    if x is None or isinstance(x, Num) or x.shape is None: return I.unk("roll", *a)
    n, nd = const_int(s), len(x.shape)
    axn = axis_arg(I, ax, None)
    if n is not None and (nd == 1 and axn in (None, 0, -1) or nd == 2 and axn in (0, 1, -1, -2)):
        d = (axn or 0) % nd
        if n == 0: return copy_arr(I, x)
        if x.shape[d] is not None and I.bounds.ge0(x.shape[d] - abs(n)) is True:
            full = SliceV(NONE, NONE, NONE)
            sl = lambda y: I.getitem(x, y) if nd == 1 else I.getitem(x, Tup([full] * d + [y]))
            return join_arrays(I, [sl(SliceV(Num(c=-n), NONE, NONE)), sl(SliceV(NONE, Num(c=-n), NONE))], d, "roll")
    return npcall(I, "roll", a, k, x.shape, x.f)


@fn("rot90")
def f_rot90(I, a, k):
    x, n, ax = bind(a, k, ["m", "k", "axes"])
    x = conv(I, x)
    if x is None or isinstance(x, Num) or x.shape is None or len(x.shape) != 2: return I.unk("rot90", *a)
    n = 1 if n is None else const_int(n)
    if n is None or ax is not None: return npcall(I, "rot90", a, k, None, x.f)
    full = SliceV(NONE, NONE, NONE)
    n %= 4
    if n == 0: return x
    if n == 2: return I.getitem(x, Tup([_REVERSED, _REVERSED]))
    if n == 1: return transpose(I, I.getitem(x, Tup([full, _REVERSED])))
    return I.getitem(transpose(I, x), Tup([full, _REVERSED]))


@fn("pad")
def f_pad(I, a, k):
    x, w, mode = bind(a[:3], {y: z for y, z in k.items() if y in ("array", "pad_width", "mode")}, ["array", "pad_width", "mode"])
    x = conv(I, x)
    if x is None or isinstance(x, Num) or x.shape is None: return I.unk("pad", *a)
    nd = len(x.shape)
    cv = k.get("constant_values", Num(c=0))
    ok = (mode is None or isinstance(mode, Const) and mode.v == "constant") and isinstance(cv, Num) and set(k) <= {"array", "pad_width", "mode", "constant_values"}
    def pairs(w):
        if isinstance(w, Num): return [(w, w)] * nd
        it = I.to_seq(w).items if not isinstance(w, Arr) else None
        if it is None: return None
        if all(isinstance(y, Num) for y in it): return [tuple(it)] * nd if len(it) == 2 else [(it[0], it[0])] * nd if len(it) == 1 else None
        out = []
        for y in it:
            z = I.to_seq(y).items if not isinstance(y, (Arr, Num)) else None
            if z is None or len(z) != 2: return None
            out.append(tuple(z))
        return out if len(out) == nd else None
    ps = pairs(w) if ok else None
    f = fjoin(x.f, cv.f, I.site(), "pad") if isinstance(cv, Num) else x.f
    if ps is None: return npcall(I, "pad", a, k, None, f)
    for d, (lo, hi) in enumerate(ps):
        items = []
        for z in (lo, None, hi):
            if z is None: items.append(x); continue
            if z.c == 0: continue
            if z.lin is None: return npcall(I, "pad", a, k, None, f)
            items.append(call(I, "full", [Tup([z if i == d else Num(lin=y) if y is not None else z for i, y in enumerate(x.shape)]), cv if x.f.dt != "i" else astype(I, cv, "i")], {}))
        if len(items) > 1: x = join_arrays(I, items, d, "pad")
        if x.shape is None: return x
    return x


@fn("resize")
def f_resize(I, a, k): return npcall(I, "resize", a, k)


@fn("squeeze")
def f_squeeze(I, a, k):
    x = conv(I, a[0])
    if x is None or isinstance(x, Num): return x or I.unk("squeeze", *a)
    if x.shape is None or any(d is None for d in x.shape): return mk(I, None, x.f, vop("squeeze", x.vid))
    keep = []
    for i, d in enumerate(x.shape):
        e = I.bounds.eq0(d - 1)
        if e is None: return mk(I, None, x.f, vop("squeeze", x.vid))
        if not e: keep.append(d)
    if len(keep) == len(x.shape): return x
    r = mk(I, tuple(keep), x.f, vop("squeeze", x.vid), _unk if len(keep) == 2 else None)
    r.buf = x.buf; r.origin = x.origin; r.epoch = x.epoch
    return r


_REVERSED = SliceV(NONE, NONE, Num(c=-1))


@fn("flip")
def f_flip(I, a, k):
    x, ax = bind(a, k, ["m", "axis"])
    x = conv(I, x)
    if x is None or isinstance(x, Num): return x or I.unk("flip", *a)
    if x.shape is None: return I.unk("flip", *a)
    if ax is None or lib.is_none(ax): axs = range(len(x.shape))
    elif isinstance(ax, Num) and ax.c is not None: axs = [ax.c % len(x.shape)]
    else: return I.unk("flip", *a)
    return I.getitem(x, Tup([_REVERSED if i in axs else SliceV(NONE, NONE, NONE) for i in range(len(x.shape))]) if len(x.shape) > 1 else _REVERSED)


FN["flipud"] = lambda I, a, k: f_flip(I, [a[0], Num(c=0)], {})
FN["fliplr"] = lambda I, a, k: f_flip(I, [a[0], Num(c=1)], {})


@fn("take")
def f_take(I, a, k):
    x, i, ax = bind(a, k, ["a", "indices", "axis"])
    x = conv(I, x)
    if x is None or isinstance(x, Num) or x.shape is None: return I.unk("take", *a)
    if ax is None or lib.is_none(ax): return I.getitem(x, i) if len(x.shape) == 1 else I.unk("take", *a)
    if not isinstance(ax, Num) or ax.c is None: return I.unk("take", *a)
    full = SliceV(NONE, NONE, NONE)
    return I.getitem(x, Tup([full] * (ax.c % len(x.shape)) + [i]))


@fn("broadcast_arrays")
def f_broadcast_arrays(I, a, k):
    xs = [conv(I, x) for x in a]
    if any(x is None for x in xs): return I.unk("broadcast_arrays", *a)
    sh = ()
    for x in xs: sh = bshape(I, sh, shp(x)) if sh is not None else None
    if sh is None: return I.unk("broadcast_arrays", *a)
    return Tup([FN["broadcast_to"](I, [x, Tup([Num(lin=d) for d in sh])], {}) for x in xs])


# ----------------------------------------------------------------------------- reductions

def reduce_(I, name, v, axis, keepdims, f, vid=None):
    """shape of a reduction"""
    vid = vid if vid is not None else vop(name, v.vid, axis if axis is not None else -99)
    if keepdims and isinstance(v, Arr) and v.shape is not None and isinstance(axis, int) and -len(v.shape) <= axis < len(v.shape):
        r = reduce_(I, name, v, axis, False, f, vid)
        if len(v.shape) == 1: return at_least(I, r, 1)
        full = SliceV(NONE, NONE, NONE)
        return I.getitem(r, Tup([NONE if i == axis % len(v.shape) else full for i in range(len(v.shape))]))
    if keepdims: vid = vop("keepdims", vid)
    if isinstance(v, Num): return Num(f=f, vid=vid, np=True)
    if v.shape is None and axis is not None: return mk(I, None, f, vid)
    if axis is None and not keepdims: return Num(f=f, vid=vid, np=True)
    if axis == "?" or v.shape is None: return mk(I, None, f, vid)
    nd = len(v.shape)
    axs = [axis] if isinstance(axis, int) else list(range(nd)) if axis is None else list(axis)
    for x in axs:
        if not -nd <= x < nd: I.raise_("ValueError", f"axis {x} is out of bounds for array of dimension {nd}")
    axs = {x % nd for x in axs}
    sh = tuple((L(1) if i in axs else d) for i, d in enumerate(v.shape) if keepdims or i not in axs)
    if sh == (): return Num(f=f, vid=vid, np=True)
    return mk(I, sh, f, vid, _unk if len(sh) == 2 else None)


def _red(name, uf, af, dtf=None, names=("a", "axis", "dtype"), nonempty=False, fold_op=None):
    def g(I, a, k):
        vals = bind(a, k, list(names))
        v = conv(I, vals[0])
        ax = axis_arg(I, vals[1] if len(vals) > 1 else None, None)
        if len(vals) > 1 and isinstance(vals[1], Tup): ax = tuple(int(x.c) for x in vals[1].items if isinstance(x, Num) and x.c is not None)
        kd = "keepdims" in k and I.truth(k["keepdims"])
        if v is None: return I.unk(name, *a)
        site = I.site()
        dt = dtf(v.f.dt) if dtf else v.f.dt
        f = F(uf(I, v, site), af(I, v, site), dt, v.f.deps)
        for n in ("where", "initial"):
            if n in k: f = F(None, None, f.dt, f.deps | k[n].deps)
        if nonempty and isinstance(v, Arr) and v.shape is not None and len(v.shape) == 1 and v.shape[0] is not None and I.bounds.eq0(v.shape[0]) is True:
            I.raise_("ValueError", "zero-size array to reduction operation which has no identity")
        # exact folding of short 1-D segmented arrays
        if fold_op is not None and isinstance(v, Arr) and v.ndim == 1 and v.segs is not None and not kd and "where" not in k and "initial" not in k \
                and all(s.n is not None and s.n.is_const and isinstance(s.val, Num) for s in v.segs) and sum(int(s.n.c) for s in v.segs) <= 16:
            r = None
            for s in v.segs:
                for _ in range(int(s.n.c)):
                    r = s.val if r is None else num_binop(I, fold_op, r, s.val)
            if r is not None: return r
        extra = [k[n] for n in ("where", "initial") if n in k]
        vid = vop(name + "_opt", v.vid, ax if ax is not None else -99, *[x.vid if x.vid is not None else -1 for x in extra]) if extra else None
        return reduce_(I, name, v, ax, kd, f, vid)
    FN[name] = g
    return g


def r_same(I, v, s): return v.f.unit
def r_sumaff(I, v, s):
    a = v.f.aff
    if a is ANEU: return V0
    if a == V0 or isinstance(a, Mix): return a
    # a sum of finitely many terms that all move moves with their number
    return None
def r_meanaff(I, v, s):
    a = v.f.aff
    if a is ANEU: return V0
    if a is None or isinstance(a, Mix): return a
    return a if visconst(a) is not None else None
def r_produnit(I, v, s):
    u = v.f.unit
    if u is ANY or u is None or u == ONE or isinstance(u, Mix): return u
    n = size_sym(I, v) if isinstance(v, Arr) else L(1)
    return upow(u, n.c) if n is not None and n.is_const else None
def r_nlaff(what): return lambda I, v, s: afun(v.f.aff, s, what) if not (v.f.aff is not None and not isinstance(v.f.aff, (Mix, type(ANEU))) and visconst(v.f.aff) is None) else None
def d_sum(d): return "i" if d == "b" else d


_red("sum", r_same, r_sumaff, d_sum, fold_op="Add"); FN["nansum"] = FN["sum"]
_red("mean", r_same, r_meanaff, lambda d: "c" if d == "c" else "f"); FN["nanmean"] = FN["mean"]
_red("median", r_same, r_meanaff, lambda d: "f")
_red("prod", r_produnit, r_nlaff("product"), d_sum, fold_op="Mult"); FN["nanprod"] = FN["prod"]
_red("ptp", r_same, lambda I, v, s: V0 if v.f.aff is not None and not isinstance(v.f.aff, Mix) and (v.f.aff is ANEU or visconst(v.f.aff) is not None) else v.f.aff if isinstance(v.f.aff, Mix) else None)
_red("std", r_same, lambda I, v, s: V0 if v.f.aff is not None and not isinstance(v.f.aff, (Mix, type(ANEU))) and visconst(v.f.aff) is not None else None, lambda d: "f")
_red("var", lambda I, v, s: upow(v.f.unit, 2), lambda I, v, s: None, lambda d: "f")
for _n in ("any", "all"): _red(_n, lambda I, v, s: v.f.unit if isinstance(v.f.unit, Mix) else ONE, lambda I, v, s: v.f.aff if isinstance(v.f.aff, Mix) else V0, lambda d: "b", ("a", "axis"))
for _n in ("argmin", "argmax"): _red(_n, lambda I, v, s: v.f.unit if isinstance(v.f.unit, Mix) else ONE, lambda I, v, s: v.f.aff if isinstance(v.f.aff, Mix) else V0 if v.f.aff is not None and (v.f.aff is ANEU or visconst(v.f.aff) is not None) else None, lambda d: "i", ("a", "axis"), True)
for _n in ("max", "min"):
    _red(_n, r_same, r_meanaff, None, ("a", "axis"), True)
    FN["a" + _n] = FN[_n]; FN["nan" + _n] = FN[_n]
_red("count_nonzero", lambda I, v, s: v.f.unit if isinstance(v.f.unit, Mix) else ONE, lambda I, v, s: v.f.aff if isinstance(v.f.aff, Mix) else V0 if v.f.aff in (V0, ANEU) else None, lambda d: "i", ("a", "axis"))


@fn("size")
def f_size(I, a, k):
    v = conv(I, a[0])
    if v is None: return I.unk("size", *a)
    if isinstance(v, Num): return Num(c=1)
    ax = axis_arg(I, bind(a, k, ["a", "axis"])[1], None)
    if isinstance(ax, int) and v.shape is not None and -len(v.shape) <= ax < len(v.shape): n = v.shape[ax]
    else: n = size_sym(I, v)
    return Num(lin=n) if n is not None else Num(f=F(ONE, V0, "i", v.deps), vid=vop("size", v.vid))


@fn("shape")
def f_shape(I, a, k):
    v = conv(I, a[0])
    if v is None: return I.unk("shape", *a)
    return arr_attr(I, v, "shape") if isinstance(v, Arr) else Tup([])


@fn("ndim")
def f_ndim(I, a, k):
    v = conv(I, a[0])
    if v is None: return I.unk("ndim", *a)
    if isinstance(v, Num): return Num(c=0)
    return Num(c=len(v.shape)) if v.shape is not None else I.unk("ndim", *a)


def _cum(name, unitf, afff):
    def g(I, a, k):
        v, ax = bind(a, k, ["a", "axis"])
        v = conv(I, v)
        if v is None: return I.unk(name, *a)
        if isinstance(v, Num): v = at_least(I, v, 1)
        ax = axis_arg(I, ax, None)
        sh = v.shape
        if sh is not None and len(sh) > 1 and ax is None: sh = (size_sym(I, v),)
        site = I.site()
        return mk(I, sh, F(unitf(v), afff(v, site), d_sum(v.f.dt), v.f.deps), vop(name, v.vid, ax if isinstance(ax, int) else -99), _unk if sh is not None and len(sh) == 2 else None)
    FN[name] = g


_cum("cumsum", lambda v: v.f.unit, lambda v, s: V0 if v.f.aff in (V0, ANEU) else v.f.aff if isinstance(v.f.aff, Mix) else None)
_cum("cumprod", lambda v: v.f.unit if v.f.unit in (ONE, ANY) or isinstance(v.f.unit, Mix) else None, lambda v, s: afun(v.f.aff, s, "cumulative product") if v.f.aff in (V0, ANEU) or v.f.aff is None or isinstance(v.f.aff, Mix) else None)


@fn("ediff1d")
def f_ediff1d(I, a, k): return f_diff(I, a, {("a" if q == "ary" else q): x for q, x in k.items()}, True)


@fn("diff")
def f_diff(I, a, k, ediff=False):
    if not a and "a" in k: a = [k.pop("a")]
    v = conv(I, a[0])
    if v is None: return I.unk("diff", *a)
    n = bind(a, k, ["a", "n"])[1]
    o = (bind(a, k, ["a", "n", "axis", "prepend", "append"]) if not ediff
         else [None, None, None, k.get("to_begin", a[2] if len(a) > 2 else None), k.get("to_end", a[1] if len(a) > 1 else None)])
    if (len(a) > 1 or k) and isinstance(v, Arr) and v.shape is not None and len(v.shape) and (o[1] is None or (isinstance(o[1], Num) and o[1].c == 1)):
        nd = len(v.shape)
        ax = -1 if o[2] is None else o[2].c if isinstance(o[2], Num) else None
        if ax is not None and -nd <= ax < nd and (not ediff or nd == 1) and not any(isinstance(x, Const) and x.v is not None for x in o[3:]):
            ax %= nd
            nopad = lambda x: x is None or isinstance(x, Const)
            pads = []
            for x in o[3:]:
                x = None if nopad(x) else conv(I, x)
                if isinstance(x, Num) or (isinstance(x, Arr) and x.shape == ()):
                    x = call(I, "full", [Tup([Num(lin=L(1)) if d == ax else Num(lin=n_) for d, n_ in enumerate(v.shape)]), x], {}) if None not in v.shape else None
                pads.append(x)
            if not any(x is None and not nopad(q) for x, q in zip(pads, o[3:])):
                if ediff:
                    xs = [x for x in (pads[0], f_diff(I, [v], {}), pads[1]) if x is not None]
                    return join_arrays(I, xs, 0, "concatenate")
                x = join_arrays(I, [x for x in (pads[0], v, pads[1]) if x is not None], ax, "concatenate") if any(x is not None for x in pads) else v
                if isinstance(x, Arr) and x.shape is not None and x.shape[ax] is not None:
                    n_ = x.shape[ax]
                    full = SliceV(NONE, NONE, NONE)
                    hi = I.getitem(x, Tup([full] * ax + [SliceV(Num(c=1), NONE, NONE)]))
                    lo = I.getitem(x, Tup([full] * ax + [SliceV(NONE, Num(c=-1), NONE)]))
                    return I.binop("Sub", hi, lo)
    if len(a) > 1 or k:
        x = v
        return opaque(I, "diff", [*a, *k.values()], None, v.f.unit if not k else None, None, v.f.dt)
    if not isinstance(v, Arr): return opaque(I, "diff", a, None)
    aff = v.f.aff
    aff = V0 if aff is not None and not isinstance(aff, Mix) and (aff is ANEU or visconst(aff) is not None) else aff if isinstance(aff, Mix) else None
    f = F(v.f.unit, aff, v.f.dt, v.f.deps)
    sh = None
    if v.shape is not None and len(v.shape) == 1:
        sh = (None if v.shape[0] is None else v.shape[0] - 1,)
        if v.segs is not None and all(s.n is not None and s.n.is_const and s.n.c == 1 for s in v.segs):
            vs = [s.val for s in v.segs]
            return mk(I, sh, f, vop("diff", v.vid), None, [Seg(L(1), num_binop(I, "Sub", y, x)) for x, y in zip(vs, vs[1:])])
    return mk(I, sh, f, vop("diff", v.vid))


_ARG_SHAPE = {"gradient": 0, "unwrap": 0, "interp": 0, "digitize": 0, "polyval": 1, "polynomial.polynomial.polyval": 0, "polynomial.legendre.legval": 0, "polynomial.chebyshev.chebval": 0, "partition": 0, "argpartition": 0}


def _named(name):
    def g(I, a, k):
        sh = None
        if name in _ARG_SHAPE and len(a) > _ARG_SHAPE[name] and (not k or name == "interp") and not (name == "gradient" and len(a) > 2):
            x = conv(I, a[_ARG_SHAPE[name]])
            if x is not None and (name in ("interp", "unwrap", "digitize", "polyval") or isinstance(x, Num) or x.shape is not None and len(x.shape) == 1): sh = shp(x)
            if name.startswith("polynomial") or name == "polyval":
                c = conv(I, a[1 - _ARG_SHAPE[name]])
                if c is None or isinstance(c, Num) or c.shape is None or len(c.shape) != 1: sh = None
        return npcall(I, name, a, k, sh)
    FN[name] = g


@fn("block")
def f_block(I, a, k):
    def blk(v, depth):
        if isinstance(v, (Lst, Tup)):
            it = I.to_seq(v).items
            if not it: return None, 0
            rs = [blk(x, depth + 1) for x in it]
            if any(x[0] is None for x in rs) or len({d for _, d in rs}) > 1: return None, 0
            d = rs[0][1] + 1
            if d > 2: return None, 0
            xs = [at_least(I, x, d if d == 1 else 2) for x, _ in rs]
            if any(x is None or x.shape is None for x in xs): return None, 0
            nd = max(len(x.shape) for x in xs)
            if nd > 2 or any(len(x.shape) != nd for x in xs): return None, 0
            if d == 2 and nd == 1: return None, 0
            return join_arrays(I, xs, -1 if d == 1 else -2, "block"), d
        return conv(I, v), 0
    r, d = blk(a[0], 0)
    if r is None: return I.unk("block", *a)
    return r


@fn("split")
def f_split(I, a, k):
    x, n, ax = bind(a, k, ["ary", "indices_or_sections", "axis"])
    x = conv(I, x)
    n, ax = const_int(n), axis_arg(I, ax, 0)
    if x is None or isinstance(x, Num) or x.shape is None or n is None or ax == "?" or not 0 <= ax < len(x.shape) or x.shape[ax] is None or not x.shape[ax].is_const: return I.unk("split", *a)
    d = int(x.shape[ax].c)
    if d % n: I.raise_("ValueError", "array split does not result in an equal division")
    full = SliceV(NONE, NONE, NONE)
    return fresh_lst(I, [I.getitem(x, Tup([full] * ax + [SliceV(Num(c=i * d // n), Num(c=(i + 1) * d // n), NONE)])) for i in range(n)])


def fresh_lst(I, xs): return lib.fresh_list(I, [Seg(L(1), x) for x in xs])


for _n in ("gradient", "trapz", "trapezoid", "interp", "convolve", "polyfit", "polyval", "histogram", "cov", "corrcoef", "percentile", "quantile", "nanpercentile", "nanquantile", "average", "cross", "kron",
           "select", "choose", "piecewise", "compress", "extract", "take_along_axis", "partition", "argpartition", "bincount", "poly", "polyder", "polyint", "polymul", "polyadd", "polysub", "roots", "digitize", "unwrap", "dstack", "ldexp", "correlate",
           "linalg.cond", "linalg.matrix_rank", "linalg.cholesky", "linalg.pinv", "linalg.eigvals_", "linalg.tensorsolve", "polynomial.polynomial.polyval", "polynomial.legendre.legval", "polynomial.chebyshev.chebval",
           "polynomial.legendre.legder", "polynomial.legendre.legint", "polynomial.polynomial.polyder", "polynomial.polynomial.polyint", "polynomial.legendre.legvander", "polynomial.chebyshev.chebvander", "polynomial.polynomial.polyvander",
           "polynomial.polynomial.polyfromroots", "polynomial.polynomial.polyroots", "polynomial.polynomial.polymul", "tensordot"):
    if _n not in FN: _named(_n)


# ----------------------------------------------------------------------------- sorting / sets / searching

@fn("sort")
def f_sort(I, a, k):
    v = conv(I, a[0])
    if v is None: return I.unk("sort", *a)
    if not isinstance(v, Arr): return v
    ax = bind(a, {y: z for y, z in k.items() if y in ("a", "axis")}, ["a", "axis"])[1]
    ax = axis_arg(I, ax, -1)
    nd = None if v.shape is None else len(v.shape)
    if nd == 1 and ax in (-1, 0, None) or ax == -1: pass
    elif nd is not None and ax == nd - 1: pass
    elif nd == 2 and ax == 0: return transpose(I, f_sort(I, [transpose(I, v)], {}))
    elif nd == 2 and ax is None: return f_sort(I, [ravel(I, v)], {})
    else: return npcall(I, "sort", a, k, v.shape, v.f)
    kk = VN.rev[v.vid]
    vid = v.vid if kk[0] == "op" and kk[1] in ("sort", "unique", "setdiff1d", "union1d", "intersect1d") else vop("sort", v.vid)
    return mk(I, v.shape, v.f, vid, _unk if v.ndim == 2 else None)


@fn("lexsort")
def f_lexsort(I, a, k): return npcall(I, "lexsort", a, k, (None,))


@fn("argsort")
def f_argsort(I, a, k):
    v = conv(I, a[0])
    if v is None: return I.unk("argsort", *a)
    k2 = VN.rev[v.vid]
    vid = vop("argsort", v.vid)
    u = v.f.unit if isinstance(v.f.unit, Mix) else ONE
    return mk(I, shp(v), F(u, v.f.aff if isinstance(v.f.aff, Mix) else V0, "i", v.f.deps), vid)


@fn("searchsorted")
def f_searchsorted(I, a, k):
    x, y = conv(I, a[0]), conv(I, a[1])
    if x is None or y is None: return I.unk("searchsorted", *a)
    f = npm.cmp_facts(I, "Lt", x, y).with_(dt="i")
    return opaque(I, "searchsorted", a, shp(y), f.unit, f.aff, "i")


@fn("unique")
def f_unique(I, a, k):
    v = conv(I, a[0])
    if v is None: return I.unk("unique", *a)
    def flag(n):
        return n in k and I.truth(k[n])
    n = size_sym(I, v) if isinstance(v, Arr) else L(1)
    name = None
    if n is not None: name = f"nu({n})" if VN.rev[v.vid][:2] == ("atom", "points") else f"nu({n}|{v.vid})"     # number of different values of this very array
    m = None
    if n is not None:
        if name not in I.bounds.b:
            I.bounds.declare(name, 0, n)
            if I.bounds.ge0(n - 1) is True: I.bounds.add(name, lo=L(1))
        m = Sym(name)
        if n == L(1): m = L(1)
    I.event("unique", n=n, value=v)
    u = mk(I, (m,), v.f, vop("unique", v.vid))
    out = [u]
    if len(a) > 1: return I.unk("unique", *a)
    if flag("return_index"): out.append(mk(I, (m,), F(ONE, V0, "i", v.f.deps), vop("unique_index", v.vid)))
    if flag("return_inverse"):
        r = mk(I, v.shape if isinstance(v, Arr) else (L(1),), F(ONE, V0, "i", v.f.deps), vop("unique_inv", v.vid))
        r.tags = frozenset(["unique_inv"]); out.append(r)
    if flag("return_counts"): out.append(mk(I, (m,), F(ONE, V0, "i", v.f.deps), vop("unique_counts", v.vid)))
    return out[0] if len(out) == 1 else Tup(out)


@fn("setdiff1d")
def f_setdiff(I, a, k, name="setdiff1d"):
    x, y = conv(I, a[0]), conv(I, a[1])
    if x is None or y is None: return I.unk("setdiff1d", *a)
    f = x.f.with_(deps=x.f.deps | y.f.deps) if name != "union1d" else fjoin(x.f, y.f, I.site(), name)
    cf = npm.cmp_facts(I, "Eq", x, y)
    if isinstance(cf.unit, Mix): f.unit = cf.unit
    if k or len(a) > 2: return npcall(I, name, a, k, None, f)
    return mk(I, (None,), f, vop(name, x.vid, y.vid))


FN["intersect1d"] = lambda I, a, k: f_setdiff(I, a, k, "intersect1d")
FN["union1d"] = lambda I, a, k: f_setdiff(I, a, k, "union1d")


@fn("isin", "in1d")
def f_isin(I, a, k):
    x, y = conv(I, a[0]), conv(I, a[1])
    if x is None or y is None: return I.unk("isin", *a)
    f = npm.cmp_facts(I, "Eq", x, y)
    return mk(I, shp(x), f, vop("isin", x.vid, y.vid)) if shp(x) != () else Num(f=f, vid=vop("isin", x.vid, y.vid), np=True)


def closeness(I, name, a, k):
    x, y, rtol, atol = bind(a, k, ["a", "b", "rtol", "atol"])
    x, y = conv(I, x), conv(I, y)
    if x is None or y is None: return None
    site = I.site()
    f = npm.cmp_facts(I, "Eq", x, y)
    u = f.unit; aff = f.aff
    ju = ujoin(x.f.unit, y.f.unit)
    rt = rtol.c if isinstance(rtol, Num) and rtol.c is not None else 1e-5 if rtol is None else None
    at = atol.c if isinstance(atol, Num) and atol.c is not None else 1e-8 if atol is None else None
    if not isinstance(u, Mix) and ju not in (ONE, ANY, None) and not isinstance(ju, Mix):
        # an absolute tolerance without dimension compared with a dimensional quantity
        if at is not None and at != 0:
            u = Mix(site, f"{name} compares quantities of dimension [{ushow(ju)}] with an absolute tolerance")
        elif atol is not None and at is None and isinstance(atol, Num):
            q = ujoin(atol.f.unit, ju, site, "tolerance")
            if isinstance(q, Mix): u = q
    if not isinstance(aff, Mix) and rt not in (0, 0.0) and rt is not None:
        for z in (x, y):
            w = z.f.aff
            if w is not None and not isinstance(w, Mix) and w is not ANEU and visconst(w) not in (None, 0):
                aff = Mix(site, f"{name} compares time points with a relative tolerance")
    extra = []
    if rtol is not None or atol is not None:
        extra = [(z if isinstance(z, Num) else Num(c=d)).vid for z, d in ((rtol, 1e-5), (atol, 1e-8))]
        if None in extra: extra = [vop("tolerance", *[e for e in extra if e is not None])]
    return x, y, F(u, aff, "b", f.deps | (atol.deps if atol is not None else frozenset())), extra


@fn("allclose", "array_equal", "array_equiv")
def f_allclose(I, a, k):
    if len(a) < 2: return I.unk("allclose", *a)
    x, y = conv(I, a[0]), conv(I, a[1])
    if x is not None and y is not None and isinstance(x, Arr) and isinstance(y, Arr) and x.vid == y.vid and shp(x) == shp(y):
        return Num(c=True, np=True, f=fconst(True).with_(deps=x.deps | y.deps))
    r = closeness(I, "allclose", a, k)
    if r is None: return I.unk("allclose", *a)
    x, y, f, extra = r
    if shp(x) is not None and shp(y) is not None: bshape(I, shp(x), shp(y))
    return Num(f=f, vid=vop("allclose", x.vid, y.vid, *extra), cond=("cmp",), np=True)


FN["array_equal"] = lambda I, a, k: _array_equal(I, a, k)


def _array_equal(I, a, k):
    x, y = conv(I, a[0]), conv(I, a[1])
    if x is None or y is None: return I.unk("array_equal", *a)
    if x.vid == y.vid and shp(x) == shp(y): return Num(c=True, np=True, f=fconst(True).with_(deps=x.deps | y.deps))
    sx, sy = shp(x), shp(y)
    if sx is not None and sy is not None and (len(sx) != len(sy) or any(p is not None and q is not None and I.bounds.eq0(p - q) is False for p, q in zip(sx, sy))):
        return Num(c=False, np=True, f=fconst(False).with_(deps=x.deps | y.deps))
    f = npm.cmp_facts(I, "Eq", x, y)
    return Num(f=f, vid=vop("array_equal", x.vid, y.vid), cond=("cmp",), np=True)


@fn("isclose")
def f_isclose(I, a, k):
    if len(a) < 2: return I.unk("isclose", *a)
    if "rel_tol" in k or "abs_tol" in k:
        k = dict(k)
        k["rtol"] = k.pop("rel_tol", Num(c=1e-9)); k["atol"] = k.pop("abs_tol", Num(c=0.0))
    r = closeness(I, "isclose", a, k)
    if r is None: return I.unk("isclose", *a)
    x, y, f, extra = r
    sh = bshape(I, shp(x), shp(y)) if shp(x) is not None and shp(y) is not None else None
    if sh == (): return Num(f=f, vid=vop("isclose", x.vid, y.vid, *extra), cond=("cmp",), np=True)
    return mk(I, sh, f, vop("isclose", x.vid, y.vid, *extra), _unk if sh is not None and len(sh) == 2 else None)


# ----------------------------------------------------------------------------- linear algebra

def v0(a): return a is ANEU or a == V0


def eqdim(I, p, q, msg):
    if p is not None and q is not None and I.bounds.eq0(p - q) is False: I.raise_("ValueError", f"{msg} ({p} is different from {q})")


def mulfacts(I, a, b, unitsign=1):
    u = umul(a.f.unit, b.f.unit, unitsign)
    aff = None
    if isinstance(a.f.aff, Mix): aff = a.f.aff
    elif isinstance(b.f.aff, Mix): aff = b.f.aff
    elif a.f.aff is not None and b.f.aff is not None and v0(a.f.aff) and v0(b.f.aff): aff = V0
    return F(u, aff, dtjoin(a.f.dt, b.f.dt), a.f.deps | b.f.deps)


def matmul(I, a, b):
    a, b = conv(I, a), conv(I, b)
    if a is None or b is None: return I.unk("matmul", a, b)
    if isinstance(a, Num) or isinstance(b, Num): I.raise_("ValueError", "matmul: Input operand does not have enough dimensions")
    f = mulfacts(I, a, b)
    if a.const is not None and b.const is not None:
        try: r = from_np(I, a.const @ b.const)
        except ValueError as e: I.raise_("ValueError", str(e))
        r.f = r.f.with_(deps=f.deps)
        return r
    vid = vop("matmul", a.vid, b.vid)
    for x, y in ((a, b), (b, a)):
        # multiplication with the identity
        k = VN.rev[x.vid]
        if k[0] == "op" and k[1] == "eye" and k[3] == V0: vid = y.vid
    if a.shape is None or b.shape is None: return mk(I, None, f, vid)
    if not a.shape or not b.shape: I.raise_("ValueError", "matmul: Input operand does not have enough dimensions")
    eqdim(I, a.shape[-1], b.shape[-2] if len(b.shape) > 1 else b.shape[0], "matmul: Input operand 1 has a mismatch in its core dimension 0")
    if len(a.shape) == 1 and len(b.shape) == 1: return Num(f=f, vid=vid, np=True)
    if len(a.shape) == 1: return mk(I, b.shape[:-2] + b.shape[-1:], f, vid)
    if len(b.shape) == 1: return mk(I, a.shape[:-1], f, vid)
    lead = bshape(I, a.shape[:-2], b.shape[:-2])
    sh = lead + (a.shape[-2], b.shape[-1])
    band = None
    if len(sh) == 2: band = band_mul(a.band or _unk, b.band or _unk)
    return mk(I, sh, f, vid, band)


def band_mul(a, b):
    if npm.band_empty(a) or npm.band_empty(b): return EMPTY
    lo = None if a.lo is None or b.lo is None else a.lo + b.lo
    hi = None if a.hi is None or b.hi is None else a.hi + b.hi
    diag = lambda x: x.lo is not None and x.hi is not None and x.lo == x.hi
    return npm.Band(lo, hi, a.tight and b.tight and (diag(a) or diag(b)))


@fn("matmul")
def f_matmul(I, a, k): return matmul(I, a[0], a[1])


@fn("dot")
def f_dot(I, a, k):
    x, y = conv(I, a[0]), conv(I, a[1])
    if x is None or y is None: return I.unk("dot", *a)
    if isinstance(x, Num) or isinstance(y, Num) or x.shape == () or y.shape == (): return binop(I, "Mult", x, y)
    return matmul(I, x, y)


@fn("inner", "vdot", "tensordot")
def f_inner(I, a, k, name="inner"):
    x, y = conv(I, a[0]), conv(I, a[1])
    if x is None or y is None: return opaque(I, name, [*a, *k.values()], None)
    if isinstance(x, Num) or isinstance(y, Num): return binop(I, "Mult", x, y) if name != "tensordot" else npcall(I, name, a, k)
    f = mulfacts(I, x, y)
    if x.shape is None or y.shape is None: return npcall(I, name, a, k, None, f)
    nx, ny = len(x.shape), len(y.shape)
    if name == "inner" and nx <= 2 and 1 <= ny <= 2 and nx: return matmul(I, x, transpose(I, y) if ny == 2 else y)
    if name == "vdot" and nx == 1 and ny == 1: return matmul(I, x if x.f.dt not in ("c", None) else call(I, "conj", [x], {}), y)
    if name == "tensordot" and 1 <= nx <= 2 and 1 <= ny <= 2:
        ax = a[2] if len(a) > 2 else k.get("axes", Num(c=2))
        if isinstance(ax, Num) and ax.c == 1: return matmul(I, x, y)
        it = I.to_seq(ax).items if not isinstance(ax, (Num, Arr)) else None
        if it is not None and len(it) == 2:
            pq = []
            for z in it:
                if not isinstance(z, Num):
                    z = I.to_seq(z).items
                    z = z[0] if z is not None and len(z) == 1 else None
                pq.append(const_int(z))
            if None not in pq:
                p, q = pq
                if nx == 2 and p % 2 == 0: x = transpose(I, x)
                if ny == 2 and q % 2 == 1: y = transpose(I, y)
                return matmul(I, x, y)
    return npcall(I, name, a, k, None, f)


FN["vdot"] = lambda I, a, k: f_inner(I, a, k, "vdot")
FN["tensordot"] = lambda I, a, k: f_inner(I, a, k, "tensordot")


@fn("linalg.multi_dot")
def f_multi_dot(I, a, k):
    xs = seqvals(I, a[0])
    if not xs or k: return I.unk("multi_dot", *a)
    r = xs[0]
    for x in xs[1:]: r = matmul(I, r, x)
    return r


@fn("outer")
def f_outer(I, a, k):
    x, y = conv(I, a[0]), conv(I, a[1])
    if x is None or y is None: return I.unk("outer", *a)
    x, y = ravel(I, at_least(I, x, 1)), ravel(I, at_least(I, y, 1))
    return outer(I, "Mult", x, y)


def outer(I, op, x, y):
    f, vid = npm.op_facts(I, op, x, y)
    sh = None
    if x.shape is not None and y.shape is not None: sh = x.shape + y.shape
    return mk(I, sh, f, vop("outer" + op, x.vid, y.vid), FULL if sh is not None and len(sh) == 2 else None)


@fn("einsum")
def f_einsum(I, a, k):
    xs = [conv(I, x) for x in a[1:]] if a and isinstance(a[0], Const) else []
    if not xs or any(x is None for x in xs): return opaque(I, "einsum", a, None)
    spec = a[0].v.replace(" ", "")
    f = xs[0].f
    tmp = xs[0]
    for y in xs[1:]:
        tmp = Num(f=mulfacts(I, tmp, y), vid=vconst(0))
    f = tmp.f
    if "..." in spec: return mk(I, None, f, vop("einsum", spec, *[x.vid for x in xs]))
    ins, _, outp = spec.partition("->")
    ins = ins.split(",")
    if "->" not in spec:
        allc = "".join(ins); outp = "".join(sorted(c for c in set(allc) if allc.count(c) == 1))
    dims = {}
    for s, x in zip(ins, xs):
        if shp(x) is None: return mk(I, None, f, vop("einsum", spec, *[y.vid for y in xs]))
        if len(s) != len(shp(x)): I.raise_("ValueError", "einstein sum subscripts string does not match the operand's dimensions")
        for c, d in zip(s, shp(x)):
            if c in dims: eqdim(I, dims[c], d, "operands could not be broadcast together")
            else: dims[c] = d
    vid = vop("einsum", spec, *[x.vid for x in xs])
    if outp == "": return Num(f=f, vid=vid, np=True)
    return mk(I, tuple(dims.get(c) for c in outp), f, vid, _unk if len(outp) == 2 else None)


def square(I, A):
    if A.shape is not None:
        if len(A.shape) < 2: I.raise_("LinAlgError", "array must be at least two-dimensional")
        eqdim_la(I, A.shape[-1], A.shape[-2])
        return A.shape[-1]
    return None


def eqdim_la(I, p, q):
    if p is not None and q is not None and I.bounds.eq0(p - q) is False: I.raise_("LinAlgError", "Last 2 dimensions of the array must be square")


def affla(*xs):
    for x in xs:
        if isinstance(x.f.aff, Mix): return x.f.aff
    return V0 if all(x.f.aff is not None and v0(x.f.aff) for x in xs) else None


@fn("linalg.solve", "scipy.linalg.solve", "scipy.linalg.solve_triangular", "scipy.linalg.lu_solve")
def f_solve(I, a, k):
    A, b = conv(I, a[0]), conv(I, a[1])
    if not isinstance(A, Arr) or not isinstance(b, Arr): return opaque(I, "solve", a, None)
    n = square(I, A)
    f = F(umul(b.f.unit, A.f.unit, -1), affla(A, b), d_float(dtjoin(A.f.dt, b.f.dt)), A.f.deps | b.f.deps)
    if b.shape is None: return mk(I, None, f, vop("solve", A.vid, b.vid))
    if b.shape: eqdim(I, n, b.shape[0] if len(b.shape) <= 2 else b.shape[-2], "solve: Input operand 1 has a mismatch in its core dimension 0")
    band = None
    if len(b.shape) == 2:
        band = band_mul(band_inv(A.band or _unk), b.band or _unk)
    return mk(I, b.shape, f, vop("solve", A.vid, b.vid), band)


def band_inv(b):
    if npm.band_empty(b): return _unk
    lo = L(0) if b.lo is not None and b.lo.is_const and b.lo.c >= 0 else None
    hi = L(0) if b.hi is not None and b.hi.is_const and b.hi.c <= 0 else None
    return npm.Band(lo, hi, b.tight and lo is not None and hi is not None)


@fn("linalg.pinv", "scipy.linalg.pinv")
def f_pinv(I, a, k):
    A = conv(I, a[0])
    if not isinstance(A, Arr): return I.unk("pinv", *a)
    sh = tuple(reversed(A.shape)) if A.shape is not None and len(A.shape) == 2 else None
    return npcall(I, "linalg.pinv", a, k, sh, F(upow(A.f.unit, -1) if A.f.unit is not ANY else None, affla(A), d_float(A.f.dt), A.f.deps))


@fn("linalg.inv", "scipy.linalg.inv")
def f_inv(I, a, k):
    A = conv(I, a[0])
    if not isinstance(A, Arr): return opaque(I, "inv", a, None)
    square(I, A)
    return mk(I, A.shape, F(upow(A.f.unit, -1) if A.f.unit is not ANY else None, affla(A), d_float(A.f.dt), A.f.deps), vop("inv", A.vid), band_inv(A.band or _unk) if A.ndim == 2 else None)


@fn("linalg.det")
def f_det(I, a, k):
    A = conv(I, a[0])
    if not isinstance(A, Arr): return opaque(I, "det", a, ())
    n = square(I, A)
    u = A.f.unit if A.f.unit == ONE or isinstance(A.f.unit, Mix) else None
    return Num(f=F(u, affla(A), d_float(A.f.dt), A.f.deps), vid=vop("det", A.vid), np=True)


@fn("linalg.eigvals", "linalg.eigvalsh", "scipy.linalg.eigvals")
def f_eigvals(I, a, k):
    A = conv(I, a[0])
    if not isinstance(A, Arr): return opaque(I, "eigvals", a, (None,))
    n = square(I, A)
    return mk(I, (n,), F(A.f.unit, affla(A), "c", A.f.deps), vop("eigvals", A.vid))


@fn("linalg.eig", "linalg.eigh", "scipy.linalg.eig", "scipy.linalg.eigh")
def f_eig(I, a, k):
    A = conv(I, a[0])
    if not isinstance(A, Arr): return I.unk("eig", *a)
    n = square(I, A)
    return Tup([mk(I, (n,), F(A.f.unit, affla(A), "c", A.f.deps), vop("eigvals", A.vid)), mk(I, (n, n), F(ONE, affla(A), "c", A.f.deps), vop("eigvecs", A.vid), _unk)])


@fn("linalg.matrix_power")
def f_matpow(I, a, k):
    A, n = conv(I, a[0]), a[1]
    if isinstance(A, Arr) and isinstance(n, Num) and n.c is not None and 1 <= n.c <= 6:
        r = A
        for _ in range(int(n.c) - 1): r = matmul(I, r, A)
        return r if n.c > 1 else copy_arr(I, A)
    return opaque(I, "matrix_power", a, shp(A) if A is not None else None, A.f.unit if A is not None and A.f.unit == ONE else None, affla(A) if A is not None else None, A.f.dt if A is not None else None)


@fn("trace")
def f_trace(I, a, k):
    A = conv(I, a[0])
    if len(a) > 1 or k: return npcall(I, "trace", a, k, ())
    return opaque(I, "trace", a, (), A.f.unit if A is not None else None, V0 if A is not None and v0(A.f.aff) else None, A.f.dt if A is not None else None)


@fn("linalg.norm", "scipy.linalg.norm")
def f_norm(I, a, k):
    v, o, ax = bind(a, k, ["x", "ord", "axis"])
    v = conv(I, v)
    if v is None: return I.unk("norm", *a)
    f = F(v.f.unit, afun(v.f.aff, I.site(), "norm") if not (v.f.aff is not None and not isinstance(v.f.aff, (Mix, type(ANEU))) and visconst(v.f.aff) is None) else None, d_real(d_float(v.f.dt)), v.f.deps)
    kd = "keepdims" in k and I.truth(k["keepdims"])
    return reduce_(I, "norm", v, axis_arg(I, ax, None), kd, f, vop("norm", v.vid, o.vid if o is not None else 0, axis_arg(I, ax, None) if isinstance(axis_arg(I, ax, None), int) else -99))


@fn("scipy.linalg.expm")
def f_laopaque(I, a, k): return npcall(I, "scipy.linalg.expm", a, k, shp(conv(I, a[0])) if conv(I, a[0]) is not None else None)


def _several(name, n):
    """functions with several results: each is a part of the call's term"""
    def g(I, a, k):
        r = npcall(I, name, a, k)
        if not isinstance(r, Arr): return r
        return Tup([Arr(None, r.f, vop("np_item", r.vid, i), None) for i in range(n)])
    FN[name] = g


for _n, _k in (("linalg.lstsq", 4), ("linalg.svd", 3), ("linalg.qr", 2), ("linalg.slogdet", 2), ("scipy.linalg.qr", 2), ("scipy.linalg.svd", 3), ("histogram", 2), ("divmod", 2), ("modf", 2), ("frexp", 2)): _several(_n, _k)
for _n in ("linalg.cholesky", "linalg.cond", "linalg.matrix_rank"): _named(_n)



@fn("scipy.linalg.lu_factor")
def f_lu_factor(I, a, k):
    """multipliers and U packed in one full matrix, with the pivots"""
    A = conv(I, a[0])
    if not isinstance(A, Arr): return I.unk("lu_factor", *a)
    n = A.shape[0] if A.shape is not None and len(A.shape) == 2 else None
    if "overwrite_a" in k and I.truth(k["overwrite_a"]):
        put(I, A, A.f, vop("overwritten", A.vid), _unk, None, None, "overwrite_a", A)
    f = A.f.with_(dt=d_float(A.f.dt), aff=affla(A))
    return Tup([mk(I, (n, n), f, vop("luPacked", A.vid), npm.Band(None, None, True)), mk(I, (n,), F(ONE, affla(A), "i", A.f.deps), vop("luPiv", A.vid))])


@fn("scipy.linalg.lu")
def f_lu(I, a, k):
    A = conv(I, a[0])
    if not isinstance(A, Arr): return I.unk("lu", *a)
    n = A.shape[0] if A.shape is not None and len(A.shape) == 2 else None
    if "overwrite_a" in k and I.truth(k["overwrite_a"]):
        put(I, A, A.f, vop("overwritten", A.vid), _unk, None, None, "overwrite_a", A)
    f = A.f.with_(dt=d_float(A.f.dt), aff=affla(A))
    sh = (n, n)
    P = mk(I, sh, F(ONE, affla(A), "f", A.f.deps), vop("luP", A.vid), npm.Band(None, None, False))
    Lm = mk(I, sh, F(ONE, affla(A), f.dt, A.f.deps), vop("luL", A.vid), npm.Band(L(0), None, True))
    U = mk(I, sh, f, vop("luU", A.vid), npm.Band(None, L(0), True))
    if "permute_l" in k and I.truth(k["permute_l"]):
        return Tup([mk(I, sh, Lm.f, vop("luPL", A.vid), npm.Band(None, None, True)), U])
    return Tup([P, Lm, U])


@fn("scipy.linalg.eigh_tridiagonal", "scipy.linalg.eigvalsh_tridiagonal")
def f_eight(I, a, k):
    d, e = conv(I, a[0]), conv(I, a[1])
    if d is None or e is None: return I.unk("eigh_tridiagonal", *a)
    f = F(ujoin(d.f.unit, e.f.unit, I.site(), "eigenvalues"), affla(d, e), "f", d.f.deps | e.f.deps)
    if isinstance(d, Arr) and isinstance(e, Arr) and d.shape is not None and e.shape is not None and len(d.shape) == 1 and len(e.shape) == 1 and d.shape[0] is not None and e.shape[0] is not None:
        eqdim(I, d.shape[0], e.shape[0] + 1, "e must have one less element than d")
    w = mk(I, shp(d), f, vop("eigh_tri", d.vid, e.vid))
    only = bind(a, k, ["d", "e", "eigvals_only"])[2]
    if only is not None and I.truth(only): return w
    n = shp(d)[0] if shp(d) else None
    return Tup([w, mk(I, (n, n), F(ONE, f.aff, "f", f.deps), vop("eigh_tri_v", d.vid, e.vid), _unk)])


@fn("vander", "polynomial.legendre.legvander", "polynomial.polynomial.polyvander")
def f_vander(I, a, k):
    x, n, inc = bind(a, k, ["x", "N", "increasing"])
    x = conv(I, x)
    if not isinstance(x, Arr): return I.unk("vander", *a)
    N = x.shape[0] if n is None and x.shape else (dim_of(I, n) if n is not None and not lib.is_none(n) else x.shape[0] if x.shape else None)
    if inc is None: inc = a[2] if len(a) > 2 else None
    up = inc is not None and I.truth(inc)
    u = x.f.unit if x.f.unit == ONE or isinstance(x.f.unit, Mix) else None
    return mk(I, (x.shape[0], N) if x.shape is not None and len(x.shape) == 1 else None, F(u, affla(x), x.f.dt, x.f.deps), vop("vander", x.vid, vdim(N), up), FULL if x.shape is not None and len(x.shape) == 1 else None)


def f_fft(name):
    def g(I, a, k):
        x = conv(I, a[0])
        if not isinstance(x, Arr): return I.unk("fft", *a)
        if len(a) > 1 or k: return npcall(I, "fft." + name, a, k, None, F(x.f.unit, affla(x), "f" if name in ("irfft", "hfft") else "c", x.f.deps))
        shape = x.shape
        if name not in ("fft", "ifft") and shape is not None:
            d = shape[-1]
            shape = shape[:-1] + (None if d is None else lib.floordiv(I, d, 2) + 1 if name in ("rfft", "ihfft") else d.scale(2) - 2,)
        return mk(I, shape, F(x.f.unit, affla(x), "f" if name in ("irfft", "hfft") else "c", x.f.deps), vop("fft", x.vid, name))
    return g


for _n in ("ifft", "fft", "rfft", "irfft", "hfft", "ihfft"): fn("fft." + _n)(f_fft(_n))


def gauss_rule(name):
    def g(I, a, k):
        n = a[0] if a else k.get("deg") or k.get("n")
        d = dim_of(I, n)
        I.event("quad", rule="gauss", n=d, arg=n)
        r = []
        for i in (0, 1):
            f = F(ONE, V0, "f", n.deps)
            if d is not None and d.is_const and 1 <= d.c <= 400:
                x = mkconst(I, np.polynomial.legendre.leggauss(int(d.c))[i]); x.f = x.f.with_(deps=n.deps)
            else: x = mk(I, (d,), f, vop("leggauss", n.vid, i))
            r.append(x)
        if d is not None and I.bounds.ge0(d - 1) is False: I.raise_("ValueError", "deg must be a positive integer")
        if name == "roots" and (k.get("mu") is not None or len(a) > 1): r.append(Num(c=2.0))
        return Tup(r)
    return g


for _n in ("polynomial.legendre.leggauss", "scipy.special.roots_legendre", "scipy.special.p_roots"): FN[_n] = gauss_rule("roots" if "roots" in _n else "np")


@fn("polynomial.chebyshev.chebgauss", "scipy.special.roots_chebyt", "scipy.special.roots_chebyu")
def f_chebgauss(I, a, k):
    d = dim_of(I, a[0]); I.event("quad", rule="chebgauss", n=d, arg=a[0])
    return Tup([mk(I, (d,), F(ONE, V0, "f", a[0].deps), vop("chebgauss", a[0].vid, i)) for i in (0, 1)])


# ----------------------------------------------------------------------------- optimisation

RESULT = Cls("OptimizeResult", [lib.BUILTIN_CLASSES["object"]], {}, None, None, "scipy.optimize.OptimizeResult", 0, "import")


def run_objective(I, f, x0, extra):
    x = conv(I, x0)
    if isinstance(x, Num): x = at_least(I, x, 1)
    if x is None: x = opaque(I, "x0", [x0], None)
    # dimension vector unknown: iterates have the facts of the starting point
    it = mk(I, x.shape, x.f.with_(dt="f"), vop("iterate", x.vid))
    try: r = I.call(f, [it] + list(extra), {})
    except AbsRaise as e:
        raise
    return x, r


@fn("scipy.optimize.minimize", "scipy.optimize.least_squares", "scipy.optimize.root", "scipy.optimize.basinhopping")
def f_minimize(I, a, k):
    f = a[0]; x0 = a[1] if len(a) > 1 else k.get("x0")
    extra = k.get("args")
    extra = extra.items if isinstance(extra, Tup) else [extra] if extra is not None else []
    x, r = run_objective(I, f, x0, extra)
    rv = r.vid if r.vid is not None else -1
    deps = x.deps | r.deps
    for y in k.values(): deps = deps | y.deps
    xo = mk(I, x.shape, F(x.f.unit, x.f.aff if x.f.aff is None or v0(x.f.aff) else None, "f", deps), vop("minimize", rv, x.vid))
    o = Obj(RESULT, {}, I.epoch)
    o.attrs.update({"x": xo, "fun": Num(f=F(None, None, "f", deps), vid=vop("minfun", rv, x.vid), np=True), "success": Num(f=F(ONE, V0, "b", deps), vid=vop("minok", rv, x.vid), cond=("cmp",), np=True)})
    o.opaque = lambda I, o, n: I.unk("optimize result " + n, xo)
    return o


@fn("scipy.optimize.fsolve", "scipy.optimize.newton", "scipy.optimize.brentq", "scipy.optimize.fmin", "scipy.optimize.newton_krylov", "scipy.optimize.broyden1")
def f_fsolve(I, a, k):
    f = a[0]; x0 = a[1] if len(a) > 1 else k.get("x0")
    x, r = run_objective(I, f, x0, [])
    xo = mk(I, x.shape, F(x.f.unit, x.f.aff if x.f.aff is None or v0(x.f.aff) else None, "f", x.deps | r.deps), vop("fsolve", r.vid if r.vid is not None else -1, x.vid))
    if "full_output" in k and I.truth(k["full_output"]): return Tup([xo, I.unk("infodict", xo), I.unk("ier", xo), I.unk("mesg", xo)])
    return xo


# ----------------------------------------------------------------------------- sparse (modelled by dense arrays)

def f_sparse(I, a, k):
    v = a[0]
    sh = k.get("shape")
    dt = dtype_arg(I, bind(a, k, ["arg", "shape", "dtype"])[2])
    if isinstance(v, Tup) and len(v.items) == 2 and all(isinstance(x, Num) for x in v.items):
        return filled(I, shape_arg(I, v), Num(c=0.0), dt or "f", "zeros")
    if isinstance(v, Tup):
        d = frozenset()
        s = shape_arg(I, sh) if sh is not None else None
        data = conv(I, v.items[0]) if v.items else None
        return mk(I, s, data.f.with_(deps=v.deps) if data is not None else F(None, None, None, v.deps), vop("sparse", v.vid), _unk if s is not None and len(s) == 2 else None)
    return asarray(I, v, dt, copy=True)


for _k in ("lil", "csc", "csr", "coo", "dok", "bsr", "dia"):
    FN[f"scipy.sparse.{_k}_matrix"] = f_sparse; FN[f"scipy.sparse.{_k}_array"] = f_sparse


@fn("scipy.sparse.eye", "scipy.sparse.identity", "scipy.sparse.eye_array")
def f_speye(I, a, k): return f_eye(I, a, k)


# ----------------------------------------------------------------------------- state

def f_errstate(I, a, k):
    es = {n: v.v for n, v in k.items() if isinstance(v, Const)}
    def ent(I): I.errstate.append(es); return NONE
    def ex(I):
        if es in I.errstate: I.errstate.remove(es)
    return CtxMgr("errstate", ent, ex)


FN["errstate"] = f_errstate


def f_global(what):
    def g(I, a, k):
        I.event("global", what=what)
        return I.unk(what, *a)
    return g


for _n in ("seterr", "set_printoptions", "seterrcall", "setbufsize", "random.seed"): FN[_n] = f_global("numpy." + _n)


@fn("printoptions")
def f_printoptions(I, a, k): return CtxMgr("printoptions")


@fn("vectorize")
def f_vectorize(I, a, k):
    f = a[0]
    def g(I, b, kk):
        xs = [conv(I, x) for x in b]
        if any(x is None for x in xs): return I.unk("vectorize", *b)
        sh = bshape(I, *[shp(x) for x in xs])
        r = I.call(f, [Num(f=x.f, vid=vop("elv", x.vid), np=True) if isinstance(x, Arr) else x for x in xs], kk)
        if not isinstance(r, Num): return I.unk("vectorize", *b)
        return mk(I, sh, r.f, vop("vectorize", r.vid), _unk if sh is not None and len(sh) == 2 else None) if sh != () else r
    return Builtin("vectorized", g)


@fn("apply_along_axis", "ix_", "indices", "ndindex", "ndenumerate", "nditer")
def f_unkfn(I, a, k): return I.unk("numpy function", *a)


@fn("fromfunction")
def f_fromfunction(I, a, k):
    g, sh = bind(a, {y: z for y, z in k.items() if y in ("function", "shape")}, ["function", "shape"])
    if set(k) - {"function", "shape", "dtype"}: return I.unk("fromfunction", *a)
    d = shape_arg(I, sh)
    dt = dtype_arg(I, k["dtype"]) if "dtype" in k else "f"
    if d is None or None in d or len(d) not in (1, 2): return I.unk("fromfunction", *a)
    ix = [astype(I, call(I, "arange", [Num(lin=n)], {}), dt) for n in d]
    if len(ix) == 2: ix = f_meshgrid(I, ix, {"indexing": Const("ij")}).items
    return I.call(g, list(ix), {})


@fn("fromiter")
def f_fromiter(I, a, k):
    v, dt = bind(a, k, ["iter", "dtype"])
    if isinstance(v, AbsSeq) and v.items is not None: v = I.new_epoch(Lst(v.items))
    if not isinstance(v, (Lst, Tup)): 
        try: v = lib.bi_list(I, [v], {})
        except AbsRaise: raise
    return asarray(I, v, dtype_arg(I, dt))


@fn("meshgrid")
def f_meshgrid(I, a, k):
    x, y = (conv(I, v) for v in (a + a)[:2]) if len(a) == 2 else (None, None)
    if x is None or y is None or not isinstance(x, Arr) or not isinstance(y, Arr) or x.shape is None or y.shape is None: return I.unk("meshgrid", *a)
    ij = "indexing" in k and isinstance(k["indexing"], Const) and k["indexing"].v == "ij"
    sh = (x.shape[0], y.shape[0]) if ij else (y.shape[0], x.shape[0])
    if set(k) - {"indexing"}: return I.unk("meshgrid", *a)
    return Tup([mk(I, sh, v.f, vop("mesh", i, ij, x.vid, y.vid), FULL) for i, v in enumerate((x, y))])


@fn("copyto")
def f_copyto(I, a, k):
    npm.arr_setitem(I, a[0], Const(Ellipsis), a[1])
    return NONE


@fn("put", "place", "putmask")
def f_put(I, a, k):
    if isinstance(a[0], Arr):
        o = a[0]
        put(I, o, F(None, None, o.f.dt, o.f.deps | frozenset().union(*[x.deps for x in a[1:]])), None, _unk if o.ndim == 2 else None, None, None, "put", a[-1])
    return NONE


@fn("shares_memory", "may_share_memory")
def f_shares(I, a, k):
    if isinstance(a[0], Arr) and isinstance(a[1], Arr): return Num(c=a[0].buf == a[1].buf)
    return I.unk("shares_memory", *a)


@fn("isscalar")
def f_isscalar(I, a, k): return Num(c=isinstance(a[0], Num) or (isinstance(a[0], Const) and isinstance(a[0].v, str)))


@fn("iscomplexobj", "isrealobj")
def f_iscomplexobj(I, a, k):
    v = conv(I, a[0])
    return Num(c=v.f.dt == "c") if v is not None and v.f.dt is not None else I.unk("iscomplexobj", *a)


@fn("issubdtype")
def f_issubdtype(I, a, k):
    d = dtype_arg(I, a[0]); n = a[1].name.split(".")[-1] if isinstance(a[1], (Builtin, Cls)) else None
    if d is None or n is None: return I.unk("issubdtype", *a)
    t = {"integer": "i", "signedinteger": "i", "floating": "f", "complexfloating": "c", "inexact": "fc", "number": "ifc", "bool_": "b", "float64": "f", "int64": "i", "float": "f", "int": "i", "complex": "c"}.get(n)
    return Num(c=d in t) if t else I.unk("issubdtype", *a)


@fn("result_type", "promote_types", "common_type")
def f_result_type(I, a, k):
    d = "b"
    for x in a:
        t = dtype_arg(I, x) if not isinstance(x, (Arr, Num)) else x.f.dt
        d = dtjoin(d, t) if t else None
        if d is None: break
    return dtype_obj(I, d)


@fn("dtype")
def f_dtype(I, a, k): return dtype_obj(I, dtype_arg(I, a[0]))


@fn("finfo", "iinfo")
def f_finfo(I, a, k):
    o = Obj(RESULT, {}, I.epoch)
    fi = np.finfo(float)
    for n in ("eps", "tiny", "max", "min", "resolution"): o.attrs[n] = npnum(float(getattr(fi, n)))
    return o


@fn("nan_to_num")
def f_nan_to_num(I, a, k):
    v = conv(I, a[0])
    if v is None: return I.unk("nan_to_num", *a)
    return copy_arr(I, v) if isinstance(v, Arr) else v


# ----------------------------------------------------------------------------- attributes

_METHODS = {"sum": "sum", "prod": "prod", "max": "max", "min": "min", "mean": "mean", "std": "std", "var": "var", "ptp": "ptp", "any": "any", "all": "all",
            "argmin": "argmin", "argmax": "argmax", "argsort": "argsort", "cumsum": "cumsum", "cumprod": "cumprod", "round": "round", "conj": "conj",
            "conjugate": "conj", "dot": "dot", "diagonal": "diagonal", "trace": "trace", "repeat": "repeat", "nonzero": "nonzero", "clip": "clip",
            "squeeze": "squeeze", "swapaxes": "swapaxes", "take": "take", "searchsorted": "searchsorted"}
_COPYM = {"copy": 1, "flatten": 1, "__copy__": 1, "__deepcopy__": 1, "toarray": 0, "todense": 0, "tocsc": 0, "tocsr": 0, "tolil": 0, "tocoo": 0, "view": 0, "__array__": 0}


def B(name, f): return Builtin("ndarray." + name, f)


def arr_attr(I, o, name):
    I.refresh(o)
    if name == "T": return transpose(I, o)
    if name == "shape":
        if o.shape is None: return I.unk("shape", o)
        return Tup([Num(lin=d) if d is not None else Num(f=F(ONE, V0, "i", o.deps), vid=vop("dim", o.vid, i)) for i, d in enumerate(o.shape)])
    if name == "ndim": return Num(c=len(o.shape)) if o.shape is not None else I.unk("ndim", o)
    if name == "size":
        n = size_sym(I, o)
        return Num(lin=n) if n is not None else Num(f=F(ONE, V0, "i", o.deps), vid=vop("size", o.vid))
    if name == "dtype": return dtype_obj(I, o.f.dt)
    if name in ("real", "imag"):
        if name == "real" and o.f.dt in ("f", "i", "b"): return o
        return FN[name](I, [o], {})
    if name == "flat": return ravel(I, o)
    if name == "base": return I.unk("base", o)
    if name in ("flags", "ctypes", "data", "strides", "nbytes", "itemsize", "nnz"):
        if name == "flags":
            f = Obj(RESULT, {}, I.epoch); f.opaque = lambda I, o, n: I.unk("flag")
            return f
        return I.unk(name, o)
    if name in _COPYM:
        if name == "flatten": return B(name, lambda I, a, k: copy_arr(I, f_ravel(I, [o, *a], k)))
        if _COPYM[name]: return B(name, lambda I, a, k: copy_arr(I, o))
        if name in ("view",): return B(name, lambda I, a, k: o)
        return B(name, lambda I, a, k: copy_arr(I, o))
    if name == "ravel": return B(name, lambda I, a, k: f_ravel(I, [o, *a], k))
    if name == "reshape": return B(name, lambda I, a, k: ordered_reshape(I, o, a or [k["shape"]], k.get("order")))
    if name == "transpose":
        def tr(I, a, k):
            if len(a) == 1 and isinstance(a[0], (Tup, Lst)): return FN["transpose"](I, [o, a[0]], {})
            return FN["transpose"](I, [o, Tup(a)] if a else [o], {})
        return B(name, tr)
    if name == "astype":
        def at(I, a, k):
            dt = dtype_arg(I, a[0] if a else k.get("dtype"))
            cp = k.get("copy")
            if cp is not None and isinstance(cp, Num) and cp.c is not None and not cp.c and dt == o.f.dt: return o
            return astype(I, o, dt)
        return B(name, at)
    if name == "fill":
        return B(name, lambda I, a, k: (npm.arr_setitem(I, o, Const(Ellipsis), a[0]), NONE)[1])
    if name == "sort":
        def so(I, a, k):
            r = FN["sort"](I, [o], {})
            overwrite(I, o, "in-place sort", r)
            return NONE
        return B(name, so)
    if name in ("partition", "resize", "itemset", "put", "setfield", "setflags", "byteswap"):
        def mut(I, a, k):
            if name == "setflags": return NONE
            put(I, o, F(None, None, o.f.dt, o.f.deps), None, _unk if o.ndim == 2 else None, None, None, name)
            return NONE
        return B(name, mut)
    if name == "tolist": return B(name, lambda I, a, k: tolist(I, o))
    if name == "item":
        def item(I, a, k):
            if a: return I.getitem(o, a[0] if len(a) == 1 else Tup(a))
            if o.shape == (): return Num(f=o.f, vid=o.vid) if o.const is None else npnum(o.const[()])
            s = segs_of(I, o) if o.ndim == 1 else None
            if s and len(s) == 1 and s[0].n == L(1) and isinstance(s[0].val, Num): return s[0].val
            return Num(f=o.f, vid=vop("item", o.vid))
        return B(name, item)
    if name in _METHODS: return B(name, lambda I, a, k: call(I, _METHODS[name], [o, *a], k))
    if name in ("tobytes", "tostring"):
        return B(name, lambda I, a, k: SymStr(vop("bytes", o.vid), o.deps))
    if name == "__len__": return B(name, lambda I, a, k: lib.length(I, o))
    if name == "__class__": return npm.NDARRAY
    if hasattr(np.ndarray, name): return I.unk("array attribute " + name, o)
    return None


def tolist(I, o):
    I.refresh(o)
    if o.shape == (): return Num(f=o.f, vid=o.vid, c=cval(o) if o.const is None else o.const.item())
    if o.const is not None and o.ndim == 1:
        return I.new_epoch(Lst([Num(c=x, f=None if not o.f.deps else fconst(x).with_(deps=o.f.deps)) for x in o.const.tolist()]))
    if o.ndim == 1:
        s = segs_of(I, o)
        if s is None: return I.unk("tolist", o)
        return I.new_epoch(Lst([Seg(x.n, Num(x.val.c, x.val.lin, x.val.f, x.val.vid) if isinstance(x.val, Num) else x.val, x.sym) for x in s]))
    if o.shape is not None and o.shape[0] is not None and o.shape[0].is_const and o.shape[0].c <= 64:
        return I.new_epoch(Lst([tolist(I, I.getitem(o, Num(c=i))) for i in range(int(o.shape[0].c))]))
    return I.unk("tolist", o)


def num_attr(I, o, name):
    if name in ("real", "imag"):
        if o.c is not None: return Num(c=getattr(o.c, name), np=o.np)
        if name == "real" and o.f.dt in ("f", "i", "b"): return o
        if name == "imag" and o.f.dt in ("f", "i", "b"): return Num(c=0.0)
        return Num(f=o.f.with_(dt="f"), vid=vop(name, o.vid), np=o.np)
    if name == "conjugate": return B(name, lambda I, a, k: o if o.f.dt != "c" else FN["conj"](I, [o], {}))
    if name == "is_integer":
        return B(name, lambda I, a, k: Num(c=float(o.c).is_integer()) if o.c is not None else Num(f=F(ONE, V0, "b", o.deps), vid=vop("is_integer", o.vid), cond=("cmp",)))
    if name in ("bit_length", "as_integer_ratio", "hex", "numerator", "denominator", "to_bytes"):
        if name in ("numerator",) and o.f.dt == "i": return o
        return B(name, lambda I, a, k: I.unk(name, o))
    if name == "__class__": return lib.type_of(I, o)
    if not o.np: return None
    if name == "dtype": return dtype_obj(I, o.f.dt)
    if name == "shape": return Tup([])
    if name == "ndim": return Num(c=0)
    if name == "size": return Num(c=1)
    if name == "T": return o
    if name in ("item", "copy", "tolist", "conj"): return B(name, lambda I, a, k: Num(o.c, o.lin, o.f, o.vid, o.cond))
    if name in ("sum", "max", "min", "mean", "prod"): return B(name, lambda I, a, k: o)
    if name in ("ravel", "flatten"): return B(name, lambda I, a, k: at_least(I, o, 1))
    if name == "astype": return B(name, lambda I, a, k: npm.cast(o, dtype_arg(I, a[0])) if dtype_arg(I, a[0]) in DTN else o)
    if name in ("any", "all"): return B(name, lambda I, a, k: o)
    if name == "round": return B(name, lambda I, a, k: call(I, "round", [o, *a], k))
    return None if not hasattr(np.float64, name) else I.unk("scalar attribute " + name, o)


def arr_setattr(I, o, name, v):
    if name == "shape":
        r = reshape(I, o, [v])
        put(I, o, o.f, r.vid, r.band, r.segs, r.const, "shape assignment")
        o.shape = r.shape
        return
    if name in ("real", "T", "imag", "flat"):
        npm.arr_setitem(I, o, Const(Ellipsis), v); return
    I.raise_("AttributeError", f"'numpy.ndarray' object has no attribute '{name}'")


# ----------------------------------------------------------------------------- modules

_CONST = {"pi": math.pi, "e": math.e, "euler_gamma": np.euler_gamma}
_SUBMODS = {"numpy.linalg", "numpy.polynomial", "numpy.polynomial.legendre", "numpy.polynomial.polynomial", "numpy.polynomial.chebyshev", "numpy.fft", "numpy.random",
            "numpy.testing", "numpy.typing", "numpy.lib", "scipy.linalg", "scipy.optimize", "scipy.special", "scipy.sparse", "scipy.sparse.linalg", "scipy.interpolate",
            "scipy.integrate", "numpy.core", "numpy.exceptions", "numpy.ma"}
_REDUCE = {"add": "sum", "multiply": "prod", "maximum": "max", "minimum": "min", "logical_and": "all", "logical_or": "any"}
_OPS = {"add": "Add", "subtract": "Sub", "multiply": "Mult", "divide": "Div", "true_divide": "Div", "power": "Pow"}


def strip(full):
    """name of a function in the tables"""
    if full.startswith("numpy."): 
        n = full[6:]
        if n.startswith("random."): return n
        return n
    return full


def lin_alg_error():
    return lib.BUILTIN_CLASSES.get("LinAlgError") or lib.BUILTIN_CLASSES["ValueError"]


def module_attr(I, full):
    leaf = full.split(".")[-1]
    par = full.rsplit(".", 1)[0]
    if full in _SUBMODS: return I.load_module(full)
    if leaf == "LinAlgError": return lin_alg_error()
    if par == "numpy":
        if leaf in _CONST: return Num(c=_CONST[leaf])
        if leaf in ("inf", "Inf", "infty", "PINF"): return Num(c=math.inf)
        if leaf == "NINF": return Num(c=-math.inf)
        if leaf in ("nan", "NaN"): return Num(c=math.nan)
        if leaf == "newaxis": return NONE
        if leaf == "ndarray": return npm.NDARRAY
        if leaf in ("True_", "False_"): return npnum(leaf == "True_")
        if leaf == "__version__": return Const(np.__version__)
        if leaf in npm._DTYPES:
            def conv_(I, a, k, dt=npm._DTYPES[leaf]):
                v = conv(I, a[0]) if a else Num(c=0)
                if v is None: return I.unk("dtype conversion", *a)
                if isinstance(v, Num): return npm.cast(v, dt) if dt in DTN else v
                return astype(I, v, dt)
            return Builtin(full, conv_)
        if leaf == "vectorize": return Builtin(full, f_vectorize)
        if leaf.startswith("__"): return None
    if par == "numpy" and not hasattr(np, leaf) and leaf not in FN: 
        return None
    name = strip(full)
    b = Builtin(full, lambda I, a, k, name=name: call(I, name, a, k))
    return b


def concatenator(I, n, k):
    """np.r_[...] and np.c_[...] for arrays and numbers"""
    items = k.items if isinstance(k, Tup) else [k]
    xs = []
    for x in items:
        x = conv(I, x) if not isinstance(x, (SliceV, Const)) else None
        if x is None or not isinstance(x, Num) and (x.shape is None or len(x.shape) > (1 if n == "r_" else 2)): return I.unk(n, k)
        xs.append(at_least(I, x, 1))
    if n == "r_": return join_arrays(I, xs, 0, n)
    full = SliceV(NONE, NONE, NONE)
    return join_arrays(I, [x if len(x.shape) == 2 else I.getitem(x, Tup([full, NONE])) for x in xs], 1, n)


def func_attr(I, o, name):
    n = strip(o.name)
    if name == "outer" and n in _OPS:
        def oo(I, a, k):
            x, y = conv(I, a[0]), conv(I, a[1])
            if x is None or y is None: return I.unk("outer", *a)
            if not isinstance(x, Arr) or not isinstance(y, Arr): return binop(I, _OPS[n], x, y)
            return outer(I, _OPS[n], x, y)
        return Builtin(o.name + ".outer", oo)
    if name == "reduce" and n in _REDUCE:
        def rr(I, a, k):
            k = dict(k)
            if len(a) < 2 and "axis" not in k: k["axis"] = Num(c=0)
            return call(I, _REDUCE[n], a, k)
        return Builtin(o.name + ".reduce", rr)
    if name == "accumulate" and n in ("add", "multiply"):
        def ac(I, a, k):
            k = dict(k)
            if len(a) < 2 and "axis" not in k: k["axis"] = Num(c=0)
            return call(I, "cumsum" if n == "add" else "cumprod", a, k)
        return Builtin(o.name + ".accumulate", ac)
    if name in ("reduce", "accumulate", "at", "reduceat"):
        def at(I, a, k):
            x = conv(I, a[0]) if a else None
            if name in ("accumulate", "reduceat") and isinstance(x, Arr): return npcall(I, n + "." + name, a, k, x.shape if name == "accumulate" else None)
            if name == "at" and isinstance(a[0], Arr):
                x = a[0]
                put(I, x, F(None, None, x.f.dt, x.f.deps), None, _unk if x.ndim == 2 else None, None, None, "ufunc.at")
                return NONE
            return I.unk("ufunc method", *a)
        return Builtin(o.name + "." + name, at)
    if n in ("r_", "c_") and name == "__getitem__": return Builtin(o.name, lambda I, a, k: concatenator(I, n, a[0]))
    if name == "__name__": return Const(n.split(".")[-1])
    if name == "eps": return Num(c=float(np.finfo(float).eps))
    if name.startswith("__"): return None
    return I.unk("attribute of " + o.name)


# names used through the module object by the interpreter
npm.call, npm.matmul, npm.arr_attr, npm.num_attr, npm.arr_setattr, npm.func_attr, npm.module_attr = call, matmul, arr_attr, num_attr, arr_setattr, func_attr, module_attr
