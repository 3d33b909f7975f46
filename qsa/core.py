"""Abstract domains and values.

Domains (a reduced product, attached to scalars `Num` and arrays `Arr`):
  lin    symbolic integer sizes and indices as linear forms with symbolic bounds
  unit   physical dimension (exponents over base units), with top-like MIX that remembers its origin
  aff    affine weight: reaction of the value to a shift of the time origin (0 = difference, 1 = time point)
  dt     element type (bool / int / float / complex)
  deps   labels of the inputs the value is computed from
  vid    value number (hash-consed, arithmetic in a canonical linear / monomial form)
  band   offsets row-col between which a matrix may be non-zero
  const  folded constant
  owner  allocation identity of every mutable object (buffers, lists, dicts, objects)
"""
from fractions import Fraction
import math
import numpy as np

# --------------------------------------------------------------------------- linear forms

class Lin:
    __slots__ = ("t", "c", "_h")

    def __init__(self, t=(), c=0):
        self.t = t if isinstance(t, tuple) else tuple(sorted((s, k) for s, k in t.items() if k != 0))
        self.c = Fraction(c)
        self._h = hash((self.t, self.c))

    def __hash__(self): return self._h
    def __eq__(self, o): return isinstance(o, Lin) and self.t == o.t and self.c == o.c
    def d(self): return dict(self.t)

    def __add__(self, o):
        o = L(o); d = dict(self.t)
        for s, k in o.t: d[s] = d.get(s, 0) + k
        return Lin(d, self.c + o.c)
    __radd__ = __add__
    def __neg__(self): return Lin(tuple((s, -k) for s, k in self.t), -self.c)
    def __sub__(self, o): return self + (-L(o))
    def __rsub__(self, o): return L(o) - self
    def scale(self, k):
        k = Fraction(k)
        if k == 0: return Lin((), 0)
        return Lin(tuple((s, v * k) for s, v in self.t), self.c * k)
    @property
    def is_const(self): return not self.t
    def const(self): return self.c if not self.t else None
    def subst(self, m):
        out = Lin((), self.c)
        for s, k in self.t:
            out = out + (L(m[s]).scale(k) if s in m else Lin(((s, k),), 0))
        return out
    def syms(self): return [s for s, _ in self.t]
    def __repr__(self):
        if not self.t: return str(self.c)
        out = ""
        for s, k in self.t:
            if k == 1: out += f"+{s}"
            elif k == -1: out += f"-{s}"
            else: out += f"{'+' if k > 0 else ''}{k}*{s}"
        if self.c: out += f"{'+' if self.c > 0 else ''}{self.c}"
        return out.lstrip("+")


def L(x):
    if isinstance(x, Lin): return x
    return Lin((), x)


def Sym(name): return Lin(((name, Fraction(1)),), 0)


class Bounds:
    """Bounds of integer symbols; a bound may refer to older symbols."""

    def __init__(self):
        self.b = {}        # sym -> ([lower Lin], [upper Lin])
        self.order = {}

    def copy(self):
        n = Bounds(); n.b = {k: (list(v[0]), list(v[1])) for k, v in self.b.items()}; n.order = dict(self.order)
        return n

    def declare(self, name, lo=None, hi=None):
        if name not in self.order: self.order[name] = len(self.order)
        self.b[name] = ([L(lo)] if lo is not None else [], [L(hi)] if hi is not None else [])

    def add(self, name, lo=None, hi=None):
        if name not in self.b: self.declare(name)
        if lo is not None and L(lo) not in self.b[name][0]: self.b[name][0].append(L(lo))
        if hi is not None and L(hi) not in self.b[name][1]: self.b[name][1].append(L(hi))

    def min(self, lin, depth=12):
        """Greatest provable lower bound (number) or None."""
        lin = L(lin)
        if lin.is_const: return lin.c
        if depth == 0: return None
        s, k = max(lin.t, key=lambda t: self.order.get(t[0], -1))
        rest = lin - Lin(((s, k),), 0)
        best = None
        for bnd in self.b.get(s, ([], []))[0 if k > 0 else 1]:
            v = self.min(rest + bnd.scale(k), depth - 1)
            if v is not None and (best is None or v > best): best = v
        return best

    def max(self, lin):
        v = self.min(-L(lin))
        return None if v is None else -v

    def ge0(self, lin):
        """True / False / None for lin >= 0"""
        m = self.min(lin)
        if m is not None and m >= 0: return True
        M = self.max(lin)
        if M is not None and M < 0: return False
        return None

    def eq0(self, lin):
        lin = L(lin)
        if lin.is_const: return lin.c == 0
        m, M = self.min(lin), self.max(lin)
        if m is not None and m > 0: return False
        if M is not None and M < 0: return False
        if m == 0 and M == 0: return True
        return None

    def assume_ge0(self, lin):
        """Refine with lin >= 0 (integers)."""
        lin = L(lin)
        if lin.is_const: return
        s, k = max(lin.t, key=lambda t: self.order.get(t[0], -1))
        rest = lin - Lin(((s, k),), 0)
        b = rest.scale(Fraction(-1) / k)      # s >= b if k>0, s <= b if k<0
        if b.is_const: b = L(math.ceil(b.c) if k > 0 else math.floor(b.c))
        if k > 0: self.add(s, lo=b)
        else: self.add(s, hi=b)

    def implied_const(self, lin):
        m, M = self.min(lin), self.max(lin)
        return m if (m is not None and m == M) else None


# --------------------------------------------------------------------------- value numbers

class Vid(int):
    """index of a value number (distinguished from plain integers)"""
    __slots__ = ()


class VN:
    tab = {}
    rev = []

    @classmethod
    def mk(cls, key):
        v = cls.tab.get(key)
        if v is None:
            v = Vid(len(cls.rev)); cls.tab[key] = v; cls.rev.append(key)
        return v


def num_frac(x):
    if isinstance(x, bool): return Fraction(int(x))
    if isinstance(x, (int, Fraction)): return Fraction(x)
    if isinstance(x, float) and math.isfinite(x): return Fraction(x)
    return None


def vconst(x):
    f = num_frac(x) if not isinstance(x, (str, type(None))) else None
    if f is not None: return VN.mk(("lin", (), f))
    return VN.mk(("const", type(x).__name__, repr(x)))


V0, V1 = None, None


def vlin(v):
    k = VN.rev[v]
    if k[0] == "lin": return dict(k[1]), k[2]
    return {v: Fraction(1)}, Fraction(0)


def mklin(d, c):
    d = {k: x for k, x in d.items() if x != 0}
    if len(d) == 1 and c == 0:
        (k, x), = d.items()
        if x == 1: return k
    return VN.mk(("lin", tuple(sorted(d.items())), Fraction(c)))


def visconst(v):
    k = VN.rev[v]
    return k[2] if k[0] == "lin" and not k[1] else None


FL = [False]      # floating-point mode: arithmetic is kept as rounded operations (no algebraic normal form)


def vadd(a, b, sb=1):
    if FL[0] and (visconst(a) is None or visconst(b) is None):
        if visconst(b) == 0: return a
        if visconst(a) == 0 and sb == 1: return b
        return vop("fl+", a, b, sb)
    da, ca = vlin(a); db, cb = vlin(b)
    d = dict(da)
    for k, x in db.items(): d[k] = d.get(k, 0) + sb * x
    return mklin(d, ca + sb * cb)


def vsub(a, b): return vadd(a, b, -1)


def vscale(a, k):
    if FL[0] and visconst(a) is None: return a if k == 1 else vconst(0) if k == 0 else vop("fl*", a, vconst(k))
    d, c = vlin(a)
    return mklin({q: x * k for q, x in d.items()}, c * k)


def _mono(v):
    """coefficient, {base: exponent}"""
    k = VN.rev[v]
    if k[0] == "mul": return Fraction(1), dict(k[1])
    if k[0] == "lin":
        if not k[1]: return k[2], {}
        if len(k[1]) == 1 and k[2] == 0:
            (b, x), = k[1]
            c, m = _mono(b)
            return c * x, m
        lead = k[1][0][1]
        if lead != 1:
            return lead, {vscale(v, Fraction(1) / lead): 1}
    return Fraction(1), {v: 1}


def mkmono(c, m):
    m = {b: e for b, e in m.items() if e != 0}
    if not m: return VN.mk(("lin", (), Fraction(c)))
    if len(m) == 1 and list(m.values()) == [1]: base = next(iter(m))
    else: base = VN.mk(("mul", tuple(sorted(m.items()))))
    if c == 0: return VN.mk(("lin", (), Fraction(0)))
    return vscale(base, Fraction(c))


def vmul(a, b):
    if FL[0] and (visconst(a) is None or visconst(b) is None):
        if 0 in (visconst(a), visconst(b)): return vconst(0)
        return b if visconst(a) == 1 else a if visconst(b) == 1 else vop("fl*", a, b)
    ca, ma = _mono(a); cb, mb = _mono(b)
    if ca * cb == 0: return vconst(0)
    for k, e in mb.items(): ma[k] = ma.get(k, 0) + e
    return mkmono(ca * cb, ma)


def vinv(a):
    if FL[0] and visconst(a) is None: return vop("fl/", a)
    c, m = _mono(a)
    if c == 0: return VN.mk(("op", "inv0"))
    return mkmono(Fraction(1) / c, {k: -e for k, e in m.items()})


def vdiv(a, b): return vmul(a, vinv(b))


def vop(name, *args):
    return VN.mk(("op", name) + tuple(a if isinstance(a, Vid) else f"#{a}" for a in args))


_atoms = {}


def vatom(name): return VN.mk(("atom", name))


V0, V1 = vconst(0), vconst(1)


VLEN = {}             # number of elements of the vector a value number stands for
LOOP_INDICES = set()      # value numbers of the indices of loop statements: a value with one of them is the one of a representative iteration
PRODS = {}          # symbols that stand for products of sizes: name -> factors
DERIVED = {}        # symbols with a definition: name -> (linear form, modulus)


def vlinform(lin):
    """value number of an integer linear form over symbols"""
    return mklin({VN.mk(("sym", s)): Fraction(k) for s, k in lin.t}, lin.c)


def vsubterms(v, seen=None):
    """all value numbers reachable from v"""
    seen = set() if seen is None else seen
    stack = [v]
    while stack:
        x = stack.pop()
        if x in seen: continue
        seen.add(x)
        k = VN.rev[x]
        if k[0] == "lin": stack += [b for b, _ in k[1]]
        elif k[0] == "mul": stack += [b for b, _ in k[1]]
        elif k[0] == "op": stack += [y for y in k[2:] if isinstance(y, Vid)]
    return seen


def vshow(v, depth=5):
    k = VN.rev[v]
    if depth == 0: return "…"
    if k[0] == "atom": return str(k[1])
    if k[0] == "sym": return k[1]
    if k[0] == "const": return k[2]
    if k[0] == "lin":
        if not k[1]: return str(float(k[2])) if k[2].denominator > 1000 else str(k[2])
        s = " + ".join((vshow(b, depth - 1) if x == 1 else f"{float(x):g}*{vshow(b, depth-1)}") for b, x in k[1])
        return f"({s}{'' if k[2]==0 else f' + {float(k[2]):g}'})"
    if k[0] == "mul": return "*".join(vshow(b, depth - 1) + ("" if e == 1 else f"^{e}") for b, e in k[1])
    if k[0] == "op": return f"{k[1]}(" + ", ".join(vshow(y, depth - 1) if isinstance(y, Vid) else str(y) for y in k[2:]) + ")"
    return str(k)


# --------------------------------------------------------------------------- unit / affine facts

class Mix:
    """Definite inconsistency, remembering where it was created."""
    __slots__ = ("site", "why")
    def __init__(self, site, why): self.site, self.why = site, why
    def __repr__(self): return f"MIX[{self.why} @ {self.site}]"


class _S:
    def __init__(self, n): self.n = n
    def __repr__(self): return self.n
    def __copy__(self): return self
    def __deepcopy__(self, m): return self


ANY = _S("ANY")       # unit of literal zero / inf / nan / booleans
ANEU = _S("ANEU")     # affine weight of a neutral zero fill
ONE = ()              # dimensionless


def unit(**k): return tuple(sorted((b, Fraction(e)) for b, e in k.items() if e))


def umul(a, b, s=1):
    if isinstance(a, Mix): return a
    if isinstance(b, Mix): return b
    if a is None or b is None: return None
    if a is ANY: return ANY
    if b is ANY: return ANY if s == 1 else None
    d = dict(a)
    for k, e in b: d[k] = d.get(k, 0) + s * e
    return tuple(sorted((k, e) for k, e in d.items() if e))


def upow(a, p):
    if a is ANY or a is None or isinstance(a, Mix) or a == ONE: return a
    if p is None: return None
    return tuple(sorted((k, e * Fraction(p).limit_denominator(1000)) for k, e in a if p != 0))


def ujoin(a, b, site=None, what="join"):
    if isinstance(a, Mix): return a
    if isinstance(b, Mix): return b
    if a is ANY: return b
    if b is ANY: return a
    if a is None or b is None: return None
    if a == b: return a
    return Mix(site, f"{what} of quantities with different dimension: [{ushow(a)}] and [{ushow(b)}]")


def ushow(u):
    if u is ANY: return "any"
    if u is None: return "?"
    if isinstance(u, Mix): return repr(u)
    return "1" if not u else "*".join(k if e == 1 else f"{k}^{e}" for k, e in u)


def aadd(a, b, sb=1):
    a = V0 if a is ANEU else a; b = V0 if b is ANEU else b
    if isinstance(a, Mix): return a
    if isinstance(b, Mix): return b
    if a is None or b is None: return None
    return vadd(a, b, sb)


def ajoin(a, b, site=None, what="join"):
    if isinstance(a, Mix): return a
    if isinstance(b, Mix): return b
    if a is ANEU: return b
    if b is ANEU: return a
    if a is None or b is None: return None
    if a == b: return a
    d = visconst(vsub(a, b))
    if d is not None and d != 0:
        return Mix(site, f"{what} of a time point and a value that does not move with the time origin")
    return None


def amul(a, va, b, vb):
    a = V0 if a is ANEU else a; b = V0 if b is ANEU else b
    if isinstance(a, Mix): return a
    if isinstance(b, Mix): return b
    if a is None or b is None: return None
    if a == V0 and b == V0: return V0
    if b == V0: return vmul(a, vb) if vb is not None else None
    if a == V0: return vmul(b, va) if va is not None else None
    return None


def adiv(a, b, vb, site):
    a = V0 if a is ANEU else a; b = V0 if b is ANEU else b
    if isinstance(a, Mix): return a
    if isinstance(b, Mix): return b
    if a is None or b is None: return None
    if b != V0: return Mix(site, "division by a time point (depends on the time origin)")
    if a == V0: return V0
    return vdiv(a, vb)


def afun(a, site, what):
    """non-linear function of a value"""
    a = V0 if a is ANEU else a
    if a is None or isinstance(a, Mix) or a == V0: return a
    return Mix(site, f"{what} of a time point (depends on the time origin)")


DT = {"b": 0, "i": 1, "f": 2, "c": 3}


def dtjoin(a, b):
    if a is None or b is None: return None
    if a == "o" or b == "o": return "o"
    return a if DT[a] >= DT[b] else b


class F:
    """elementwise facts"""
    __slots__ = ("unit", "aff", "dt", "deps")

    def __init__(self, unit=None, aff=None, dt=None, deps=frozenset()):
        self.unit, self.aff, self.dt, self.deps = unit, aff, dt, deps

    def with_(self, **k):
        n = F(self.unit, self.aff, self.dt, self.deps)
        for a, b in k.items(): setattr(n, a, b)
        return n

    def __repr__(self):
        a = self.aff
        a = "?" if a is None else a if isinstance(a, (Mix, _S)) else vshow(a)
        return f"F({ushow(self.unit)}; aff {a}; {self.dt}; {sorted(self.deps)})"


def fjoin(a, b, site=None, what="join"):
    return F(ujoin(a.unit, b.unit, site, what), ajoin(a.aff, b.aff, site, what), dtjoin(a.dt, b.dt), a.deps | b.deps)


def fconst(x):
    dt = "b" if isinstance(x, (bool, np.bool_)) else "i" if isinstance(x, (int, np.integer)) else "c" if isinstance(x, complex) else "f"
    z = isinstance(x, (bool, np.bool_)) or x == 0 or x != x or (not isinstance(x, complex) and x in (math.inf, -math.inf))
    return F(ANY if z else ONE, V0, dt)


# --------------------------------------------------------------------------- values

_ids = [0]


def newid():
    _ids[0] += 1
    return _ids[0]


class Val:
    deps = frozenset()
    vid = None


class Const(Val):
    """None, str, Ellipsis, slice-free immutable constants (not numbers)"""
    def __init__(self, v, deps=frozenset()):
        self.v, self.deps = v, deps
        self.vid = vconst(v)
    def __repr__(self): return f"Const({self.v!r})"


NONE = Const(None)


class SymStr(Val):
    def __init__(self, vid, deps=frozenset()):
        self.vid, self.deps = vid, deps
    def __repr__(self): return f"SymStr({vshow(self.vid)})"


class Num(Val):
    """number (python or numpy scalar)"""
    __slots__ = ("c", "lin", "f", "vid", "cond", "np")

    def __init__(self, c=None, lin=None, f=None, vid=None, cond=None, np=False):
        self.c, self.lin, self.cond, self.np = c, lin, cond, np
        if c is not None:
            if lin is None and isinstance(c, (int, bool)): self.lin = L(int(c))
            if f is None: f = fconst(c)
            if vid is None: vid = vconst(c)
        elif lin is not None:
            if lin.is_const and lin.c.denominator == 1:
                self.c = int(lin.c); vid = vconst(self.c)
                f = f or fconst(self.c)
            if f is None: f = F(ONE, V0, "i")
            if vid is None: vid = vlinform(lin)
        self.f = f if f is not None else F()
        self.vid = vid if vid is not None else VN.mk(("atom", f"fresh{newid()}"))

    @property
    def deps(self): return self.f.deps

    def __repr__(self):
        return f"Num({self.c if self.c is not None else self.lin if self.lin is not None else vshow(self.vid)}, {self.f})"


class Seg:
    """`n` consecutive elements, each described by `val` (n: Lin or None)"""
    __slots__ = ("n", "val", "sym")
    def __init__(self, n, val, sym=None): self.n, self.val, self.sym = n, val, sym
    def __repr__(self): return f"Seg({self.n}, {self.val})"


class Heap(Val):
    """mutable objects: identity + origin"""
    origin = "fresh"
    epoch = 0


class Band:
    __slots__ = ("lo", "hi", "tight")
    def __init__(self, lo, hi, tight=True): self.lo, self.hi, self.tight = lo, hi, tight     # None = unbounded
    def __repr__(self): return f"Band[{self.lo},{self.hi}]{'' if self.tight else '~'}"


FULL = Band(None, None, True)
EMPTY = Band(L(1), L(-1), True)     # no non-zero entry


def band_empty(b): return b.lo is not None and b.hi is not None and (b.lo - b.hi).is_const and (b.lo - b.hi).c > 0


class Arr(Heap):
    def __init__(self, shape, f, vid=None, band=None, const=None, segs=None, tags=(), epoch=0, origin="fresh"):
        self.shape = shape          # tuple of Lin/None, or None when the rank is unknown
        self.f = f
        self.vid = vid if vid is not None else VN.mk(("atom", f"fresh{newid()}"))
        if shape is not None and len(shape) == 1 and shape[0] is not None: VLEN.setdefault(self.vid, shape[0])
        self.band, self.const, self.segs = band, const, segs
        self.tags = frozenset(tags)
        self.id = newid()
        self.buf = self.id          # memory identity
        self.view = None            # (base Arr, refresh function)
        self.ver = 0
        self.basever = 0
        self.epoch, self.origin = epoch, origin

    @property
    def deps(self): return self.f.deps
    @property
    def ndim(self): return None if self.shape is None else len(self.shape)

    def __repr__(self):
        return f"Arr({self.shape}, {self.f}, band={self.band}, buf={self.buf}, {vshow(self.vid,3)})"


class Lst(Heap):
    def __init__(self, segs, epoch=0, origin="fresh"):
        self.segs = [s if isinstance(s, Seg) else Seg(L(1), s) for s in segs]
        self.id = newid(); self.epoch, self.origin = epoch, origin
        self.extra_deps = frozenset()

    @property
    def deps(self):
        d = self.extra_deps
        for s in self.segs: d = d | s.val.deps
        return d

    @property
    def n(self):
        t = L(0)
        for s in self.segs:
            if s.n is None: return None
            t = t + s.n
        return t

    def concrete(self):
        """python list of values when every element is individually known"""
        out = []
        for s in self.segs:
            if s.n is None or not s.n.is_const or s.n.c > 4096: return None
            if s.n.c != 1 and s.sym is not None: return None
            out += [s.val] * int(s.n.c)
        return out

    @property
    def vid(self):
        return vop("list", *[y for s in self.segs for y in (vlinform(s.n) if s.n is not None else -1, s.val.vid if s.val.vid is not None else id(s.val))])

    def __repr__(self): return f"Lst({self.segs})"


class Tup(Val):
    def __init__(self, items): self.items = list(items)
    @property
    def deps(self):
        d = frozenset()
        for s in self.items: d = d | s.deps
        return d
    @property
    def vid(self): return vop("tuple", *[s.vid if s.vid is not None else id(s) for s in self.items])
    def __repr__(self): return f"Tup({self.items})"


class AbsSeq(Val):
    """immutable abstract sequence (range, enumerate, zip, reversed, ...): n elements, get(i)"""
    cuts = None       # lengths of the runs of equal origin the sequence is made of
    def __init__(self, n, get, deps=frozenset(), vid=None, items=None, rng=None):
        self.n, self.get, self.deps, self.items, self.rng = n, get, deps, items, rng
        self.vid = vid if vid is not None else VN.mk(("atom", f"fresh{newid()}"))
    def __repr__(self): return f"AbsSeq({self.n})"


class SetV(Heap):
    def __init__(self, items, epoch=0, origin="fresh"):
        self.d = dict(items)            # key -> Val
        self.id = newid(); self.epoch, self.origin = epoch, origin
    @property
    def deps(self):
        d = frozenset()
        for s in self.d.values(): d = d | s.deps
        return d
    @property
    def vid(self): return vop("set", *[str(k) for k in self.d])


class Dct(Heap):
    def __init__(self, items=(), epoch=0, origin="fresh"):
        self.d = {}                      # key -> (keyVal, Val)
        for k, v in items: self.d[k] = v
        self.id = newid(); self.epoch, self.origin = epoch, origin
        self.ns = None                   # name space this dict is a view of (globals()/locals()/__dict__)
    @property
    def deps(self):
        d = frozenset()
        for _, v in self.d.values(): d = d | v.deps
        return d
    @property
    def vid(self): return vop("dict", *[y for k, (_, v) in self.d.items() for y in (str(k), v.vid if v.vid is not None else id(v))])
    def __repr__(self): return f"Dct({list(self.d)})"


class Cls(Heap):
    def __init__(self, name, bases=(), ns=None, mod=None, py=None, qual=None, epoch=0, origin="fresh"):
        self.name, self.bases, self.ns, self.mod, self.py = name, list(bases), ns if ns is not None else {}, mod, py
        self.qual = qual or name
        self.id = newid(); self.epoch, self.origin = epoch, origin
        self._mro = None
    def mro(self):
        if self._mro is None:
            seqs = [list(b.mro()) for b in self.bases] + [list(self.bases)]
            out = [self]
            while any(seqs):
                seqs = [s for s in seqs if s]
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs): break
                else: break
                out.append(c)
                seqs = [[x for x in s if x is not c] for s in seqs]
            self._mro = out
        return self._mro
    def lookup(self, name):
        for c in self.mro():
            if name in c.ns: return c.ns[name], c
        return None, None
    def issub(self, other):
        if other in self.mro(): return True
        return bool(self.py and other.py and issubclass(self.py, other.py))
    def __repr__(self): return f"<class {self.name}>"


class Obj(Heap):
    def __init__(self, cls, attrs=None, epoch=0, origin="fresh"):
        self.cls, self.attrs = cls, attrs if attrs is not None else {}
        self.id = newid(); self.epoch, self.origin = epoch, origin
        self.opaque = None       # for opaque library objects: getattr function
        self.label = None
        self._vid = VN.mk(("atom", f"obj{self.id}"))
    @property
    def vid(self): return self._vid
    @property
    def deps(self):
        return getattr(self, "_deps", frozenset())
    def __repr__(self): return f"<{self.cls.name} object>"


class Func(Heap):
    def __init__(self, node, frame, mod, qual, defaults=(), kwdefaults=None, cls=None, epoch=0):
        self.node, self.frame, self.mod, self.qual = node, frame, mod, qual
        self.defaults, self.kwdefaults, self.cls = list(defaults), kwdefaults or {}, cls
        self.attrs = {}
        self.id = newid(); self.epoch = epoch; self.origin = "fresh"
        self.vid = vop("func", qual)
    @property
    def name(self): return getattr(self.node, "name", "<lambda>")
    def __repr__(self): return f"<function {self.qual}>"


class Bound(Val):
    def __init__(self, fn, self_): self.fn, self.self_ = fn, self_
    @property
    def vid(self): return vop("bound", self.fn.vid if self.fn.vid is not None else id(self.fn), self.self_.vid if self.self_.vid is not None else id(self.self_))
    def __repr__(self): return f"<bound {self.fn} of {self.self_!r:.60}>"


class Prop(Val):
    def __init__(self, fget, fset=None): self.fget, self.fset = fget, fset; self.vid = vop("prop", id(self))


class StaticM(Val):
    def __init__(self, fn): self.fn = fn; self.vid = fn.vid


class ClassM(Val):
    def __init__(self, fn): self.fn = fn; self.vid = fn.vid


class CachedProp(Val):
    def __init__(self, fget): self.fget = fget; self.vid = fget.vid


class Builtin(Val):
    """library function with a model: fn(I, args, kwargs) -> Val"""
    def __init__(self, name, fn, attrs=None):
        self.name, self.fn, self.attrs = name, fn, attrs or {}
        self.vid = vop("builtin", name)
    def __repr__(self): return f"<builtin {self.name}>"


class Mod(Heap):
    def __init__(self, name, ns=None, path=None, native=False):
        self.name, self.ns, self.path, self.native = name, ns if ns is not None else {}, path, native
        self.id = newid(); self.vid = vop("module", name); self.origin = "import"
    def __repr__(self): return f"<module {self.name}>"


class CtxMgr(Val):
    """context manager modelled natively"""
    def __init__(self, name, enter=None, exit=None):
        self.name, self.enter, self.exit = name, enter, exit
        self.vid = vop("ctx", name)


class SliceV(Val):
    def __init__(self, lo, hi, st): self.lo, self.hi, self.st = lo, hi, st
    @property
    def vid(self): return vop("slice", self.lo.vid, self.hi.vid, self.st.vid)
    @property
    def deps(self): return self.lo.deps | self.hi.deps | self.st.deps


class Unk(Val):
    """unknown value"""
    def __init__(self, why, deps=frozenset(), vid=None):
        self.why, self.deps = why, deps
        self.vid = vid if vid is not None else VN.mk(("atom", f"unk{newid()}"))
    def __repr__(self): return f"Unk({self.why})"


class AbsRaise(Exception):
    def __init__(self, exc, site=None):
        self.exc, self.site = exc, site       # exc: Obj of an exception class
    def __str__(self):
        return f"{self.exc.cls.name} @ {self.site}"


class Abort(Exception):
    """the path cannot be followed any further (budget)"""
