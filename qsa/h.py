"""Symbolic inputs and subjects shared by the rules."""
from .core import *
from .npm import mk

T1 = unit(T=1)
NODE_TYPES = ["LEGENDRE", "EQUID", "CHEBY-1", "CHEBY-2", "CHEBY-3", "CHEBY-4"]
QUAD_TYPES = ["GAUSS", "RADAU-LEFT", "RADAU-RIGHT", "LOBATTO"]
QPKG, DPKG = "qmat.qcoeff", "qmat.qdelta"


class H:
    force_dt = None # element type of the float inputs created while it is set ("i": integers)
    force_all = False # complex inputs too
    float_scalars = False # scalars stay floats
    as_list = False # arrays are passed as (nested) lists
    tag = ""        # appended to the names of the symbolic inputs created while it is set

    def __init__(self, w): self.w, self.I = w, w.I

    # ---- inputs
    sizes = {}

    def int(self, name, lo=None, hi=None):
        if name in self.sizes and not self.tag: return Num(c=self.sizes[name])
        name += self.tag
        self.I.bounds.declare(name, lo, hi)
        return Num(lin=Sym(name), f=F(ONE, V0, "i", frozenset([name])))

    def real(self, name, unit=ONE, aff=V0, dt="f"):
        name += self.tag
        if (dt == "f" or (dt == "c" and self.force_all)) and self.force_dt and not self.float_scalars: dt = self.force_dt
        return Num(f=F(unit, aff, dt, frozenset([name])), vid=vatom(name))

    def time(self, name, dt="f"): return self.real(name, T1, V1, dt)

    def arr(self, name, shape, unit=ONE, aff=V0, dt="f", band=None, origin="arg"):
        name += self.tag
        if (dt == "f" or (dt == "c" and self.force_all)) and self.force_dt: dt = self.force_dt
        shape = tuple(d.lin if isinstance(d, Num) else d for d in shape)
        if self.as_list and origin == "arg":
            def nest(sh, vid, d):
                if not sh: return Num(f=F(unit, aff, dt, frozenset([name])), vid=vid)
                return Lst([Seg(L(sh[0]), nest(sh[1:], vop("item", vid, f"*{d}"), d + 1))], self.I.epoch, origin)
            l = nest(shape, vatom(name), 0)
            if isinstance(l, Lst): l.arr_vid = (vatom(name), l.segs[0])
            return l
        a = mk(self.I, shape, F(unit, aff, dt, frozenset([name])), vatom(name), band, origin=origin)
        return a

    def nodes(self, M, name="nodes", dt="f", origin="arg"): return self.arr(name, (M,), T1, V1, dt, origin=origin)
    def qmat(self, M, name="Q", dt="f", origin="arg"): return self.arr(name, (M, M), T1, V0, dt, FULL, origin=origin)

    def lst(self, items, origin="arg"):
        l = Lst(items, self.I.epoch, origin)
        return l

    def symlst(self, name, n, unit, aff, dt="f", origin="arg"):
        """list of n unknown numbers"""
        name += self.tag
        return Lst([Seg(n.lin if isinstance(n, Num) else L(n), Num(f=F(unit, aff, dt, frozenset([name])), vid=vop("item", vatom(name), "*")))], self.I.epoch, origin)

    def s(self, x): return Const(x) if x is None or isinstance(x, str) else Num(c=x)

    # ---- running
    def call(self, f, *args, **kw): return self.I.call(f, list(args), kw)
    def attr(self, o, name): return self.I.getattr(o, name)
    def meth(self, o, name, *args, **kw): return self.I.call(self.I.getattr(o, name), list(args), kw)

    # ---- subjects of the tree
    def classes(self, registry):
        """distinct classes of a registry: {name: Cls}"""
        d = self.w.get(registry)
        out = {}
        if isinstance(d, Dct):
            for k, (_, c) in d.d.items():
                if isinstance(c, Cls): out.setdefault(c.name, c)
        return out

    def names(self, registry):
        d = self.w.get(registry)
        return {k[1]: c for k, (_, c) in d.d.items()} if isinstance(d, Dct) else {}

    def qgens(self): return self.classes(QPKG + ".Q_GENERATORS")
    def qdeltas(self): return self.classes(DPKG + ".QDELTA_GENERATORS")
    def rks(self): return self.classes("qmat.qcoeff.butcher.RK_SCHEMES")

    def site_of(self, cls, meth="__init__"):
        f, c = cls.lookup(meth)
        if c is None: return f"{cls.qual}"
        return f"{c.qual}.{meth}"

    def init_params(self, cls):
        """names of the constructor parameters (of the wrapped __init__ too)"""
        f, c = cls.lookup("__init__")
        seen = 0
        while isinstance(f, Func) and seen < 5:
            seen += 1
            names = [p.arg for p in f.node.args.posonlyargs] + [p.arg for p in f.node.args.args]
            wrapped = f.attrs.get("__wrapped__") if hasattr(f, "attrs") else None
            if names[:1] == ["self"] and len(names) > 1: return names[1:]
            if isinstance(wrapped, Func): f = wrapped; continue
            inner = [v for v in closure_values(f) if isinstance(v, Func)]
            if not inner: return names[1:]
            f = inner[0]
        return []

    def coll(self, M, nodeType="LEGENDRE", quadType="RADAU-RIGHT", tLeft=None, tRight=None, **kw):
        c = self.w.get("qmat.qcoeff.collocation.Collocation")
        k = dict(nNodes=M, nodeType=Const(nodeType), quadType=Const(quadType))
        if tLeft is not None: k["tLeft"] = tLeft
        if tRight is not None: k["tRight"] = tRight
        k.update(kw)
        return self.I.call(c, [], k)

    def fullparams(self, M, tLeft=None, nodeType="LEGENDRE", quadType="RADAU-RIGHT"):
        """values for every constructor parameter name used in the Q-Delta families"""
        d = dict(Q=lambda: self.qmat(M), nodes=lambda: self.nodes(M), nNodes=lambda: M,
                 nodeType=lambda: Const(nodeType), quadType=lambda: Const(quadType))
        if tLeft is not None: d["tLeft"] = lambda: tLeft
        return d

    def make(self, cls, M, tLeft=None, **kw):
        """instance of a Q-Delta class from explicit symbolic parameters"""
        fp = self.fullparams(M, tLeft, **kw)
        args = {}
        for n in self.init_params(cls):
            if n in fp: args[n] = fp[n]()
        return self.I.call(cls, [], args)


def closure_values(f):
    fr = getattr(f, "frame", None)
    if fr is None or fr.func is None: return []
    return list(fr.locals.values())


def leaves(v, path="", seen=None):
    """(path, leaf value) for the numbers and arrays of a result"""
    seen = seen if seen is not None else set()
    if isinstance(v, Tup):
        for i, x in enumerate(v.items): yield from leaves(x, f"{path}[{i}]", seen)
    elif isinstance(v, Lst):
        if id(v) in seen: return
        seen.add(id(v))
        for i, s in enumerate(v.segs): yield from leaves(s.val, f"{path}[{i}]", seen)
    elif isinstance(v, Dct):
        if id(v) in seen: return
        seen.add(id(v))
        for k, (_, x) in v.d.items(): yield from leaves(x, f"{path}[{k}]", seen)
    else: yield path, v


def lin_eq(I, a, b):
    """True/False/None equality of two Lin under current bounds (False only when they differ for some value)"""
    if a is None or b is None: return None
    d = L(a) - L(b)
    e = I.bounds.eq0(d)
    if e is not None: return e
    if d.is_const: return d.c == 0
    return None
