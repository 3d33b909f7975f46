"""Row-linear forms of value numbers: which constant matrix L turns a matrix X into a term, term = L @ X."""
from fractions import Fraction
import numpy as np
from .core import *


def vsubst(v, m, memo=None):
    """replace value numbers (m: {old: new}) and rebuild the normal forms"""
    memo = {} if memo is None else memo
    if v in m: return m[v]
    if v in memo: return memo[v]
    k = VN.rev[v]
    if k[0] == "lin":
        r = vconst(k[2])
        for b, x in k[1]: r = vadd(r, vscale(vsubst(b, m, memo), x))
    elif k[0] == "mul":
        r = V1
        for b, e in k[1]:
            t = vsubst(b, m, memo)
            for _ in range(abs(int(e))): r = vmul(r, t) if e > 0 else vdiv(r, t)
            if e != int(e): r = VN.mk(("mul", tuple((memo.get(b, b), e) for b, e in k[1]))); break
    elif k[0] == "op": r = VN.mk(k[:2] + tuple(vsubst(y, m, memo) if isinstance(y, Vid) else y for y in k[2:]))
    else: r = v
    memo[v] = r
    return r


class Unk(Exception): pass


def _num(y):
    if isinstance(y, str):
        s = y[1:]
        if s in ("None", ":"): return None
        try: return int(s)
        except ValueError: pass
        try: return float(s)
        except ValueError: raise Unk(y)
    c = visconst(y)
    if c is not None: return int(c) if c.denominator == 1 else float(c)
    k = VN.rev[y]
    if k[0] == "const" and k[2] == "None": return None
    raise Unk(vshow(y, 3))


def cfold(v):
    """constant value of a closed term (numbers, arrays, slices), or Unk"""
    c = visconst(v)
    if c is not None: return int(c) if c.denominator == 1 else float(c)
    k = VN.rev[v]
    if k[0] == "lin":
        r = float(k[2])
        for b, x in k[1]: r = r + float(x) * np.asarray(cfold(b))
        return r
    if k[0] == "mul":
        r = 1.0
        for b, e in k[1]: r = r * np.asarray(cfold(b), dtype=float) ** float(e)
        return r
    if k[0] != "op": raise Unk(vshow(v, 2))
    n, a = k[1], k[2:]
    if n == "eye": return np.eye(int(_num(a[0])), k=int(_num(a[1])) if len(a) > 1 else 0)
    if n in ("full",): return np.full(tuple(int(_num(x)) for x in a[1:]), _num(a[0]), dtype=float)
    if n in ("ones", "zeros"): return np.full(tuple(int(_num(x)) for x in a), float(n == "ones"))
    if n == "arange": return np.arange(*[_num(x) for x in a])
    if n == "slice": return slice(*[_num(x) for x in a])
    if n == "carr":
        import ast
        return np.array(ast.literal_eval(a[1][1:]), dtype=float).reshape(ast.literal_eval(a[0][1:]))
    if n == "upd":
        b = np.array(cfold(a[0]), dtype=float)
        b[tuple(_idx(x) for x in a[2:])] = cfold(a[1])
        return b
    if n == "idx": return np.asarray(cfold(a[0]))[tuple(_idx(x) for x in a[1:])]
    if n == "T": return np.asarray(cfold(a[0])).T
    if n == "matmul": return np.asarray(cfold(a[0])) @ np.asarray(cfold(a[1]))
    if n in ("tril", "triu", "diag"): return getattr(np, n)(np.asarray(cfold(a[0])), *[int(_num(x)) for x in a[1:]])
    raise Unk(n)


def _idx(x):
    if isinstance(x, str):
        if x == "#None": return None
        return slice(None) if x in (":", "#:") else int(x[1:])
    k = VN.rev[x]
    if k[0] == "const" and k[2] == "':'": return slice(None)
    return cfold(x)


def isrows(ix, M):
    """the index keeps all the columns: (row selector) or (row selector, :)"""
    r = [_idx(x) for x in ix]
    if len(r) > 1 and not (isinstance(r[1], slice) and r[1].indices(M) == (0, M, 1)): raise Unk("columns")
    if len(r) > 2: raise Unk("index")
    return r[0]


def rowlin(v, X, M):
    """L with v = L @ X for the M x M matrix numbered X, or Unk; a row vector for one row"""
    if v == X: return np.eye(M)
    if X not in vsubterms(v):
        c = np.asarray(cfold(v))
        if np.any(c): raise Unk("constant part")
        return np.zeros((M, M)) if c.ndim == 2 else np.zeros(M)
    k = VN.rev[v]
    if k[0] == "lin":
        if k[2] != 0: raise Unk("constant")
        r = 0
        for b, x in k[1]: r = r + float(x) * rowlin(b, X, M)
        return r
    # a scalar factor
    kx = VN.rev[X]
    if k[0] == "mul":
        r = vdiv(v, X)
        c = visconst(r)
        if c is not None: return float(c) * np.eye(M)
        if X not in vsubterms(r):
            try: c = np.asarray(cfold(r))
            except Unk: c = None
            if c is not None and c.ndim == 2 and c.shape == (M, 1): return np.diag(c[:, 0])
        raise Unk("product")
    if k[0] != "op": raise Unk(vshow(v, 2))
    n, a = k[1], k[2:]
    if n in ("copy", "asarray", "array", "tril", "ascontiguousarray", "row") and len(a) == 1: return rowlin(a[0], X, M)
    if n == "matmul": return np.asarray(cfold(a[0])) @ rowlin(a[1], X, M)
    if n == "idx":
        b = rowlin(a[0], X, M)
        return b[isrows(a[1:], M)]
    if n == "upd":
        b = np.array(rowlin(a[0], X, M), dtype=float)
        r = isrows(a[2:], M)
        val = np.zeros_like(b[r]) if visconst(a[1]) == 0 else rowlin(a[1], X, M)
        b[r] = val
        return b
    if n in ("concatenate", "vstack", "concat"):
        if n == "concat":
            if a[0] not in ("#0",): raise Unk("axis")
            a = a[1:]
        if len(a) == 1 and VN.rev[a[0]][:2] == ("op", "list"): a = VN.rev[a[0]][3::2]
        out = []
        for x in a:
            if X in vsubterms(x): out.append(np.atleast_2d(rowlin(x, X, M)))
            else:
                c = np.asarray(cfold(x), dtype=float)
                if np.any(c): raise Unk("constant part")
                out.append(np.zeros((1 if c.ndim < 2 else c.shape[0], M)))
        return np.vstack(out)
    raise Unk(n)
