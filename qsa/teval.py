"""Interpretation of closed value-number terms in a model (numpy arrays for the free symbols): two terms that stay equal for
generic values of their symbols are the same function of them. Nothing of the analysed program is run: the terms come from
the abstract interpreter, and an operator this module does not know makes the comparison undecided (Unk)."""
import numpy as np
from .core import *
from .rows import Unk

np.seterr(all="ignore")

ELEM = {"exp": np.exp, "log": np.log, "log10": np.log10, "sqrt": np.sqrt, "sin": np.sin, "cos": np.cos, "tan": np.tan, "abs": np.abs, "sign": np.sign,
        "conj": np.conj, "conjugate": np.conj, "real": np.real, "imag": np.imag, "cosh": np.cosh, "sinh": np.sinh, "expm1": np.expm1, "log1p": np.log1p,
        "isinf": np.isinf, "isnan": np.isnan, "isfinite": np.isfinite, "floor": np.floor, "ceil": np.ceil, "rint": np.rint, "arccos": np.arccos, "arcsin": np.arcsin,
        "logical_not": np.logical_not, "trunc": np.trunc, "fix": np.fix, "cbrt": np.cbrt, "log2": np.log2, "exp2": np.exp2, "tanh": np.tanh, "arctan": np.arctan,
        "arcsinh": np.arcsinh, "arccosh": np.arccosh, "arctanh": np.arctanh, "sinc": np.sinc, "deg2rad": np.deg2rad, "rad2deg": np.rad2deg, "signbit": np.signbit,
        "isneginf": np.isneginf, "isposinf": np.isposinf, "isreal": np.isreal, "iscomplex": np.iscomplex, "angle": np.angle, "square": np.square, "positive": np.positive,
        "reciprocal": lambda x: 1.0 / np.asarray(x)}
CMP = {"Eq": np.equal, "NotEq": np.not_equal, "Lt": np.less, "LtE": np.less_equal, "Gt": np.greater, "GtE": np.greater_equal}
BIN = {"BitOr": np.bitwise_or, "BitAnd": np.bitwise_and, "BitXor": np.bitwise_xor, "logical_or": np.logical_or, "logical_and": np.logical_and,
       "maximum": np.maximum, "minimum": np.minimum, "eq": np.equal, "isin": np.isin, "hypot": np.hypot, "fmod": np.fmod, "arctan2": np.arctan2, "copysign": np.copysign, "heaviside": np.heaviside, "nextafter": np.nextafter, "logaddexp": np.logaddexp,
       "logaddexp2": np.logaddexp2, "gcd": lambda x, y: np.gcd(np.asarray(x).astype(int), np.asarray(y).astype(int)), "lcm": lambda x, y: np.lcm(np.asarray(x).astype(int), np.asarray(y).astype(int)), "mod": np.mod, "floordiv": np.floor_divide}
SAME = ("copy", "asarray", "array_", "ascontiguousarray", "complex", "float")


def lit(y):
    """a python literal among the arguments of an operator"""
    s = y[1:]
    if s in ("None",): return None
    if s == ":": return slice(None)
    try: return int(s)
    except ValueError: pass
    try: return float(s)
    except ValueError: raise Unk(y)


class TE:
    def __init__(self, env): self.env, self.memo = env, {}

    def __call__(self, v):
        if isinstance(v, str): return lit(v)
        r = self.memo.get(v)
        if r is None:
            r = self.ev(v)
            self.memo[v] = r
        return r

    def int(self, v):
        r = self(v)
        if r is None: return None
        r = np.asarray(r)
        if r.ndim or r != int(r.real): raise Unk("integer")
        return int(r.real)

    def ix(self, y):
        if isinstance(y, str):
            if y in (":", "#:"): return slice(None)
            if y in ("#new",): return None
            return lit(y)
        k = VN.rev[y]
        if k[0] == "const":
            if k[2] in ("':'",): return slice(None)
            if k[2] in ("'new'", "None"): return None
            if k[2] in ("'...'", "Ellipsis"): return Ellipsis
        if k[0] == "op" and k[1] == "slice":
            lo, hi, st = [self.sl(z) for z in k[2:]]
            if isinstance(k[4], str):               # bounds counted from the start
                if st < 0: return slice(0, 0) if lo < 0 else slice(lo, None if hi < 0 else hi, st)
                return slice(max(lo, 0), max(hi, 0), st)
            return slice(lo, hi, st)
        r = np.asarray(self(y))
        if r.dtype == bool: return r
        if np.iscomplexobj(r): r = r.real
        if np.any(r != np.round(r)): raise Unk("index")
        r = r.astype(int)
        return int(r) if r.ndim == 0 else r

    def sl(self, z):
        if isinstance(z, str): return lit(z)
        k = VN.rev[z]
        if k[0] == "const" and k[2] == "None": return None
        return self.int(z)

    def ev(self, v):
        k = VN.rev[v]
        t = k[0]
        if t in ("atom", "sym"):
            if k[1] in self.env: return self.env[k[1]]
            if k[1].startswith("nu(") and "|" in k[1]: return np.unique(self(int(k[1][:-1].split("|")[-1]))).size
            if k[1] in PRODS: return int(np.prod([self.int(vlinform(d)) for d in PRODS[k[1]]]))
            if k[1] in DERIVED: lin, m = DERIVED[k[1]]; return self.int(vlinform(lin)) % m
            raise Unk(f"free {k[1]}")
        if t == "const":
            try: r = eval(k[2], {"__builtins__": {}}, {"nan": np.nan, "inf": np.inf})
            except Exception: raise Unk(k[2])
            if isinstance(r, (int, float, complex)): return r
            raise Unk(k[2])
        if t == "lin":
            r = float(k[2])
            for b, x in k[1]: r = r + float(x) * np.asarray(self(b))
            return r
        if t == "mul":
            r, off = 1.0, None
            for b, e in k[1]:
                x = np.asarray(self(b))
                z = VN.rev[b]
                if z[0] == "op" and z[1] == "eye" and len(z) == 4 and off is None:
                    d = self.int(z[3])
                    if d: off = (x, d); continue        # times a shifted identity: the (shorter) vector on that diagonal
                r = r * (x if e == 1 else x ** int(e) if e == int(e) and e >= 0 else (1.0 / x) ** int(-e) if e == int(e) else (x + 0j) ** float(e))
            if off is not None:
                if np.ndim(r) == 1 and len(r) == len(off[0]) - abs(off[1]): return np.diag(r, off[1])
                r = r * off[0]
            return r
        if t != "op": raise Unk(str(t))
        n, a = k[1], k[2:]
        f = getattr(self, "op_" + n, None)
        if f is not None:
            try: return f(*a)
            except TypeError as x: raise Unk(f"{n}: {x}")
        if n[:3] == "cmp" and n[3:] in CMP and len(a) == 2:
            x, y = np.asarray(self(a[0])), np.asarray(self(a[1]))
            if n not in ("cmpEq", "cmpNotEq"): x, y = self.real(x), self.real(y)
            return CMP[n[3:]](x, y)
        if n in BIN and len(a) == 2: return BIN[n](np.asarray(self(a[0])), np.asarray(self(a[1])))
        if n in ELEM and len(a) == 1: return ELEM[n](np.asarray(self(a[0])))
        if n in SAME and len(a) == 1: return self(a[0])
        raise Unk(n)

    # ---- construction
    def op_eye(self, n, *r):
        if len(r) == 1: return np.eye(self.int(n), k=self.int(r[0]))
        if not r: return np.eye(self.int(n))
        raise Unk("eye")

    def op_full(self, c, *dims): return np.full(tuple(self.int(d) for d in dims), self(c))
    def op_ones(self, *dims): return np.ones(tuple(self.int(d) for d in dims))
    def op_zeros(self, *dims): return np.zeros(tuple(self.int(d) for d in dims))
    def op_bc(self, x, *dims): return np.broadcast_to(self(x), tuple(self.int(d) for d in dims))

    def bound(self, x):
        """generic indices a sequence element is written with"""
        return sorted({str(VN.rev[y][1]) for y in vsubterms(x) if VN.rev[y][0] in ("atom", "sym") and str(VN.rev[y][1])[:2] in ("i@", "e@", "g@", "m@") and VN.rev[y][1] not in self.env})

    def each(self, n, x):
        """the n values of an element term"""
        b = self.bound(x)
        if not b: return [self(x)] * n
        if len(b) > 1: raise Unk("nested generic elements")
        return [TE({**self.env, b[0]: i})(x) for i in range(n)]

    def op_segs(self, *a):
        out = []
        for n, x in zip(a[::2], a[1::2]):
            n = self.int(n)
            if self.bound(x): out += self.each(n, x); continue
            x = np.asarray(self(x))
            if x.ndim == 0: out += [x] * n
            elif x.ndim == 1 and len(x) == n: out += list(x)
            else: raise Unk("segs")
        try: return np.array(out)
        except ValueError: raise Unk("segs")

    def op_array(self, *a):
        if len(a) % 2: raise Unk("array")
        out = []
        for n, x in zip(a[::2], a[1::2]): out += [np.asarray(y) for y in self.each(self.int(n), x)]
        try: return np.array(out)
        except ValueError: raise Unk("array")

    def op_linspace(self, s, e, n, closed="#True", *r):
        c = closed[1:] if isinstance(closed, str) else str(closed)
        if r or c not in ("True", "False"): raise Unk("linspace")
        return np.linspace(self(s), self(e), self.int(n), endpoint=c == "True")

    def op_arange(self, a, b, st):
        if isinstance(st, str): return self.int(a) + lit(st) * np.arange(self.int(b))       # start, length, step
        return np.arange(self(a), self(b), self(st))                                        # as in the program
    def op_stack(self, ax, *xs): return np.stack([self(x) for x in xs], axis=lit(ax))
    def op_concat(self, ax, *xs): return np.concatenate([np.atleast_1d(self(x)) for x in xs], axis=lit(ax))
    def op_row(self, x): return np.asarray(self(x))[None]
    def op_at1(self, x): return np.atleast_1d(self(x))

    def op_repeat(self, x, r, ax=None):
        x = np.asarray(self(x))
        return np.repeat(x, self.int(r), axis=None if ax is None or lit(ax) == -99 else lit(ax))

    def op_tile(self, x, r): return np.tile(self(x), self.py(r))
    def op_carr(self, sh, data):
        import ast
        d = ast.literal_eval(data[1:])
        return np.array(d, dtype=bool if d and all(isinstance(x, bool) for x in d) else int if d and all(isinstance(x, int) for x in d) else float).reshape(ast.literal_eval(sh[1:]))

    # ---- access
    def op_idx(self, x, *i):
        try: return np.asarray(self(x))[tuple(self.ix(y) for y in i)]
        except IndexError: raise Unk("index out of the model")
    op_el = op_idx

    def op_upd(self, x, val, *i):
        b = np.asarray(self(x))
        val = np.asarray(self(val))
        b = np.array(b, dtype=np.result_type(b, val))
        try: b[tuple(self.ix(y) for y in i)] = val
        except (IndexError, ValueError): raise Unk("update")
        return b

    op_take = op_idx

    def op_takeinv(self, x, inv): return np.asarray(self(x))[:, self.ix(inv)]
    def op_where(self, c, x, y): return np.where(self(c), self(x), self(y))
    def op_nonzero(self, x, i=None):
        if i is None: raise Unk("nonzero")
        return np.nonzero(self(x))[lit(i) if isinstance(i, str) else self.int(i)]
    def op_unique(self, x): return np.unique(self(x))
    def op_unique_inv(self, x): return np.unique(self(x), return_inverse=True)[1]
    def op_unique_index(self, x): return np.unique(self(x), return_index=True)[1]
    def op_unique_counts(self, x): return np.unique(self(x), return_counts=True)[1]
    def op_setdiff1d(self, x, y): return np.setdiff1d(self(x), self(y))
    def op_sort(self, x): return np.sort(self(x), axis=-1)
    def op_argsort(self, x): return np.argsort(self(x), axis=-1, kind="stable")
    def op_ravel(self, x): return np.ravel(self(x))
    def op_reshape(self, x, *d): return self.shaped(np.asarray(self(x)), d)
    def shaped(self, x, d):
        try: return np.reshape(x, tuple(self.int(y) for y in d))
        except ValueError: raise Unk("reshape")
    def op_squeeze(self, x): return np.squeeze(self(x))
    def op_col(self, x): return np.asarray(self(x))[:, None]
    def op_rev(self, x): return np.asarray(self(x))[::-1]
    def op_unravel(self, v, base):
        return np.reshape(np.asarray(self(v)), np.shape(self(base)))
    op_unreshape = op_unravel
    def op_pow(self, a, b):
        a, b = np.asarray(self(a)), np.asarray(self(b))
        r = np.power(a * (1.0 if a.dtype.kind in "iub" else 1), b)
        return r
    def op_vander(self, x, n, up="#False", *r):
        if r: raise Unk("vander")
        return np.vander(self(x), self.int(n), increasing=(up[1:] if isinstance(up, str) else str(up)) == "True")
    def op_eigh_tri(self, d, e):
        d, e = np.asarray(self(d)), np.asarray(self(e))
        return np.linalg.eigvalsh(np.diag(d) + np.diag(e, 1) + np.diag(e, -1))
    def op_len(self, x): return np.shape(self(x))[0]
    def op_size(self, x): return np.size(self(x))
    def op_int(self, x): return np.trunc(np.asarray(self(x)))

    def ludec(self, a):
        from scipy.linalg import lu
        return lu(self(a))
    def op_luU(self, a): return self.ludec(a)[2]
    def op_luL(self, a): return self.ludec(a)[1]
    def op_luP(self, a): return self.ludec(a)[0]
    def op_einsum(self, spec, *xs):
        try: return np.einsum(spec[1:], *[self(x) for x in xs])
        except ValueError: raise Unk("einsum")
    def op_leggauss(self, n, i=None):
        if i is None: raise Unk("leggauss")
        return np.polynomial.legendre.leggauss(self.int(n))[lit(i) if isinstance(i, str) else self.int(i)]
    # ---- linear algebra and reductions
    def op_matmul(self, a, b):
        a, b = np.asarray(self(a)), np.asarray(self(b))
        if a.ndim == 0 or b.ndim == 0: return a * b
        try: return a @ b
        except ValueError: raise Unk("matmul")
    op_dot = op_matmul

    def op_solve(self, a, b):
        a, b = np.asarray(self(a)), np.asarray(self(b))
        try: return np.linalg.solve(a, b if b.ndim else np.full(a.shape[-1], b))
        except (ValueError, np.linalg.LinAlgError): raise Unk("solve")

    def op_inv(self, a):
        try: return np.linalg.inv(self(a))
        except (ValueError, np.linalg.LinAlgError): raise Unk("inv")

    def op_det(self, a): return np.linalg.det(self(a))
    def op_T(self, a, *ax): return np.transpose(np.asarray(self(a)), [self.int(y) if not isinstance(y, str) else lit(y) for y in ax] or None)
    def op_outer(self, a, b): return np.outer(self(a), self(b))

    def red(self, f, x, *r):
        x = np.asarray(self(x))
        if len(r) > 1: raise Unk("reduction")
        ax = self.axis(r[0]) if r else None
        try: return f(x, axis=ax)
        except (ValueError, IndexError): raise Unk("reduction")

    def axis(self, y):
        if isinstance(y, str) and y[1:2] == "(":
            import ast
            return ast.literal_eval(y[1:])
        y = lit(y) if isinstance(y, str) else self.int(y)
        return None if y in (None, -99) else y

    def op_any(self, x, *r): return self.red(np.any, x, *r)
    def op_all(self, x, *r): return self.red(np.all, x, *r)
    def op_std(self, x, *r): return self.red(np.std, x, *r)
    def op_var(self, x, *r): return self.red(np.var, x, *r)
    def op_cumprod(self, x, *r): return self.red(np.cumprod, x, *r)
    def op_count_nonzero(self, x, *r): return self.red(np.count_nonzero, x, *r)
    def op_median(self, x, *r): return self.red(np.median, x, *r)
    def op_outerMult(self, x, y): return np.multiply.outer(np.asarray(self(x)), np.asarray(self(y)))
    def op_outerSub(self, x, y): return np.subtract.outer(np.asarray(self(x)), np.asarray(self(y)))
    def op_outerAdd(self, x, y): return np.add.outer(np.asarray(self(x)), np.asarray(self(y)))
    def op_outerDiv(self, x, y): return np.divide.outer(np.asarray(self(x)), np.asarray(self(y)))
    def op_outerPow(self, x, y): return np.power.outer(np.asarray(self(x)) * 1.0, np.asarray(self(y)))
    def op_mesh(self, i, ij, x, y): return np.meshgrid(self(x), self(y), indexing="ij" if ij[1:] == "True" else "xy")[lit(i)]
    def op_vectorize(self, r): return self(r)
    def op_elv(self, x): return self(x)
    def op_union1d(self, x, y): return np.union1d(self(x), self(y))
    def op_intersect1d(self, x, y): return np.intersect1d(self(x), self(y))
    def op_trace(self, x): return np.trace(self(x))

    def py(self, v):
        """argument of a named numpy function"""
        k = VN.rev[v] if not isinstance(v, str) else None
        if k is not None and k[0] == "op" and k[1] == "tuple": return tuple(self.py(y) for y in k[2:])
        if k is not None and k[0] == "op" and k[1] == "list":
            out = []
            for n, x in zip(k[2::2], k[3::2]):
                m = VN.rev[x]
                out += [self.py(x)] * self.int(n) if m[0] == "op" and m[1] in ("tuple", "list") or self.int(n) == 1 else list(self.each(self.int(n), x))
            return out
        if k is not None and k[0] == "const" and (k[2][:1] in "'\"" or k[2] in ("None", "True", "False")): return eval(k[2], {"__builtins__": {}}, {})
        r = np.asarray(self(v))
        if r.ndim == 0 and r.dtype.kind == "f" and np.isfinite(r) and r == int(r): return int(r)
        return r[()] if r.ndim == 0 else r

    def op_np(self, name, *a):
        f = np
        if name[1:].startswith("scipy."):
            import scipy.linalg
            f, path = scipy, name[1:].split(".")[1:]
        else: path = name[1:].split(".")
        for z in path: f = getattr(f, z, None)
        if f is None: raise Unk(name)
        args, kw, key = [], {}, None
        for y in a:
            if isinstance(y, str) and y.startswith("#:"): key = y[2:]; continue
            if key is not None: kw[key] = self.py(y); key = None
            else: args.append(self.py(y))
        try: return f(*args, **kw)
        except Exception as x: raise Unk(f"{name}: {x}")

    def op_np_item(self, r, i): return self(r)[lit(i)]
    def op_list(self, *a): return np.asarray(self.py_list(a))
    def py_list(self, a):
        out = []
        for n, x in zip(a[::2], a[1::2]): out += list(self.each(self.int(n), x))
        try: return np.array(out)
        except ValueError: raise Unk("list")
    def op_trilidx(self, n, k, i): return np.tril_indices(self.int(n), self.int(k))[lit(i)]
    def op_triuidx(self, n, k, i): return np.triu_indices(self.int(n), self.int(k))[lit(i)]
    def op_eigvals(self, a): return np.sort_complex(np.linalg.eigvals(self(a)))
    def op_array0(self): return np.zeros(0)
    def op_empty(self, *d):
        """memory before it is written: values nobody asked for"""
        return np.random.RandomState(3).uniform(1e5, 9e5, tuple(self.int(y) for y in d[:-1]))
    def op_dim(self, x, i): return np.shape(self(x))[lit(i)]
    def op_luPL(self, a):
        from scipy.linalg import lu
        return lu(self(a), permute_l=True)[0]
    def op_matrix_power(self, a, n): return np.linalg.matrix_power(self(a), self.int(n))
    def op_searchsorted(self, a, v): return np.searchsorted(self(a), self(v))
    def op_sum(self, x, *r): return self.red(np.sum, x, *r)
    def op_fft(self, x, how): return getattr(np.fft, how[1:])(self(x))
    def op_max(self, x, *r): return self.red(np.max, x, *r)
    def op_min(self, x, *r): return self.red(np.min, x, *r)
    def op_mean(self, x, *r): return self.red(np.mean, x, *r)
    def op_prod(self, x, *r): return self.red(np.prod, x, *r)
    def op_cumsum(self, x, *r): return self.red(np.cumsum, x, *r)

    def op_argmin(self, x, *r): return self.red(np.argmin, x, *r)
    def op_argmax(self, x, *r): return self.red(np.argmax, x, *r)
    def op_ptp(self, x, *r): return self.red(np.ptp, x, *r)

    def op_norm(self, x, o=None, *r):
        ax = self.axis(r[0]) if r else None
        if isinstance(o, str): od = lit(o)
        else:
            k = VN.rev[o]
            od = float("inf") if k[0] == "const" and k[2] == "inf" else None if k[0] == "const" and k[2] == "None" else k[2].strip("'") if k[0] == "const" and k[2][:1] == "'" else self(o)
        if isinstance(od, str) and od not in ("fro", "nuc"): raise Unk("norm")
        try: return np.linalg.norm(np.asarray(self(x)), ord=None if od in (0, None) else od, axis=ax)
        except ValueError: raise Unk("norm")

    def op_diag(self, x, *k): return np.diag(np.asarray(self(x)), *[self.int(y) for y in k])
    def op_diagonal(self, x, *k): return np.diagonal(np.asarray(self(x)), *[self.int(y) for y in k])
    def op_tril(self, x, *k): return np.tril(np.asarray(self(x)), *[self.int(y) for y in k])
    def op_triu(self, x, *k): return np.triu(np.asarray(self(x)), *[self.int(y) for y in k])
    def op_tri(self, n, m=None, k=None): return np.tri(self.int(n), None if m is None else self.int(m), 0 if k is None else self.int(k))
    def op_psum(self, sym, n, e, st):
        name = VN.rev[sym][1]
        r = self(st)
        for i in range(self.int(n)): r = r + np.asarray(TE({**self.env, name: i})(e))
        return r
    def op_diff(self, x, *k):
        if k: raise Unk("diff")
        return np.diff(np.asarray(self(x)))
    # ---- solutions of nonlinear problems: unknown, but the same term stands for the same value
    def op_fsolve(self, r, x0): return np.random.RandomState(r % 2**31 if isinstance(r, int) else 7).uniform(0.1, 1, np.shape(self(x0)))
    def op_minimize(self, r, x0): return self.op_fsolve(r, x0)
    # ---- conditions
    def num(self, x):
        r = np.asarray(self(x))
        if np.iscomplexobj(r) and np.any(r.imag): raise Unk("order of complex numbers")
        return r.real
    def real(self, r):
        r = np.asarray(r)
        if np.iscomplexobj(r) and np.any(r.imag): raise Unk("order of complex numbers")
        return r.real
    def op_not(self, x): return ~np.asarray(self(x), dtype=bool)
    def op_nz(self, x): return np.asarray(self(x)) != 0
    def op_ge0(self, x): return self.num(x) >= 0
    def op_eq0(self, x): return np.asarray(self(x)) == 0
    def op_lt(self, a, b): return self.num(a) < self.num(b)
    def op_isclose(self, a, b, *r):
        if len(r) not in (0, 2): raise Unk("isclose")
        return np.isclose(self(a), self(b), **({"rtol": self(r[0]), "atol": self(r[1])} if r else {}))
    def op_allclose(self, *a): return np.all(self.op_isclose(*a))
    def op_array_equal(self, a, b): return np.array_equal(self(a), self(b))


def teval(v, env):
    with np.errstate(all="ignore"):
        r = TE(env)(v)
    return np.asarray(r)


def close(a, b, rtol=1e-9):
    """True / False, None when the model degenerates (infinities)"""
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype == bool: a = a.astype(float)
    if b.dtype == bool: b = b.astype(float)
    if a.shape != b.shape:
        if a.size == 1 or b.size == 1:
            try: a, b = np.broadcast_arrays(a, b)
            except ValueError: return False
        else: return False
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))): return None
    return bool(np.all(np.abs(a - b) <= rtol * (1 + np.maximum(np.abs(a), np.abs(b)))))


def admits(events, env):
    """do the recorded decisions of a path hold in the model?  True / False, None when one of them is not understood"""
    te, unk = TE(env), False
    with np.errstate(all="ignore"):
        for e in events:
            if e.get("kind") != "branch": continue
            v = getattr(e["cond"], "vid", None)
            try:
                if v is None: raise Unk("condition")
                r = np.asarray(te(v))
                if r.ndim: raise Unk("condition")
                if bool(r) != bool(e["outcome"]): return False
            except Unk: unk = True
    return None if unk else True
