"""Coefficient tables of the registered schemes as the source defines them, read by constant propagation through the
class bodies, the registration decorator, the constructor and the accessors (never by importing the package)."""
from .h import *


def const(v):
    if isinstance(v, Arr) and v.const is not None: return np.array(v.const, dtype=float)
    if isinstance(v, Num) and v.c is not None and not isinstance(v.c, complex): return np.array(float(v.c))
    return None


import numpy as np


def read(w, h, cls, padding=None, what=("nodes", "weights", "Q", "S", "weightsEmbedded", "order", "orderEmbedded", "hCoeffs")):
    """{accessor: constant array / None (unknown) / 'raise:<Exc>'} of an instance; None when construction has no constant answer"""
    out = {}
    kw = {"padding": Const(padding)} if padding is not None else {}
    for a in what:
        res = []
        for p in w.explore(lambda I: h.attr(I.call(cls, [], dict(kw)), a), max_paths=8):
            if p.kind == "ok":
                if isinstance(p.value, Arr): w.I.refresh(p.value)
                res.append(const(p.value))
            elif p.kind == "raise": res.append("raise:" + p.excname())
            else: res.append(None)
        out[a] = res[0] if len(res) == 1 else None
    return out
