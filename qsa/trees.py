"""Rooted trees and Runge-Kutta order conditions on coefficient tables read from the source (constant propagation)."""
import functools
import itertools
import math
import numpy as np


@functools.lru_cache(None)
def trees(n):
    """rooted trees with n vertices, as sorted tuples of subtrees"""
    if n == 1: return [()]
    out = set()
    for part in partitions(n - 1):
        for combo in itertools.product(*[trees(k) for k in part]):
            out.add(tuple(sorted(combo)))
    return sorted(out)


@functools.lru_cache(None)
def partitions(n, m=None):
    m = n if m is None else m
    if n == 0: return [()]
    return [(k,) + p for k in range(min(n, m), 0, -1) for p in partitions(n - k, k)]


def size(t): return 1 + sum(size(s) for s in t)


def gamma(t): return size(t) * math.prod(gamma(s) for s in t)


def show(t): return "[" + "".join(show(s) for s in t) + "]" if t else "."


def residual(A, b, t):
    """b . Phi(t) - 1/gamma(t)"""
    def phi(t):
        v = np.ones(len(b))
        for s in t: v = v * (A @ phi(s))
        return v
    return float(b @ phi(t) - 1 / gamma(t))


@functools.lru_cache(None)
def coloured(n):
    """rooted trees whose vertices carry one of two colours"""
    out = set()
    for part in partitions(n - 1):
        for combo in itertools.product(*[coloured(k) for k in part]):
            for c in (0, 1): out.add((c, tuple(sorted(combo))))
    return sorted(out) if n > 1 else [(0, ()), (1, ())]


def csize(t): return 1 + sum(csize(s) for s in t[1])


def cgamma(t): return csize(t) * math.prod(cgamma(s) for s in t[1])


def cshow(t): return "EI"[t[0]] + ("[" + "".join(cshow(s) for s in t[1]) + "]" if t[1] else "")


def cresidual(A, b, t):
    """A, b: pairs of tables, colour of the vertex selects the one used"""
    def phi(t):
        v = np.ones(len(b[0]))
        for s in t[1]: v = v * (A[s[0]] @ phi(s))
        return v
    return float(b[t[0]] @ phi(t) - 1 / cgamma(t))


def is_mixed(t):
    cs = set()
    def rec(t):
        cs.add(t[0])
        for s in t[1]: rec(s)
    rec(t)
    return len(cs) == 2
