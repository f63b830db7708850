"""Specification helpers shared by the contracts."""
import numpy as np

from vk import terms as t_
from vk.contract import Contract, conj, eqs
from vk.terms import (FALSE, HALF, ONE, PI, TRUE, ZERO, T, and_, cos, div, eq, exp, iff, implies,
                      ite, le, log, lt, maxv, minv, mul, ne, not_, or_, q, sin, sqrt, sub)


def A(*xs):
    out = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        out[i] = T(x) if not isinstance(x, np.ndarray) else x
    return out


def dot(a, b):
    s = ZERO
    for x, y in zip(np.asarray(a, dtype=object).reshape(-1), np.asarray(b, dtype=object).reshape(-1)):
        s = s + T(x) * T(y)
    return s


def cross(a, b):
    return A(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def matvec(M, x):
    return A(*[dot(r, x) for r in M])


def norm2(a):
    return dot(a, a)


def det(M):
    from vk.interp import det as d
    return d(np.asarray(M, dtype=object))


# -- functions with many extra arguments ---------------------------------------------
# relational: handing four positional and two keyword arguments through a routine gives what
# the same routine gives for the closure over them
MANY = {"a1": (), "a2": (), "a3": (), "a4": (), "k1": (), "k2": ()}
MANYF = {"w": (((), (), (), (), (), ()), ())}


def extra(v):
    return (v.a1, v.a2, v.a3, v.a4), {"p": v.k1, "q": v.k2}


def open_(v, f):
    """f with extra arguments"""
    return lambda x, a, b, c, d, *, p, q: f(x, v.w(a, b, c, d, p, q))


def shut(v, f):
    """the closure"""
    return lambda x: f(x, v.w(v.a1, v.a2, v.a3, v.a4, v.k1, v.k2))


def passes(v, o, names):
    """o: pairs (with the extra arguments, closure)"""
    import jax
    E = []
    for nm, (a, b) in zip(names, o):
        la, lb = jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)
        ok = len(la) == len(lb) and all(np.shape(x) == np.shape(y) for x, y in zip(la, lb))
        E.append((nm + " hands every argument on", and_(*[eqs(x, y) for x, y in zip(la, lb)]) if ok else FALSE))
    return E
