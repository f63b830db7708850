"""Abstract vectors: elements of an arbitrary inner product space with a self-adjoint
operator H.  A vector is a linear combination of named base vectors H^k b with Term
coefficients; inner products of base vectors are scalar unknowns <a,b;k> = <a, H^k b>.

Arrays of the distinguished shape are interpreted this way, so what is proved holds in every
dimension and for every symmetric H."""
from __future__ import annotations

import numpy as np

from . import terms as t_
from .terms import ONE, ZERO, T, ite, var


class Unsup(Exception):
    pass


def _unsup(msg):
    from .interp import Unsupported
    raise Unsupported(msg)


def atom(a, b):
    (x, i), (y, j) = a, b
    if x > y:
        x, y = y, x
    return var("<%s,%s;%d>" % (x, y, i + j))


class AVec:
    is_avec = True
    dtype = np.dtype("float64")

    def __init__(self, shape, lc):
        self.shape = tuple(shape)
        self.lc = {b: c for b, c in lc.items() if c is not ZERO}
        self.ndim = len(self.shape)

    def __repr__(self):
        return "AVec(%s)" % self.lc


class AProd:
    """elementwise product of vectors: sum of c * (u o v)"""
    is_avec = True
    dtype = np.dtype("float64")

    def __init__(self, shape, bl):
        self.shape = tuple(shape)
        self.bl = bl
        self.ndim = len(self.shape)


def base(name, shape):
    return AVec(shape, {(name, 0): ONE})


def zero(shape):
    return AVec(shape, {})


def addv(u, v):
    r = dict(u.lc)
    for b, c in v.lc.items():
        r[b] = r.get(b, ZERO) + c
    return AVec(u.shape, r)


def scalev(u, k):
    return AVec(u.shape, {b: c * k for b, c in u.lc.items()})


def dotv(u, v):
    s = ZERO
    for a, c in u.lc.items():
        for b, d in v.lc.items():
            s = s + c * d * atom(a, b)
    return s


def applyH(u):
    return AVec(u.shape, {(n, k + 1): c for (n, k), c in u.lc.items()})


def substv(u, name, w):
    """replace base vector `name` by the vector w (H commutes)"""
    r = zero(u.shape)
    for (n, k), c in u.lc.items():
        if n == name:
            x = w
            for _ in range(k):
                x = applyH(x)
            r = addv(r, scalev(x, c))
        else:
            r = addv(r, AVec(u.shape, {(n, k): c}))
    return r


def ite_vec(c, u, v):
    u, v = lift(u), lift(v)
    if not (isinstance(u, AVec) and isinstance(v, AVec)):
        _unsup("conditional of abstract products")
    return AVec(u.shape, {b: ite(c, u.lc.get(b, ZERO), v.lc.get(b, ZERO)) for b in set(u.lc) | set(v.lc)})


def lift(x):
    if getattr(x, "is_avec", False):
        return x
    fl = np.asarray(x, dtype=object).reshape(-1)
    if fl.size > 1 and all((isinstance(t, t_.Term) and t is ZERO) or (not isinstance(t, t_.Term) and t == 0) for t in fl):
        return zero(np.shape(x))
    return x


def scalar(x):
    """the common scalar of a (broadcast) array, or None"""
    if getattr(x, "is_avec", False):
        return None
    from .interp import obj
    fl = obj(x).reshape(-1)
    if all(t is fl[0] for t in fl):
        return fl[0]
    return None


def arr0(t):
    a = np.empty((), dtype=object)
    a[()] = t
    return a


def run(ctx, eqn, ins):
    name = eqn.primitive.name
    p = eqn.params
    xs = [lift(x) for x in ins]
    if name in ("add", "sub", "add_any"):
        a, b = xs
        k = -ONE if name == "sub" else ONE
        if isinstance(a, AVec) and isinstance(b, AVec):
            return addv(a, scalev(b, k))
        if isinstance(a, AProd) or isinstance(b, AProd):
            def bl(x):
                if isinstance(x, AProd):
                    return x.bl
                if isinstance(x, AVec) and not x.lc:
                    return []
                _unsup("abstract vector arithmetic: %s" % name)
            return AProd(a.shape, list(bl(a)) + [(c * k, u, v) for c, u, v in bl(b)])
    elif name == "neg":
        return _sc(xs[0], -ONE)
    elif name == "mul":
        a, b = xs
        if isinstance(a, AVec) and isinstance(b, AVec):
            return AProd(a.shape, [(ONE, a, b)])
        s = scalar(b if getattr(a, "is_avec", False) else a)
        if s is not None:
            return _sc(a if getattr(a, "is_avec", False) else b, s)
    elif name == "div":
        s = scalar(xs[1])
        if s is not None:
            return _sc(xs[0], t_.div(ONE, s))
    elif name == "square" or (name == "integer_pow" and p["y"] == 2):
        if isinstance(xs[0], AVec):
            return AProd(xs[0].shape, [(ONE, xs[0], xs[0])])
    elif name == "integer_pow" and p["y"] == 1:
        return xs[0]
    elif name == "reduce_sum":
        a = xs[0]
        if tuple(p["axes"]) == tuple(range(a.ndim)) and isinstance(a, AProd):
            s = ZERO
            for c, u, v in a.bl:
                s = s + c * dotv(u, v)
            return arr0(s)
    elif name == "dot_general":
        a, b = xs
        (ca, cb), (ba, bb) = p["dimension_numbers"]
        if isinstance(a, AVec) and isinstance(b, AVec) and not ba and not bb and len(ca) == a.ndim and tuple(ca) == tuple(cb):
            return arr0(dotv(a, b))
    elif name in ("convert_element_type", "copy", "copy_p", "stop_gradient", "real", "optimization_barrier"):
        return xs[0]
    elif name in ("reshape", "squeeze", "expand_dims", "broadcast_in_dim", "transpose"):
        a = xs[0]
        sh = eqn.outvars[0].aval.shape
        if int(np.prod(sh)) == int(np.prod(a.shape)) and name != "transpose":
            if isinstance(a, AVec):
                return AVec(sh, a.lc)
            return AProd(sh, a.bl)
    elif name == "concatenate" and len(xs) == 1:
        return xs[0]
    elif name == "select_n":
        c, a, b = ins[0], xs[1], xs[2]
        if len(xs) == 3:
            from .interp import obj
            fl = obj(c).reshape(-1)
            if all(t is fl[0] for t in fl):
                return ite_vec(fl[0], b, a)
    elif name == "uf" and len(xs) == 1 and not p["derivs"] and p["name"].endswith(":H") and isinstance(xs[0], AVec):
        return applyH(xs[0])
    _unsup("abstract vector operation %s" % name)


def _sc(a, k):
    if isinstance(a, AVec):
        return scalev(a, k)
    return AProd(a.shape, [(c * k, u, v) for c, u, v in a.bl])


class Space:
    """a numeric realisation: base vectors -> numpy arrays, H -> matrix"""

    def __init__(self, vecs, H):
        self.vecs, self.H = vecs, H

    def vec(self, u, env):
        r = np.zeros(self.H.shape[0])
        for (n, k), c in u.lc.items():
            r = r + t_.feval(c, env) * (np.linalg.matrix_power(self.H, k) @ self.vecs[n])
        return r

    def atoms(self, terms, env):
        """add the values of the inner product unknowns occurring in terms"""
        for x in t_.free_vars(*terms):
            nm = x.args[0]
            if nm.startswith("<") and nm not in env:
                ab, k = nm[1:-1].rsplit(";", 1)
                a, b = ab.split(",")
                env[nm] = float(self.vecs[a] @ np.linalg.matrix_power(self.H, int(k)) @ self.vecs[b])
        return env
