"""Symbolic execution of jaxprs over the reals.

A jaxpr is what JAX extracts from the real source on every run and what JAX
itself executes.  Values are numpy arrays: integer/bool arrays are concrete,
object arrays hold Terms.  Machine floats are read as reals.
"""
from __future__ import annotations

import itertools
from fractions import Fraction

import jax
import jax.numpy as jnp
import numpy as np
from jax._src import core as jcore

from . import terms as t_
from .terms import (FALSE, NAN, ONE, T, TRUE, ZERO, Term, add, and_, div, eq, fn, ite, le, lt,
                    mul, not_, or_, power, q, scale, sub)


class Unsupported(Exception):
    pass


RULES = {}
CALLEE = {}      # callee contracts: jit name -> fn(ctx, eqn, args) -> outs
LOOPS = {}       # loop contracts
MAXSIZE = 20000


def rule(*names):
    def deco(f):
        for n in names:
            RULES[n] = f
        return f
    return deco


class Ctx:
    """one symbolic execution: facts assumed from callee contracts"""

    def __init__(self):
        self.facts = []          # assumed (from callee contracts)
        self.assumed = {}        # name -> count, for the evidence
        self.obls = []           # (label, hyps, goal) generated (callee preconditions, loops)
        self.fresh_n = 0
        self.path = []           # path condition (Terms)
        self.loop_contracts = {}
        self.callee = {}
        self.while_hook = None
        self.scan_hook = None
        self.prims = set()
        self.split_index = False
        self.decisions = []      # choices taken by choose()
        self.pos = 0
        self.case_conds = []
        self.pending = []        # decision prefixes still to be explored

    def choose(self, options):
        """case split of the whole execution: options [(cond, value)]"""
        options = [(c, v) for c, v in options if c is not FALSE]
        if len(options) == 1:
            if options[0][0] is not TRUE:
                self.facts.append(options[0][0])
                self.case_conds.append(options[0][0])
            return options[0][1]
        if self.pos < len(self.decisions):
            k = self.decisions[self.pos]
        else:
            k = 0
            for j in range(1, len(options)):
                self.pending.append(self.decisions[:self.pos] + [j])
            self.decisions = self.decisions[:self.pos] + [0]
        self.pos += 1
        self.facts.append(options[k][0])
        self.case_conds.append(options[k][0])
        return options[k][1]

    def fresh(self, pre, sort="R"):
        self.fresh_n += 1
        return t_.var("%s#%d" % (pre, self.fresh_n), sort)

    def use(self, name):
        self.assumed[name] = self.assumed.get(name, 0) + 1


def is_sym(x):
    return isinstance(x, np.ndarray) and x.dtype == object


def conc(x):
    return not is_sym(x)


def obj(x):
    """object array of Terms"""
    if is_sym(x):
        return x
    x = np.asarray(x)
    out = np.empty(x.shape, dtype=object)
    flat = out.reshape(-1)
    src = x.reshape(-1)
    if x.dtype == bool:
        for i in range(flat.size):
            flat[i] = TRUE if src[i] else FALSE
    elif x.dtype.kind in "iu":
        for i in range(flat.size):
            flat[i] = q(int(src[i]))
    elif x.dtype.kind == "f":
        for i in range(flat.size):
            flat[i] = t_.real_of_float(float(src[i]))
    else:
        raise Unsupported("dtype %s" % x.dtype)
    return flat.reshape(x.shape)


def fill(shape, f):
    out = np.empty(shape, dtype=object)
    fl = out.reshape(-1)
    for i in range(fl.size):
        fl[i] = f(i)
    return fl.reshape(shape)


def maybe_conc(x, dtype):
    """turn an object array of constants back into a concrete int/bool array"""
    if not is_sym(x):
        return x
    dt = np.dtype(dtype) if not jnp.issubdtype(dtype, jax.dtypes.prng_key) else None
    if dt is None or dt.kind not in "iub":
        return x
    fl = x.reshape(-1)
    if dt.kind == "b":
        if all(v is TRUE or v is FALSE for v in fl):
            return np.array([v is TRUE for v in fl], dtype=bool).reshape(x.shape)
    elif all(v.op == "q" and v.args[0].denominator == 1 for v in fl):
        return np.array([int(v.args[0]) for v in fl], dtype=dt).reshape(x.shape)
    return x


def emap(f, *xs):
    xs = [obj(x) for x in xs]
    shape = np.broadcast_shapes(*[x.shape for x in xs])
    xs = [np.broadcast_to(x, shape).reshape(-1) for x in xs]
    out = np.empty(int(np.prod(shape)) if shape else 1, dtype=object)
    cache = {}
    for i in range(out.size):
        a = tuple(x[i] for x in xs)
        r = cache.get(a)
        if r is None:
            r = f(*a)
            cache[a] = r
        out[i] = r
    return out.reshape(shape)


def const_val(c):
    """jaxpr constant / literal"""
    if isinstance(c, np.ndarray) or np.isscalar(c) or isinstance(c, (bool, int, float)):
        a = np.asarray(c)
    elif hasattr(c, "dtype") and jnp.issubdtype(c.dtype, jax.dtypes.prng_key):
        return c
    else:
        a = np.asarray(c)
    if a.dtype.kind == "f":
        return obj(a)
    return a


def run_jaxpr(ctx, jaxpr, consts, args):
    env = {}

    def read(v):
        if isinstance(v, jcore.Literal):
            return const_val(v.val)
        return env[v]

    for v, c in zip(jaxpr.constvars, consts):
        env[v] = c if isinstance(c, np.ndarray) and c.dtype == object else const_val(c)
    assert len(jaxpr.invars) == len(args), (len(jaxpr.invars), len(args))
    for v, a in zip(jaxpr.invars, args):
        env[v] = a
    for eqn in jaxpr.eqns:
        ins = [read(v) for v in eqn.invars]
        outs = run_eqn(ctx, eqn, ins)
        for v, o in zip(eqn.outvars, outs):
            env[v] = o
    return [read(v) for v in jaxpr.outvars]


def run_eqn(ctx, eqn, ins):
    name = eqn.primitive.name
    ctx.prims.add(name)
    if name in HIGHER:
        outs = HIGHER[name](ctx, eqn, ins)
        return list(outs)
    if any(getattr(x, "is_avec", False) for x in ins):
        from . import avec
        outs = avec.run(ctx, eqn, ins)
        if not isinstance(outs, (list, tuple)):
            outs = [outs]
        return list(outs)
    floats = any(jnp.issubdtype(v.aval.dtype, jnp.floating) for v in eqn.outvars)
    if all(conc(x) for x in ins) and not floats:
        return _bind(eqn, ins)
    r = RULES.get(name)
    if r is None:
        if all(conc(x) for x in ins):
            return [const_val(o) for o in _bind(eqn, ins)]
        raise Unsupported("primitive %s" % name)
    for v in eqn.outvars:
        if int(np.prod(v.aval.shape)) > MAXSIZE:
            raise Unsupported("array too large in %s: %s" % (name, v.aval.shape))
    outs = r(ctx, eqn, *ins)
    if not isinstance(outs, (list, tuple)):
        outs = [outs]
    res = []
    for v, o in zip(eqn.outvars, outs):
        o = o if isinstance(o, np.ndarray) else np.asarray(o)
        if tuple(o.shape) != tuple(v.aval.shape):
            raise Unsupported("shape mismatch in %s: %s vs %s" % (name, o.shape, v.aval.shape))
        res.append(maybe_conc(o, v.aval.dtype))
    return res


def _bind(eqn, ins):
    ins = [jnp.asarray(x, dtype=v.aval.dtype) if isinstance(x, np.ndarray) else x
           for x, v in zip(ins, eqn.invars)]
    params = eqn.primitive.get_bind_params(eqn.params)
    out = eqn.primitive.bind(*ins, **params)
    if not eqn.primitive.multiple_results:
        out = [out]
    res = []
    for o in out:
        if jnp.issubdtype(o.dtype, jax.dtypes.prng_key):
            res.append(o)
        else:
            res.append(np.asarray(o))
    return res


# -- elementwise --------------------------------------------------------------
def ew(name, f):
    RULES[name] = lambda ctx, eqn, *xs: emap(f, *xs)


def _isbool(eqn):
    return eqn.invars[0].aval.dtype == np.bool_


ew("add", lambda a, b: add(a, b))
ew("add_any", lambda a, b: add(a, b))
ew("sub", lambda a, b: sub(a, b))
ew("mul", lambda a, b: mul(a, b))
ew("neg", lambda a: scale(a, -1))
ew("max", lambda a, b: t_.maxv(a, b))
ew("min", lambda a, b: t_.minv(a, b))
ew("abs", lambda a: t_.absv(a))
ew("sign", lambda a: t_.sign(a))
ew("lt", lambda a, b: lt(a, b))
ew("le", lambda a, b: le(a, b))
ew("gt", lambda a, b: lt(b, a))
ew("ge", lambda a, b: le(b, a))
ew("eq", lambda a, b: eq(a, b))
ew("ne", lambda a, b: not_(eq(a, b)))
ew("and", lambda a, b: _b(and_, a, b))
ew("or", lambda a, b: _b(or_, a, b))
ew("not", lambda a: _b(not_, a))
ew("sqrt", lambda a: t_.root(a, 2))
ew("rsqrt", lambda a: power(t_.root(a, 2), -1))
ew("cbrt", lambda a: ite(le(ZERO, a), t_.root(a, 3), scale(t_.root(scale(a, -1), 3), -1)))
ew("square", lambda a: mul(a, a))
ew("sin", lambda a: t_.sin(a))
ew("cos", lambda a: t_.cos(a))
ew("tan", lambda a: div(t_.sin(a), t_.cos(a)))
ew("exp", lambda a: t_.exp(a))
ew("log", lambda a: t_.log(a))
ew("log1p", lambda a: t_.log(add(a, ONE)))
ew("expm1", lambda a: sub(t_.exp(a), ONE))
ew("acos", lambda a: t_.acos(a))
ew("asin", lambda a: sub(scale(t_.PI, Fraction(1, 2)), t_.acos(a)))
def _atan2(y, x):
    """by its definition (0 at the origin)"""
    r = t_.root(add(mul(x, x), mul(y, y)), 2)
    u = t_.acos(div(x, r))
    nonneg = y.op == "fn" and y.args[0] == "root"
    v = u if nonneg else ite(lt(y, q(0)), mul(q(-1), u), u)
    return ite(lt(q(0), r), v, q(0))


ew("atan2", _atan2)
_LN2 = t_.log(q(2))
ew("exp2", lambda a: t_.exp(mul(a, _LN2)))
ew("log2", lambda a: div(t_.log(a), _LN2))
ew("asinh", lambda a: t_.log(add(a, t_.root(add(mul(a, a), ONE), 2))))
ew("acosh", lambda a: t_.log(add(a, t_.root(sub(mul(a, a), ONE), 2))))
ew("atanh", lambda a: scale(t_.log(div(add(ONE, a), sub(ONE, a))), Fraction(1, 2)))
ew("erfc", lambda a: sub(ONE, fn("erf", a)))
ew("xor", lambda a, b: ite(a, not_(b), b) if a.sort == "B" else _b(and_, a, b))
ew("device_put", lambda a: a)
ew("sharding_constraint", lambda a: a)
ew("zeros_like", lambda a: ZERO)
ew("one_minus_square", lambda a: sub(ONE, mul(a, a)))
ew("atan", lambda a: _atan2(a, ONE))
ew("tanh", lambda a: fn("tanh", a))
ew("sinh", lambda a: scale(sub(t_.exp(a), t_.exp(scale(a, -1))), Fraction(1, 2)))
ew("cosh", lambda a: scale(add(t_.exp(a), t_.exp(scale(a, -1))), Fraction(1, 2)))
ew("logistic", lambda a: fn("logistic", a))
ew("erf", lambda a: fn("erf", a))
ew("floor", lambda a: t_.floor(a))
ew("ceil", lambda a: scale(t_.floor(scale(a, -1)), -1))
ew("stop_gradient", lambda a: a)
ew("copy", lambda a: a)
ew("copy_p", lambda a: a)
ew("reduce_precision", lambda a: a)
ew("optimization_barrier", lambda a: a)
ew("is_finite", lambda a: FALSE if (a is NAN or t_.isinf(a)) else TRUE)
ew("clamp", lambda lo, x, hi: t_.minv(t_.maxv(x, lo), hi))
ew("nextafter", lambda a, b: a)


def _b(f, *a):
    if any(x.sort != "B" for x in a):
        raise Unsupported("bitwise operation on symbolic integers")
    return f(*a)


@rule("optimization_barrier")
def _ob(ctx, eqn, *xs):
    return list(xs)


@rule("div")
def _div(ctx, eqn, a, b):
    if eqn.outvars[0].aval.dtype.kind in "iu":
        # truncated integer division
        def idiv(x, y):
            f = t_.floor(div(x, y))
            return ite(le(ZERO, div(x, y)), f, scale(t_.floor(scale(div(x, y), -1)), -1))
        return emap(idiv, a, b)
    return emap(lambda x, y: div(x, y), a, b)


@rule("rem")
def _rem(ctx, eqn, a, b):
    # C remainder: x - y*trunc(x/y)
    def f(x, y):
        z = div(x, y)
        tr = ite(le(ZERO, z), t_.floor(z), scale(t_.floor(scale(z, -1)), -1))
        return sub(x, mul(y, tr))
    return emap(f, a, b)


@rule("round")
def _round(ctx, eqn, a):
    even = int(eqn.params["rounding_method"]) == 1

    def f(x):
        if even:
            z = add(x, q(Fraction(1, 2)))
            r = t_.floor(z)
            odd = not_(eq(scale(t_.floor(scale(r, Fraction(1, 2))), 2), r))
            return ite(and_(eq(r, z), odd), sub(r, ONE), r)
        r = t_.floor(add(t_.absv(x), q(Fraction(1, 2))))
        return ite(le(ZERO, x), r, scale(r, -1))
    return emap(f, a)


@rule("integer_pow")
def _ipow(ctx, eqn, a):
    y = eqn.params["y"]
    return emap(lambda x: power(x, y), a)


@rule("pow")
def _pow(ctx, eqn, a, b):
    def f(x, y):
        if y.op == "q":
            k = y.args[0]
            if k == 0:
                return ONE
            return power(x, k)
        if x is ONE:
            return ONE
        return fn("powr", x, y)
    return emap(f, a, b)


@rule("convert_element_type")
def _conv(ctx, eqn, a):
    src, dst = eqn.invars[0].aval.dtype, np.dtype(eqn.params["new_dtype"])
    if conc(a):
        if dst.kind == "f":
            return obj(np.asarray(a).astype(np.int64) if src != np.bool_ else np.asarray(a).astype(np.int64))
        return np.asarray(jnp.asarray(a).astype(dst))
    if src == np.bool_:
        if dst.kind == "b":
            return a
        return emap(lambda x: ite(x, ONE, ZERO), a)
    if dst.kind == "b":
        return emap(lambda x: not_(eq(x, ZERO)), a)
    if src.kind == "f" and dst.kind in "iu":
        return emap(lambda x: ite(le(ZERO, x), t_.floor(x), scale(t_.floor(scale(x, -1)), -1)), a)
    return a


@rule("select_n")
def _select(ctx, eqn, which, *cases):
    if eqn.invars[0].aval.dtype == np.bool_:
        return emap(lambda c, a, b: ite(c, b, a), which, *cases)
    def f(c, *cs):
        r = cs[-1]
        for i in range(len(cs) - 2, -1, -1):
            r = ite(eq(c, q(i)), cs[i], r)
        return r
    return emap(f, which, *cases)


# -- reductions ----------------------------------------------------------------
def _reduce(x, axes, f):
    x = obj(x)
    axes = tuple(axes)
    keep = [i for i in range(x.ndim) if i not in axes]
    y = np.transpose(x, keep + list(axes)).reshape([x.shape[i] for i in keep] + [-1])
    sh = y.shape[:-1]
    out = np.empty(sh, dtype=object)
    for idx in np.ndindex(*sh):
        out[idx] = f(list(y[idx]))
    return out


@rule("reduce_sum")
def _rsum(ctx, eqn, a):
    return _reduce(a, eqn.params["axes"], lambda v: add(ZERO, *v))


@rule("reduce_prod")
def _rprod(ctx, eqn, a):
    return _reduce(a, eqn.params["axes"], lambda v: mul(ONE, *v))


@rule("reduce_max")
def _rmax(ctx, eqn, a):
    return _reduce(a, eqn.params["axes"], lambda v: _fold(t_.maxv, v))


@rule("reduce_min")
def _rmin(ctx, eqn, a):
    return _reduce(a, eqn.params["axes"], lambda v: _fold(t_.minv, v))


def _fold(f, v):
    r = v[0]
    for x in v[1:]:
        r = f(r, x)
    return r


@rule("reduce_and")
def _rand(ctx, eqn, a):
    return _reduce(a, eqn.params["axes"], lambda v: and_(*v))


@rule("reduce_or")
def _ror(ctx, eqn, a):
    return _reduce(a, eqn.params["axes"], lambda v: or_(*v))


def _arg(a, eqn, better, ctx=None):
    (ax,) = eqn.params["axes"]

    def f(v):
        best, idx = v[0], ZERO
        for i in range(1, len(v)):
            c = better(v[i], best)
            best = ite(c, v[i], best)
            idx = ite(c, q(i), idx)
        return idx
    out = _reduce(a, (ax,), f)
    if ctx is not None and ctx.split_index:
        res = np.empty(out.shape, dtype=object)
        for i in np.ndindex(*out.shape):
            res[i] = q(ctx.choose(leaves_of(out[i])))
        return res
    return out


@rule("argmax")
def _argmax(ctx, eqn, a):
    if eqn.invars[0].aval.dtype == np.bool_:
        return _arg(emap(lambda x: ite(x, ONE, ZERO), a), eqn, lambda x, b: lt(b, x), ctx)
    return _arg(a, eqn, lambda x, b: lt(b, x), ctx)


@rule("argmin")
def _argmin(ctx, eqn, a):
    return _arg(a, eqn, lambda x, b: lt(x, b), ctx)


def _cum(x, axis, rev, f):
    x = obj(x)
    y = np.moveaxis(x, axis, 0)
    if rev:
        y = y[::-1]
    out = np.empty(y.shape, dtype=object)
    for idx in np.ndindex(*y.shape[1:]):
        acc = None
        for i in range(y.shape[0]):
            v = y[(i,) + idx]
            acc = v if acc is None else f(acc, v)
            out[(i,) + idx] = acc
    if rev:
        out = out[::-1]
    return np.moveaxis(out, 0, axis)


@rule("cumsum")
def _cumsum(ctx, eqn, a):
    return _cum(a, eqn.params["axis"], eqn.params["reverse"], lambda x, y: add(x, y))


@rule("cumprod")
def _cumprod(ctx, eqn, a):
    return _cum(a, eqn.params["axis"], eqn.params["reverse"], lambda x, y: mul(x, y))


@rule("cummax")
def _cummax(ctx, eqn, a):
    return _cum(a, eqn.params["axis"], eqn.params["reverse"], t_.maxv)


@rule("cummin")
def _cummin(ctx, eqn, a):
    return _cum(a, eqn.params["axis"], eqn.params["reverse"], t_.minv)


@rule("cumlogsumexp")
def _cumlse(ctx, eqn, a):
    return emap(t_.log, _cum(emap(t_.exp, a), eqn.params["axis"], eqn.params["reverse"], lambda x, y: add(x, y)))


def _multilinear(ctx, eqn, *xs):
    """an operation that is linear in each operand: its coefficients are read off the unit vectors"""
    xs = [obj(x) for x in xs]
    if int(np.prod([x.size for x in xs])) > 4000:
        raise Unsupported("%s too large" % eqn.primitive.name)
    params = eqn.primitive.get_bind_params(eqn.params)
    out = np.full(eqn.outvars[0].aval.shape, ZERO, dtype=object)
    fl = out.reshape(-1)
    for ks in itertools.product(*[range(x.size) for x in xs]):
        es = [jnp.asarray((np.arange(x.size) == k).astype(np.float64).reshape(x.shape)) for x, k in zip(xs, ks)]
        c = np.asarray(eqn.primitive.bind(*es, **params)).reshape(-1)
        for i in np.nonzero(c)[0]:
            fl[i] = add(fl[i], mul(obj(const_val(c[i:i + 1])).reshape(-1)[0], *[x.reshape(-1)[k] for x, k in zip(xs, ks)]))
    return fl.reshape(out.shape)


for _n in ("conv_general_dilated", "reduce_window_sum"):
    RULES[_n] = _multilinear


@rule("polynomial")
def _polynomial(ctx, eqn, x, *cs):
    def f(z, *c):
        r = c[-1]
        for k in c[-2::-1]:
            r = add(mul(r, z), k)
        return r
    return emap(f, x, *cs)


@rule("top_k")
def _top_k(ctx, eqn, a):
    k, n = eqn.params["k"], eqn.invars[0].aval.ndim
    ax = eqn.params.get("axis", n - 1) % n
    a = np.moveaxis(obj(a), ax, -1)
    val = np.empty(a.shape[:-1] + (k,), dtype=object)
    pos = np.empty(a.shape[:-1] + (k,), dtype=object)
    for ix in np.ndindex(*a.shape[:-1]):
        v = list(a[ix])
        used = [FALSE] * len(v)
        for r in range(k):
            best, idx = None, ZERO
            for j, x in enumerate(v):
                if best is None:
                    best, idx, ok = x, q(j), not_(used[j])
                    continue
                c = and_(not_(used[j]), or_(not_(ok), lt(best, x)))
                best, idx, ok = ite(c, x, best), ite(c, q(j), idx), or_(ok, not_(used[j]))
            val[ix + (r,)], pos[ix + (r,)] = best, idx
            used = [or_(u, eq(idx, q(j))) for j, u in enumerate(used)]
    return [np.moveaxis(val, -1, ax), np.moveaxis(pos, -1, ax)]


@rule("reduce_xor")
def _rxor(ctx, eqn, a):
    return _reduce(a, eqn.params["axes"], lambda v: _fold(lambda x, y: ite(x, not_(y), y), v))


@rule("dot_general")
def _dot(ctx, eqn, a, b):
    (ca, cb), (ba, bb) = eqn.params["dimension_numbers"]
    a, b = obj(a), obj(b)
    fa = [i for i in range(a.ndim) if i not in ca and i not in ba]
    fb = [i for i in range(b.ndim) if i not in cb and i not in bb]
    A = np.transpose(a, list(ba) + fa + list(ca))
    B = np.transpose(b, list(bb) + fb + list(cb))
    bs = [a.shape[i] for i in ba]
    sa = [a.shape[i] for i in fa]
    sb = [b.shape[i] for i in fb]
    nb = int(np.prod(bs)) if bs else 1
    ma = int(np.prod(sa)) if sa else 1
    mb = int(np.prod(sb)) if sb else 1
    k = int(np.prod([a.shape[i] for i in ca])) if ca else 1
    A = A.reshape(nb, ma, k)
    B = B.reshape(nb, mb, k)
    if nb * ma * mb * k > 2_000_000:
        raise Unsupported("dot_general too large")
    out = np.empty((nb, ma, mb), dtype=object)
    for n in range(nb):
        for i in range(ma):
            for j in range(mb):
                out[n, i, j] = add(ZERO, *[mul(A[n, i, l], B[n, j, l]) for l in range(k)])
    return out.reshape(bs + sa + sb)


# -- structural --------------------------------------------------------------
@rule("broadcast_in_dim")
def _bid(ctx, eqn, a, *dyn):
    shape = eqn.outvars[0].aval.shape
    dims = eqn.params["broadcast_dimensions"]
    a = obj(a)
    if a.ndim == 0:
        return np.broadcast_to(a, shape).copy()
    sh = [1] * len(shape)
    for i, d in enumerate(dims):
        sh[d] = a.shape[i]
    # operand dims must be in order
    return np.broadcast_to(a.reshape(sh), shape).copy()


@rule("tile")
def _tile(ctx, eqn, a):
    return np.tile(obj(a), tuple(eqn.params["reps"]))


@rule("reshape")
def _reshape(ctx, eqn, a, *dyn):
    return obj(a).reshape(eqn.outvars[0].aval.shape)


@rule("squeeze")
def _squeeze(ctx, eqn, a):
    return obj(a).reshape(eqn.outvars[0].aval.shape)


@rule("expand_dims")
def _expand(ctx, eqn, a):
    return obj(a).reshape(eqn.outvars[0].aval.shape)


@rule("transpose")
def _transpose(ctx, eqn, a):
    return np.transpose(obj(a), eqn.params["permutation"])


@rule("rev")
def _rev(ctx, eqn, a):
    return np.flip(obj(a), eqn.params["dimensions"])


@rule("concatenate")
def _concat(ctx, eqn, *xs):
    return np.concatenate([obj(x) for x in xs], axis=eqn.params["dimension"])


@rule("stack")
def _stack(ctx, eqn, *xs):
    ax = eqn.params.get("axis", eqn.params.get("dimension", 0))
    return np.stack([obj(x) for x in xs], axis=ax)


@rule("unstack")
def _unstack(ctx, eqn, x):
    ax = eqn.params.get("axis", eqn.params.get("dimension", 0))
    x = obj(x)
    return [np.asarray(np.take(x, i, axis=ax), dtype=object).reshape(v.aval.shape)
            for i, v in enumerate(eqn.outvars)]


@rule("split")
def _split(ctx, eqn, x):
    x = obj(x)
    idx = np.cumsum(eqn.params["sizes"])[:-1]
    return np.split(x, idx, axis=eqn.params["axis"])


@rule("slice")
def _slice(ctx, eqn, a):
    p = eqn.params
    st = p["strides"] or [1] * len(p["start_indices"])
    return obj(a)[tuple(slice(s, e, k) for s, e, k in zip(p["start_indices"], p["limit_indices"], st))]


@rule("iota")
def _iota(ctx, eqn, *dyn):
    sh = eqn.params["shape"]
    d = eqn.params["dimension"]
    a = np.arange(sh[d]).reshape([-1 if i == d else 1 for i in range(len(sh))])
    return obj(np.broadcast_to(a, sh))


@rule("pad")
def _pad(ctx, eqn, a, v):
    a, v = obj(a), obj(v)
    ids, table = _ids([a, v.reshape(1)])
    out = _bindids(eqn, [ids[0], ids[1].reshape(())])
    return _unids(out, table)


def _ids(arrs):
    table, ids, n = [], [], 0
    for a in arrs:
        ids.append(np.arange(n, n + a.size, dtype=np.int64).reshape(a.shape))
        table += list(a.reshape(-1))
        n += a.size
    return ids, table


def _bindids(eqn, ins, **over):
    params = dict(eqn.params)
    params.update(over)
    return np.asarray(eqn.primitive.bind(*[jnp.asarray(i) for i in ins], **params))


def _unids(out, table, other=NAN):
    r = np.empty(out.shape, dtype=object)
    fl, src = r.reshape(-1), out.reshape(-1)
    for i in range(fl.size):
        k = int(src[i])
        fl[i] = table[k] if 0 <= k < len(table) else other
    return fl.reshape(out.shape)


def _outer_ite(u):
    """an outermost conditional in the sums, products and roundings u is made of"""
    if u.op == "ite":
        return u
    if u.op == "add":
        subs = [w for w, _ in u.args[1]]
    elif u.op == "mul":
        subs = [w for w, _ in u.args]
    elif u.op == "fn" or u.op == "floor":
        subs = [w for w in u.args if isinstance(w, t_.Term)]
    else:
        subs = []
    for w in subs:
        r = _outer_ite(w)
        if r is not None:
            return r
    return None


def leaves_of(t, limit=4000):
    """[(condition, integer value)] for an integer-valued ite tree"""
    out = []

    def go(u, c):
        if c is FALSE:
            return
        if u.op == "q":
            out.append((c, int(u.args[0])))
        elif u.op == "ite":
            go(u.args[1], and_(c, u.args[0]))
            go(u.args[2], and_(c, not_(u.args[0])))
        else:
            w = _outer_ite(u)
            if w is None:
                raise Unsupported("symbolic index %s" % t_.show(u, 5))
            go(t_.subst(u, {w: w.args[1]}), and_(c, w.args[0]))
            go(t_.subst(u, {w: w.args[2]}), and_(c, not_(w.args[0])))
        if len(out) > limit:
            raise Unsupported("too many index cases")

    go(t, TRUE)
    merged = {}
    for c, v in out:
        merged[v] = or_(merged[v], c) if v in merged else c
    return [(c, v) for v, c in merged.items()]


def _enum_indices(idx):
    """[(cond, concrete int array)] over all combinations"""
    idx = obj(idx)
    combos = [(TRUE, [])]
    for u in idx.reshape(-1):
        ls = leaves_of(u)
        nxt = []
        for c, vs in combos:
            for c2, v in ls:
                cc = and_(c, c2)
                if cc is not FALSE:
                    nxt.append((cc, vs + [v]))
        combos = nxt
        if len(combos) > 3000:
            raise Unsupported("too many index combinations")
    return [(c, np.array(v, dtype=np.int64).reshape(idx.shape)) for c, v in combos]


def _by_cases(idx, f):
    cases = _enum_indices(idx)
    res = None
    for c, v in cases[::-1]:
        r = f(v)
        res = r if res is None else emap(lambda cc, a, b: ite(cc, a, b), fill(r.shape, lambda i: c), r, res)
    return res


def _int_index(eqn_iv, idx):
    return np.asarray(idx).astype(np.dtype(eqn_iv.aval.dtype))


@rule("gather")
def _gather(ctx, eqn, a, idx):
    a = obj(a)
    ids, table = _ids([a])

    # entries out of bounds (mode "fill"): jax's default is nan, the smallest integer, True
    fv, dt = eqn.params.get("fill_value"), eqn.outvars[0].aval.dtype
    if fv is None:
        fv = NAN if np.issubdtype(dt, np.inexact) else TRUE if dt == np.bool_ else t_.q(int(np.iinfo(dt).min if np.issubdtype(dt, np.signedinteger) else np.iinfo(dt).max))
    else:
        fv = obj(np.asarray(fv)).reshape(-1)[0]

    def f(ix):
        return _unids(_bindids(eqn, [ids[0], ix], fill_value=-1), table, fv)
    if is_sym(idx):
        # handle each index row separately when the gather is a batch of rows
        return _gather_rows(eqn, a, idx, f)
    return f(idx)


def _gather_rows(eqn, a, idx, f):
    if obj(idx)[..., :1].size <= 1:
        return _by_cases(idx, f)
    # element-wise: vary one index row at a time (rows are independent)
    idx = obj(idx)
    rows = idx.reshape(-1, idx.shape[-1])
    base = np.zeros(idx.shape, dtype=np.int64)
    probe0 = f(base)
    out = None
    owner = np.full(probe0.shape, -1)
    # find which output elements depend on which row
    dn = eqn.params["dimension_numbers"]
    off = dn.offset_dims
    batch_axes = [i for i in range(probe0.ndim) if i not in off]
    res = np.empty(probe0.shape, dtype=object)
    bshape = idx.shape[:-1]
    for r in range(rows.shape[0]):
        bi = np.unravel_index(r, bshape) if bshape else ()
        sl = [slice(None)] * probe0.ndim
        for ax, k in zip(batch_axes, bi):
            sl[ax] = k
        cs = _enum_indices(rows[r])
        val = None
        for c, v in cs[::-1]:
            full = base.reshape(-1, idx.shape[-1]).copy()
            full[r] = v
            o = f(full.reshape(idx.shape))[tuple(sl)]
            o = np.asarray(o, dtype=object)
            val = o if val is None else emap(lambda cc, x, y: ite(cc, x, y), fill(o.shape, lambda i: c), o, val)
        res[tuple(sl)] = val if val.shape else val.item()
    return res


@rule("dynamic_slice")
def _dslice(ctx, eqn, a, *starts):
    a = obj(a)
    ids, table = _ids([a])
    idx = [obj(s) for s in starts]
    st = np.stack(idx) if idx else np.zeros((0,), dtype=object)

    def f(v):
        return _unids(_bindids(eqn, [ids[0]] + [np.int64(x) for x in v]), table)
    return _by_cases(st, f)


@rule("dynamic_update_slice")
def _dus(ctx, eqn, a, u, *starts):
    a, u = obj(a), obj(u)
    ids, table = _ids([a, u])
    st = np.stack([obj(s) for s in starts])

    def f(v):
        return _unids(_bindids(eqn, [ids[0], ids[1]] + [np.int64(x) for x in v]), table)
    return _by_cases(st, f)


def _scatter_with(eqn, a, idx, u, combine):
    a, u = obj(a), obj(u)

    def f(ix):
        res = a.copy()
        fl = res.reshape(-1)
        ufl = u.reshape(-1)
        q = eqn.params
        zero = np.zeros(a.shape)
        for k in range(u.size):
            upd = np.where(np.arange(u.size) == k, 1.0, 0.0).reshape(u.shape)
            hit = np.asarray(jax.lax.scatter_add(jnp.asarray(zero), jnp.asarray(ix), jnp.asarray(upd), q["dimension_numbers"], mode=q["mode"])).reshape(-1)
            for j in np.nonzero(hit)[0]:
                fl[j] = combine(fl[j], ufl[k])
        return fl.reshape(a.shape)
    if not is_sym(idx):
        return f(idx)
    # update by update, in order: every position an update can have, under the condition that it has it
    idx = obj(idx)
    rows = idx.reshape(-1, idx.shape[-1])
    q = eqn.params
    win = q["dimension_numbers"].update_window_dims
    num = np.moveaxis(np.arange(u.size).reshape(u.shape), [i for i in range(u.ndim) if i not in win], range(u.ndim - len(win))).reshape(len(rows), -1)
    fl, ufl = a.copy().reshape(-1), u.reshape(-1)
    for r in range(len(rows)):
        upd = np.zeros(u.size)
        upd[num[r]] = num[r] + 1
        before = fl.copy()
        for c, v in _enum_indices(rows[r]):
            full = np.zeros(rows.shape, dtype=np.int64)
            full[r] = v
            hit = np.asarray(jax.lax.scatter_add(jnp.zeros(a.shape), jnp.asarray(full.reshape(idx.shape)), jnp.asarray(upd.reshape(u.shape)), q["dimension_numbers"], mode=q["mode"])).reshape(-1)
            for j in np.nonzero(hit)[0]:
                fl[j] = ite(c, combine(before[j], ufl[int(hit[j]) - 1]), fl[j])
    return fl.reshape(a.shape)


@rule("scatter-add", "scatter_add")
def _scatter_add(ctx, eqn, a, idx, u):
    return _scatter_with(eqn, a, idx, u, lambda x, y: add(x, y))


@rule("scatter-mul", "scatter_mul")
def _scatter_mul(ctx, eqn, a, idx, u):
    return _scatter_with(eqn, a, idx, u, lambda x, y: mul(x, y))


@rule("scatter")
def _scatter(ctx, eqn, a, idx, u):
    return _scatter_with(eqn, a, idx, u, lambda x, y: y)


@rule("scatter-sub", "scatter_sub")
def _scatter_sub(ctx, eqn, a, idx, u):
    return _scatter_with(eqn, a, idx, u, lambda x, y: sub(x, y))


@rule("scatter-max", "scatter_max")
def _scatter_max(ctx, eqn, a, idx, u):
    return _scatter_with(eqn, a, idx, u, t_.maxv)


@rule("scatter-min", "scatter_min")
def _scatter_min(ctx, eqn, a, idx, u):
    return _scatter_with(eqn, a, idx, u, t_.minv)


@rule("sort")
def _sort(ctx, eqn, *xs):
    d = eqn.params["dimension"]
    nk = eqn.params["num_keys"]
    xs = [obj(x) for x in xs]
    n = xs[0].shape[d]
    ys = [np.moveaxis(x, d, 0).copy() for x in xs]
    if n > 6:
        raise Unsupported("sort of %d symbolic values" % n)

    for idx in np.ndindex(*ys[0].shape[1:]):
        # insertion network (stable): swap only if strictly greater
        for i in range(n):
            for j in range(n - 1 - i):
                a = [y[(j,) + idx] for y in ys]
                b = [y[(j + 1,) + idx] for y in ys]
                gt = FALSE
                eqs = TRUE
                for k in range(nk):
                    gt = or_(gt, and_(eqs, lt(b[k], a[k])))
                    eqs = and_(eqs, eq(a[k], b[k]))
                for y, p, r in zip(ys, a, b):
                    y[(j,) + idx] = ite(gt, r, p)
                    y[(j + 1,) + idx] = ite(gt, p, r)
    return [np.moveaxis(y, 0, d) for y in ys]


# -- linear algebra ------------------------------------------------------------
def _blocks(A):
    """index sets of the diagonal blocks of A (after a symmetric permutation)"""
    n = A.shape[0]
    left, res = set(range(n)), []
    while left:
        todo, b = [min(left)], set()
        while todo:
            i = todo.pop()
            if i in b:
                continue
            b.add(i)
            todo += [j for j in left if j not in b and not (A[i, j] is ZERO and A[j, i] is ZERO)]
        left -= b
        res.append(sorted(b))
    return res


def term_inverse(A):
    """exact inverse via Gauss-Jordan (constant rational matrices) or cofactors"""
    n = A.shape[0]
    blocks = _blocks(A)
    if len(blocks) > 1:
        inv = np.full(A.shape, ZERO, dtype=object)
        for b in blocks:
            if not all(x.op == "q" for x in A.reshape(-1)) and len(b) > 4:
                raise Unsupported("symbolic matrix inverse of size %d" % len(b))
            inv[np.ix_(b, b)] = term_inverse(A[np.ix_(b, b)])
        return inv
    if all(x.op == "q" for x in A.reshape(-1)):
        M = [[A[i, j].args[0] for j in range(n)] + [Fraction(int(i == j)) for j in range(n)] for i in range(n)]
        for c in range(n):
            p = next((r for r in range(c, n) if M[r][c] != 0), None)
            if p is None:
                raise Unsupported("singular constant matrix")
            M[c], M[p] = M[p], M[c]
            pv = M[c][c]
            M[c] = [x / pv for x in M[c]]
            for r in range(n):
                if r != c and M[r][c] != 0:
                    f = M[r][c]
                    M[r] = [x - f * y for x, y in zip(M[r], M[c])]
        return fill((n, n), lambda k: q(M[k // n][n + k % n]))
    if n > 4:
        raise Unsupported("symbolic matrix inverse of size %d" % n)
    d = det(A)
    inv = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            m = np.delete(np.delete(A, j, 0), i, 1)
            inv[i, j] = div(scale(det(m), (-1) ** (i + j)), d)
    return inv


def det(A):
    n = A.shape[0]
    if n == 0:
        return ONE
    if n == 1:
        return A[0, 0]
    return add(ZERO, *[scale(mul(A[0, j], det(np.delete(A[1:], j, 1))), (-1) ** j) for j in range(n)])


@rule("triangular_solve")
def _trsolve(ctx, eqn, a, b):
    p = eqn.params
    a, b = obj(a), obj(b)
    lower, n = p["lower"], a.shape[-1]
    out = np.empty(b.shape, dtype=object)
    for ix in np.ndindex(*a.shape[:-2]):
        A = a[ix].copy()
        for i in range(n):
            for j in range(n):
                if (j > i) if lower else (j < i):
                    A[i, j] = ZERO
                if i == j and p["unit_diagonal"]:
                    A[i, j] = ONE
        low = lower
        if p["transpose_a"]:
            A, low = A.T, not low
        B = b[ix] if p["left_side"] else b[ix].T
        if not p["left_side"]:
            A, low = A.T, not low
        X = np.empty(B.shape, dtype=object)
        for c in range(B.shape[1]):
            for i in (range(n) if low else range(n - 1, -1, -1)):
                done = range(i) if low else range(i + 1, n)
                X[i, c] = div(sub(B[i, c], add(ZERO, *[mul(A[i, j], X[j, c]) for j in done])), A[i, i])
        out[ix] = X if p["left_side"] else X.T
    return out


@rule("cholesky")
def _cholesky(ctx, eqn, a):
    a = obj(a)
    n = a.shape[-1]
    if n > 4:
        raise Unsupported("cholesky of size %d" % n)
    out = np.full(a.shape, ZERO, dtype=object)
    for ix in np.ndindex(*a.shape[:-2]):
        L = out[ix]
        for j in range(n):
            L[j, j] = t_.root(sub(a[ix][j, j], add(ZERO, *[mul(L[j, k], L[j, k]) for k in range(j)])), 2)
            for i in range(j + 1, n):
                L[i, j] = div(sub(a[ix][i, j], add(ZERO, *[mul(L[i, k], L[j, k]) for k in range(j)])), L[j, j])
    return out


# -- higher order ------------------------------------------------------------
HIGHER = {}


def higher(*names):
    def deco(f):
        for n in names:
            HIGHER[n] = f
        return f
    return deco


def closed(ctx, cj, ins):
    return run_jaxpr(ctx, cj.jaxpr, cj.consts, ins)


@higher("jit", "pjit", "closed_call", "core_call", "xla_call")
def _jit(ctx, eqn, ins):
    name = eqn.params.get("name", "")
    c = ctx.callee.get(name) or CALLEE.get(name)
    if c is not None:
        r = c(ctx, eqn, ins)
        if r is not None:
            return r
    cj = eqn.params.get("jaxpr") or eqn.params.get("call_jaxpr")
    if hasattr(cj, "jaxpr"):
        return closed(ctx, cj, ins)
    return run_jaxpr(ctx, cj, (), ins)


def _ops(closed_jaxpr):
    """the operations of a jaxpr in order, without the identity conversions that
    a second tracing removes"""
    return [
        (e.primitive.name, [float(v.val) if hasattr(v, "val") else None for v in e.invars], [str(v.aval) for v in e.outvars])
        for e in closed_jaxpr.jaxpr.eqns
        if e.primitive.name != "convert_element_type"
    ]


@higher("custom_jvp_call", "custom_vjp_call", "custom_vjp_call_jaxpr", "remat", "remat2", "checkpoint")
def _cjvp(ctx, eqn, ins):
    p = eqn.params
    if len(ins) == 2 and len(eqn.outvars) == 3 and any(is_sym(x) for x in ins):
        ref = jax.make_jaxpr(jnp.hypot)(*[jax.ShapeDtypeStruct(v.aval.shape, v.aval.dtype) for v in eqn.invars]).jaxpr.eqns
        ref = ref[0].params["jaxpr"].jaxpr.eqns[0].params["call_jaxpr"] if len(ref) == 1 and "jaxpr" in ref[0].params else None
        if ref is not None and _ops(ref) == _ops(p["call_jaxpr"]):
            # contract of jax.numpy.hypot (its rescaling by powers of two is exact over the reals)
            ctx.use("jax.numpy.hypot (sqrt(x^2 + y^2))")
            r = emap(lambda x, y: t_.root(add(mul(x, x), mul(y, y)), 2), *ins)
            return [r, emap(div, ins[0], r), emap(div, ins[1], r)]
    cj = p.get("call_jaxpr") or p.get("fun_jaxpr") or p.get("jaxpr")
    if hasattr(cj, "jaxpr"):
        return closed(ctx, cj, ins)
    return run_jaxpr(ctx, cj, (), ins)


@higher("custom_vmap_call")
def _cvmap(ctx, eqn, ins):
    return closed(ctx, eqn.params["call"], ins)


@higher("composite")
def _composite(ctx, eqn, ins):
    return closed(ctx, eqn.params["jaxpr"], ins)


@higher("debug_callback", "debug_print")
def _debug(ctx, eqn, ins):
    return [] if not eqn.outvars else _unsupported("primitive %s with results" % eqn.primitive.name)


def _unsupported(msg):
    raise Unsupported(msg)


@higher("call_hi_primitive")
def _hi(ctx, eqn, ins):
    if all(conc(x) for x in ins):
        return _bind(eqn, ins)
    p = eqn.params.get("_prim")
    if type(p).__name__ == "SearchSorted" and p.dimension == 0 and not p.batch_dims and np.ndim(ins[0]) == 1:
        # contract of searchsorted: the array is sorted; the number of entries before the value
        a, v = obj(ins[0]), obj(ins[1])
        for i in range(len(a) - 1):
            ctx.obls.append(("searchsorted of sorted values", list(ctx.facts), le(a[i], a[i + 1])))
        before = (lambda x, y: lt(x, y)) if str(p.side) == "left" else (lambda x, y: le(x, y))

        def first(y):
            r = q(len(a))
            for i in range(len(a) - 1, -1, -1):
                r = ite(before(a[i], y), r, q(i))
            return r
        return [emap(first, v)]
    if hasattr(p, "expand"):  # its own definition in terms of lower primitives
        cj = jax.make_jaxpr(p.expand)(*[jax.ShapeDtypeStruct(v.aval.shape, v.aval.dtype) for v in eqn.invars])
        if not (len(cj.jaxpr.eqns) == 1 and cj.jaxpr.eqns[0].primitive is eqn.primitive):
            return closed(ctx, cj, ins)
    raise Unsupported("call_hi_primitive %s" % eqn.params)


@higher("cond")
def _cond(ctx, eqn, ins):
    idx, *ops = ins
    brs = eqn.params["branches"]
    if conc(idx):
        k = int(np.clip(int(np.asarray(idx)), 0, len(brs) - 1))
        return closed(ctx, brs[k], ops)
    it = idx.reshape(-1)[0]
    outs = []
    conds = []
    for k in range(len(brs)):
        if it.sort == "B":
            c = not_(it) if k == 0 else it
        elif k == 0:
            c = le(it, ZERO)
        elif k == len(brs) - 1:
            c = le(q(k), it)
        else:
            c = eq(it, q(k))
        conds.append(c)
        ctx.path.append(c)
        try:
            outs.append(closed(ctx, brs[k], ops))
        finally:
            ctx.path.pop()
    res = []
    for j in range(len(outs[0])):
        vals = [o[j] for o in outs]
        if any(getattr(v, "is_avec", False) for v in vals):
            from . import avec
            r = vals[-1]
            for k in range(len(brs) - 2, -1, -1):
                r = avec.ite_vec(conds[k], vals[k], r)
            res.append(r)
            continue
        if all(conc(v) for v in vals) and all(np.array_equal(vals[0], v) for v in vals):
            res.append(vals[0])
            continue
        r = obj(vals[-1])
        for k in range(len(brs) - 2, -1, -1):
            r = emap(lambda c, a, b: ite(c, a, b), fill(r.shape, lambda i: conds[k]), vals[k], r)
        res.append(maybe_conc(r, eqn.outvars[j].aval.dtype))
    return res


@higher("scan")
def _scan(ctx, eqn, ins):
    if ctx.scan_hook is not None:
        r = ctx.scan_hook(ctx, eqn, ins)
        if r is not None:
            return r
    p = eqn.params
    if "num_consts" in p:
        nc, nk = p["num_consts"], p["num_carry"]
    else:
        nc, nk = [len(list(g)) for g in p["ft_in"].update(ins).unpack()][:2]
    consts, carry, xs = ins[:nc], list(ins[nc:nc + nk]), ins[nc + nk:]
    length = p["length"]
    if length > 400:
        raise Unsupported("scan of length %d" % length)
    ys = None
    order = range(length - 1, -1, -1) if p["reverse"] else range(length)
    acc = {}
    for i in order:
        xi = [np.asarray(x[i], dtype=x.dtype) if isinstance(x, np.ndarray) else x[i] for x in xs]
        xi = [_asarr(x) for x in xi]
        out = closed(ctx, p["jaxpr"], list(consts) + carry + xi)
        carry = list(out[:nk])
        acc[i] = out[nk:]
    ny = len(eqn.outvars) - nk
    ys = []
    for j in range(ny):
        vals = [acc[i][j] for i in range(length)]
        if length == 0:
            ys.append(np.zeros(eqn.outvars[nk + j].aval.shape))
            continue
        if all(conc(v) for v in vals):
            ys.append(np.stack([np.asarray(v) for v in vals]))
        else:
            ys.append(np.stack([obj(v) for v in vals]))
    return carry + ys


def _asarr(x):
    return x if isinstance(x, np.ndarray) or hasattr(x, "dtype") else np.asarray(x, dtype=object)


@higher("while")
def _while(ctx, eqn, ins):
    p = eqn.params
    cc, bc = p["cond_nconsts"], p["body_nconsts"]
    cconst, bconst, carry = ins[:cc], ins[cc:cc + bc], list(ins[cc + bc:])
    if ctx.while_hook is not None:
        r = ctx.while_hook(ctx, eqn, cconst, bconst, carry)
        if r is not None:
            return r
    for _ in range(2000):
        (c,) = closed(ctx, p["cond_jaxpr"], list(cconst) + carry)
        if conc(c):
            if not bool(np.asarray(c)):
                return carry
        else:
            t = c.reshape(-1)[0]
            if t is FALSE:
                return carry
            if t is not TRUE:
                raise Unsupported("while loop with a symbolic condition and no loop contract")
        carry = closed(ctx, p["body_jaxpr"], list(bconst) + carry)
    raise Unsupported("while loop did not terminate concretely")


@higher("custom_linear_solve")
def _cls(ctx, eqn, ins):
    """solve(A, b) with the matrix captured as a constant of matvec: the contract
    of the dependency is A @ x = b, applied with the exact inverse of A."""
    p = eqn.params
    cl = p["const_lengths"]
    jx = p["jaxprs"]
    mv_consts = ins[:cl.matvec]
    nb = sum([cl.matvec, cl.vecmat or 0, cl.solve, cl.transpose_solve or 0])
    bs = ins[nb:]
    if len(bs) != 1:
        raise Unsupported("custom_linear_solve with several right-hand sides")
    b = obj(bs[0])
    n = b.size
    A = np.empty((n, n), dtype=object)
    for j in range(n):
        e = np.zeros(b.shape).reshape(-1)
        e[j] = 1
        (col,) = closed(ctx, jx.matvec, list(mv_consts) + [obj(e.reshape(b.shape))])
        A[:, j] = obj(col).reshape(-1)
    ctx.use("jax.numpy.linalg.solve (A x = b)")
    # block structure is fine: exact inverse
    inv = term_inverse(A)
    x = np.array([add(ZERO, *[mul(inv[i, j], b.reshape(-1)[j]) for j in range(n)]) for i in range(n)], dtype=object)
    return [x.reshape(b.shape)]


@higher("lu")
def _lu(ctx, eqn, ins):
    raise_unused = [np.full(v.aval.shape, NAN, dtype=object) if v.aval.dtype.kind == "f"
                    else np.zeros(v.aval.shape, dtype=np.dtype(v.aval.dtype)) for v in eqn.outvars]
    # only consumed by custom_linear_solve, which is handled through its contract
    return raise_unused


# -- callee contracts of JAX itself --------------------------------------------
def callee(name):
    def deco(f):
        CALLEE[name] = f
        return f
    return deco


@callee("remainder")
def _remainder(ctx, eqn, ins):
    if all(conc(x) for x in ins) or len(ins) != 2:
        return None
    return [maybe_conc(emap(lambda x, d: sub(x, mul(d, t_.floor(div(x, d)))), *ins), eqn.outvars[0].aval.dtype)]


@callee("floor_divide")
def _floordiv(ctx, eqn, ins):
    if all(conc(x) for x in ins) or len(ins) != 2:
        return None
    return [maybe_conc(emap(lambda x, d: t_.floor(div(x, d)), *ins), eqn.outvars[0].aval.dtype)]


@callee("signbit")
def _signbit(ctx, eqn, ins):
    if all(conc(x) for x in ins) or len(ins) != 1:
        return None
    return [maybe_conc(emap(lambda x: lt(x, ZERO), ins[0]), eqn.outvars[0].aval.dtype)]


@callee("det")
def _linalg_det(ctx, eqn, ins):
    """contract of jax.numpy.linalg.det (only of jax's own function)"""
    if all(conc(x) for x in ins) or len(ins) != 1 or not _same_as(eqn, jnp.linalg.det):
        return None
    a = obj(ins[0])
    if a.shape[-1] > 4:
        return None
    ctx.use("jax.numpy.linalg.det (the determinant)")
    r = np.empty(a.shape[:-2], dtype=object)
    for ix in np.ndindex(*r.shape):
        r[ix] = det(a[ix])
    return [r]


def _same_as(eqn, f):
    avals = [jax.ShapeDtypeStruct(v.aval.shape, v.aval.dtype) for v in eqn.invars]
    for batched in range(len(avals[0].shape) - 1):
        g = f
        for _ in range(batched):
            g = jax.vmap(g)
        ref = jax.make_jaxpr(g)(*avals).jaxpr.eqns
        if len(ref) == 1 and str(ref[0].params.get("jaxpr")) == str(eqn.params.get("jaxpr")):
            return True
    return False
