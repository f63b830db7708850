"""Abstract pseudo random numbers: contracts of jax.random.

A key is a term; splitting gives the children split(k, n, i); draws are functions of the key.
Assumed of jax.random: draws lie in their range, a permutation is one, different
key expressions are different keys."""
from __future__ import annotations

import itertools

import jax
import jax.numpy as jnp
import numpy as np

from . import interp
from . import terms as t_
from .interp import Unsupported, callee, conc, is_sym, maybe_conc, obj, rule
from .terms import ONE, ZERO, T, and_, app, eq, ite, le, lt, ne, or_, q, var


@jax.jit
def vk_key(seed):
    """the root key (symbolic in the proof, derived from the seed in a replay)"""
    return jax.random.PRNGKey(jnp.asarray(seed * 1000003, dtype=jnp.int64))


def words(k):
    return [app("rng:w", (0,), (), [k]), app("rng:w", (1,), (), [k])]


def key_of(w0, w1):
    if w0.op == "app" and w0.args[0] == "rng:w" and w0.args[1] == (0,) and w1.op == "app" and w1.args[0] == "rng:w" and w1.args[1] == (1,) \
            and w0.args[3] == w1.args[3]:
        return w0.args[3][0]
    return app("rng:key", (), (), [w0, w1])


def is_key(t):
    return t.op == "app" and t.args[0] in ("rng:split", "rng:root", "rng:key", "rng:fold")


def path(k):
    """[root, (parent step)...] of a key"""
    steps = []
    while k.op == "app" and k.args[0] in ("rng:split", "rng:fold"):
        a = k.args[3]
        steps.append((k.args[0], a[1], k.args[1]) if k.args[0] == "rng:split" else (k.args[0], None, (a[1],)))
        k = a[0]
    return [k] + steps[::-1]


def independent(a, b):
    """neither key is derived from the other, and they separate at different children of one split"""
    for x, y in zip(path(a), path(b)):
        if x != y:
            return isinstance(x, tuple) and isinstance(y, tuple) and x[:2] == y[:2]
    return False


def unwrap(keys):
    out = np.empty(keys.shape + (2,), dtype=object)
    for i in np.ndindex(*keys.shape):
        out[i + (0,)], out[i + (1,)] = words(keys[i])
    return out


@callee("vk_key")
def _root(ctx, eqn, ins):
    if conc(ins[0]):
        return None
    a = np.empty((), dtype=object)
    a[()] = app("rng:root", (), (), [interp.obj(ins[0]).item()])
    return [unwrap(a)]


@rule("random_wrap")
def _wrap(ctx, eqn, x):
    x = obj(x)
    out = np.empty(x.shape[:-1], dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = key_of(x[i + (0,)], x[i + (1,)])
    return out


@rule("random_unwrap")
def _unwrap(ctx, eqn, x):
    return unwrap(x)


@rule("random_split")
def _split(ctx, eqn, x):
    ctx.use("jax.random.split (children are different keys)")
    sh = tuple(eqn.params["shape"])
    n = q(int(np.prod(sh)) if sh else 1)
    out = np.empty(x.shape + sh, dtype=object)
    for i in np.ndindex(*x.shape):
        for c, j in enumerate(np.ndindex(*sh)):
            out[i + j] = app("rng:split", (c,), (), [x[i], n])
    return out


@rule("random_fold_in")
def _fold(ctx, eqn, x, d):
    return interp.emap(lambda k, a: app("rng:fold", (), (), [k, a]), x, d)


@rule("random_clone")
def _clone(ctx, eqn, x):
    return x


@rule("random_bits")
def _bits(ctx, eqn, x):
    raise Unsupported("random bits of a symbolic key")


@rule("erf_inv")
def _erfinv(ctx, eqn, x):
    def f(a):
        if a.op == "q":
            from jax.scipy.special import erfinv
            return t_.real_of_float(float(erfinv(float(a.args[0]))))
        return app("rng:erfinv", (), (), [a])
    return interp.emap(f, x)


def _draws(ctx, name, keys, shape, mk):
    """one draw per output element; the leading dimensions are those of the keys"""
    keys = obj(keys) if not is_sym(keys) else keys
    kb = keys.ndim
    if tuple(shape[:kb]) != tuple(keys.shape):
        raise Unsupported("layout of batched draws")
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*keys.shape):
        rest = shape[kb:]
        n = q(int(np.prod(rest)) if rest else 1)
        for c, j in enumerate(np.ndindex(*rest)):
            out[i + j] = mk(keys[i], n, c, i + j)
    return out


@callee("_uniform")
def _uniform(ctx, eqn, ins):
    if conc(ins[0]):
        return None
    ctx.use("jax.random.uniform (values in [minval, maxval))")
    sh = tuple(eqn.outvars[0].aval.shape)

    def mk(k, n, c, i):
        u = app("rng:uniform", (c,), (), [k, n])
        ctx.facts += [le(ZERO, u), lt(u, ONE)]
        return u
    u = _draws(ctx, "uniform", ins[0], sh, mk)
    lo, hi = [np.broadcast_to(obj(x), sh) if obj(x).ndim <= len(sh) else obj(x) for x in ins[1:3]]
    return [interp.emap(lambda a, l, h: l + (h - l) * a, u, lo, hi)]


def finite(ctx, t, lo, hi):
    """an integer draw, written as a case distinction over its range"""
    ctx.facts.append(or_(*[eq(t, q(i)) for i in range(lo, hi)]))
    r = q(hi - 1)
    for i in range(hi - 2, lo - 1, -1):
        r = ite(eq(t, q(i)), q(i), r)
    return r


@callee("_randint")
def _randint(ctx, eqn, ins):
    if conc(ins[0]):
        return None
    ctx.use("jax.random.randint (values in [minval, maxval))")
    lo, hi = [obj(x).reshape(-1)[0] for x in ins[1:3]]
    if lo.op != "q" or hi.op != "q":
        raise Unsupported("randint with symbolic range")
    lo, hi = int(lo.args[0]), int(hi.args[0])
    sh = tuple(eqn.outvars[0].aval.shape)
    return [_draws(ctx, "randint", ins[0], sh, lambda k, n, c, i: finite(ctx, app("rng:randint", (c,), (), [k, n, q(lo), q(hi)]), lo, hi))]


@callee("_shuffle")
def _shuffle(ctx, eqn, ins):
    if conc(ins[0]):
        return None
    ctx.use("jax.random.permutation (a permutation)")
    key, x = ins[0], obj(ins[1])
    sh = tuple(eqn.outvars[0].aval.shape)
    ax = eqn.params["jaxpr"].jaxpr.eqns[-1].params.get("dimension", len(sh) - 1) if False else len(sh) - 1
    n = sh[ax]
    if len(sh) != key.ndim + 1 or x.ndim > len(sh):
        raise Unsupported("layout of a batched permutation")
    xb = np.broadcast_to(x, sh)
    out = np.empty(sh, dtype=object)
    for i in np.ndindex(*sh[:-1]):
        ps = [app("rng:perm", (c,), (), [key[i], q(n)]) for c in range(n)]
        for a, b in itertools.combinations(ps, 2):
            ctx.facts.append(ne(a, b))
        for c in range(n):
            idx = finite(ctx, ps[c], 0, n)
            r = xb[i + (n - 1,)]
            for j in range(n - 2, -1, -1):
                r = ite(eq(ps[c], q(j)), xb[i + (j,)], r)
            out[i + (c,)] = r
    return [maybe_conc(out, eqn.outvars[0].aval.dtype)]


def distinct_keys(fs):
    """facts: different key expressions are different keys"""
    ks = sorted({u for u in t_.walk(*fs) if is_key(u)}, key=lambda u: u.tid)
    out = []
    for a, b in itertools.combinations(ks, 2):
        wa, wb = words(a), words(b)
        out.append(or_(ne(wa[0], wb[0]), ne(wa[1], wb[1])))
        out.append(ne(a, b))
    return out
