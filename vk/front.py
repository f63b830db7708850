"""Front end: trace the real function with JAX and enumerate its Python-level
branches; the uninterpreted smooth function primitive."""
from __future__ import annotations

import contextlib

import jax
import jax.numpy as jnp
import numpy as np
from jax._src import core as jcore
from jax.extend.core import Primitive
from jax.interpreters import ad, batching, mlir

from . import interp
from . import terms as t_
from .terms import TRUE, T, not_

jax.config.update("jax_enable_x64", True)

# -- uninterpreted functions ---------------------------------------------------
uf_p = Primitive("uf")


def _uf_bind(xs, *, name, derivs, nbatch, out_shape, in_shapes):
    return uf_p.bind(*xs, name=name, derivs=derivs, nbatch=nbatch, out_shape=out_shape, in_shapes=in_shapes)


def _outsh(p, bshape):
    return tuple(bshape) + tuple(p["out_shape"]) + tuple(
        d for j in p["derivs"] for d in p["in_shapes"][j])


@uf_p.def_abstract_eval
def _uf_abs(*avals, **p):
    b = avals[0].shape[: p["nbatch"]]
    return jcore.ShapedArray(_outsh(p, b), np.dtype("float64"))


def _uf_jvp(primals, tangents, **p):
    y = _uf_bind(primals, **p)
    nb = p["nbatch"]
    acc = None
    for j, (x, dx) in enumerate(zip(primals, tangents)):
        if type(dx) is ad.Zero:
            continue
        pj = dict(p)
        pj["derivs"] = p["derivs"] + (j,)
        D = _uf_bind(primals, **pj)
        k = len(p["in_shapes"][j])
        nd = D.ndim
        dn = ((tuple(range(nd - k, nd)), tuple(range(nb, nb + k))), (tuple(range(nb)), tuple(range(nb))))
        t = jax.lax.dot_general(D, dx, dn)
        acc = t if acc is None else acc + t
    if acc is None:
        acc = ad.Zero.from_primal_value(y) if hasattr(ad.Zero, "from_primal_value") else jnp.zeros_like(y)
    return y, acc


ad.primitive_jvps[uf_p] = _uf_jvp


def _uf_batch(args, dims, **p):
    n = next(a.shape[d] for a, d in zip(args, dims) if d is not None)
    new = []
    for a, d in zip(args, dims):
        if d is None:
            new.append(jnp.broadcast_to(a, (n,) + a.shape))
        else:
            new.append(jnp.moveaxis(a, d, 0))
    p = dict(p)
    p["nbatch"] += 1
    return _uf_bind(new, **p), 0


batching.primitive_batchers[uf_p] = _uf_batch

CONCRETE = {}  # name -> concrete jax function, numeric mode


def _uf_impl(*xs, **p):
    f = CONCRETE[p["name"]]
    for j in p["derivs"]:
        f = jax.jacfwd(f, argnums=j)
    for _ in range(p["nbatch"]):
        f = jax.vmap(f)
    return f(*xs)


uf_p.def_impl(lambda *xs, **p: jnp.asarray(_uf_impl(*xs, **p)))
mlir.register_lowering(uf_p, mlir.lower_fun(_uf_impl, multiple_results=False))


class UF:
    """an arbitrary smooth function of arrays"""

    def __init__(self, name, in_shapes, out_shape=()):
        self.name, self.in_shapes, self.out_shape = name, tuple(map(tuple, in_shapes)), tuple(out_shape)

    def __call__(self, *xs):
        xs = [jnp.asarray(x, dtype=jnp.float64) for x in xs]
        # leading extra dimensions (same for all) are batch dimensions
        nb = xs[0].ndim - len(self.in_shapes[0])
        for x, s in zip(xs, self.in_shapes):
            if x.shape[nb:] != s:
                raise TypeError("%s expects shapes %s, got %s" % (self.name, self.in_shapes, [x.shape for x in xs]))
        return _uf_bind(xs, name=self.name, derivs=(), nbatch=nb, out_shape=self.out_shape, in_shapes=self.in_shapes)

    # specification side: Terms
    def term(self, *args, out=(), d=()):
        """component `out` of the partial derivative d (list of (arg, flat index)) at Terms args"""
        flat = []
        for a in args:
            flat += list(np.asarray(a, dtype=object).reshape(-1))
        return t_.app(self.name, tuple(out), tuple(d), [T(x) for x in flat])

    def arr(self, *args, d=()):
        out = np.empty(self.out_shape, dtype=object)
        for idx in np.ndindex(*self.out_shape):
            out[idx] = self.term(*args, out=idx, d=d)
        return out if self.out_shape else out.item()


def _uf_interp(ctx, eqn, *xs):
    p = eqn.params
    nb = p["nbatch"]
    xs = [interp.obj(x) for x in xs]
    bshape = xs[0].shape[:nb]
    ins = p["in_shapes"]
    dshape = tuple(d for j in p["derivs"] for d in ins[j])
    out = np.empty(bshape + tuple(p["out_shape"]) + dshape, dtype=object)
    for b in np.ndindex(*bshape):
        flat = []
        for x in xs:
            flat += list(x[b].reshape(-1)) if isinstance(x[b], np.ndarray) else [x[b]]
        flat = [_canon_arg(a) for a in flat]
        for o in np.ndindex(*p["out_shape"]):
            for di in np.ndindex(*dshape):
                ds, k = [], 0
                for j in p["derivs"]:
                    r = len(ins[j])
                    ds.append((j, int(np.ravel_multi_index(di[k:k + r], ins[j])) if r else 0))
                    k += r
                out[b + o + di] = t_.app(p["name"], o, tuple(ds), flat)
    return out


def _canon_arg(a):
    return a


interp.RULES["uf"] = _uf_interp


# -- tracing with Python-level branches -------------------------------------------
_oracle = [None]
_orig_bool = jcore.Tracer.__bool__


def _patched_bool(self):
    o = _oracle[-1]
    if o is None or jcore.is_concrete(self):
        return _orig_bool(self)
    return o(self)


jcore.Tracer.__bool__ = _patched_bool


class Static:
    def __init__(self, v):
        self.v = v


class Path:
    def __init__(self, jaxpr, n_out, tree, statics, npred, decisions, exc):
        self.jaxpr, self.n_out, self.tree, self.statics = jaxpr, n_out, tree, statics
        self.npred, self.decisions, self.exc = npred, decisions, exc


class TooManyPaths(Exception):
    pass


def trace(fun, avals, max_paths=256):
    """fun(*arrays) -> pytree.  Returns every Python-level path."""
    work = [[]]
    paths = []
    while work:
        dec = list(work.pop())
        if len(paths) > max_paths:
            raise TooManyPaths()
        info = {}

        def wrapped(*xs):
            preds = []
            tr0 = [getattr(x, "_trace", None) for x in xs if isinstance(x, jcore.Tracer)]

            def oracle(tr):
                if tr0 and getattr(tr, "_trace", None) is not tr0[0]:
                    return _orig_bool(tr)
                i = len(preds)
                if i < len(dec):
                    d = dec[i]
                else:
                    d = True
                    work.append(dec[:i] + [False])
                    dec.append(True)
                if i > 40:
                    raise TooManyPaths()
                preds.append(jnp.asarray(tr).astype(bool).reshape(()))
                return d

            _oracle.append(oracle)
            try:
                try:
                    out = fun(*xs)
                    leaves, tree = jax.tree_util.tree_flatten(out, is_leaf=lambda x: x is None)
                    info["exc"] = None
                except TooManyPaths:
                    raise
                except Exception as e:  # noqa: BLE001  the path raises in the real code
                    leaves, tree = [], None
                    info["exc"] = e
            finally:
                _oracle.pop()
            arrs, statics = [], []
            for l in leaves:
                if isinstance(l, (jcore.Tracer, jnp.ndarray, np.ndarray, float, int, np.generic)) and not isinstance(l, bool):
                    statics.append(None)
                    arrs.append(l)
                else:
                    statics.append(Static(l))
            info.update(tree=tree, statics=statics, n=len(arrs), np=len(preds), dec=list(dec[: len(preds)]))
            return arrs + preds

        jx = jax.make_jaxpr(wrapped)(*avals)
        paths.append(Path(jx, info["n"], info["tree"], info["statics"], info["np"], info["dec"], info["exc"]))
    return paths


def execute(path, args, ctx=None):
    """symbolic execution of one path: (ctx, path condition, outs, raw)"""
    ctx = ctx or interp.Ctx()
    outs = interp.run_jaxpr(ctx, path.jaxpr.jaxpr, path.jaxpr.consts, args)
    preds = outs[path.n_out:]
    outs = outs[: path.n_out]
    conds = []
    for p, d in zip(preds, path.decisions):
        t = T(bool(np.asarray(p))) if interp.conc(p) else p.reshape(-1)[0]
        conds.append(t if d else not_(t))
    return ctx, conds, outs
