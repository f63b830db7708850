"""Differential check of the extraction: terms read off traced functions, evaluated in floating point, against JAX itself."""
import jax
import jax.numpy as jnp
import numpy as np
from jax import lax

from vk import interp
from vk import terms as t_

A = (np.array([[1.3, -0.4, 0.2], [0.5, 2.1, -0.7], [0.3, 0.6, 1.9]]), np.array([0.31, -1.27, 0.84]), 0.63)


def spd(a):
    return a @ a.T + jnp.eye(3)


CASES = {
    "elementwise": lambda a, b, c: jnp.sin(b) + jnp.cos(b) * jnp.tan(c) + jnp.exp(b) - jnp.expm1(c) + jnp.log1p(jnp.abs(b)) + jnp.sign(b) + jnp.sqrt(jnp.abs(b)) + jnp.cbrt(b) + jnp.square(b),
    "hyperbolic": lambda a, b, c: jnp.sinh(b) + jnp.cosh(b) + jnp.tanh(b) + jnp.arcsinh(b) + jnp.arccosh(1 + b * b) + jnp.arctanh(c) + jax.nn.sigmoid(b),
    "inverse": lambda a, b, c: jnp.arcsin(c) + jnp.arccos(c) + jnp.arctan(b) + jnp.arctan2(b, b[::-1]),
    "bases": lambda a, b, c: jnp.exp2(b) + jnp.log2(jnp.abs(b)) + jnp.log10(jnp.abs(b)) + jnp.logaddexp(b, c) + jax.nn.softplus(b),
    "rounding": lambda a, b, c: jnp.round(10 * b) + jnp.floor(b) + jnp.ceil(b) + jnp.trunc(b) + jnp.fmod(b, 0.3) + jnp.mod(b, 0.3) + b // 0.4 + jnp.modf(b)[0],
    "halves": lambda a, b, c: jnp.round(jnp.array([0.5, 1.5, 2.5, -0.5, -1.5]) + 0 * c),
    "hypot": lambda a, b, c: jnp.hypot(b, c) + jax.vmap(jax.grad(jnp.hypot))(b, b + 3) + jax.jacfwd(lambda x: jnp.hypot(x[0], x[1]))(b),
    "select": lambda a, b, c: jnp.where(b > c, b, -c) + jnp.clip(b, -0.5, 0.5) + jnp.maximum(b, c) * jnp.minimum(b, c) + jnp.heaviside(b, 0.5) + jnp.copysign(c, b),
    "logic": lambda a, b, c: 1.0 * ((b > 0) ^ (b < c)) + 1.0 * (~(b > 0) | (b > 0.5)) + 1.0 * jnp.all(b < 1) + 1.0 * jnp.any(b > 0.7),
    "reductions": lambda a, b, c: jnp.sum(a, 0) + jnp.prod(a, 1) + jnp.max(a, 0) + jnp.min(a, 1) + jnp.mean(a) + jnp.var(b) + jnp.trace(a) + jnp.median(b),
    "cumulative": lambda a, b, c: jnp.cumsum(b) + jnp.cumprod(b) + lax.cummax(b) + lax.cummin(b) + lax.cummin(b, reverse=True) + lax.cumlogsumexp(b) + lax.associative_scan(jnp.add, b),
    "order": lambda a, b, c: jnp.sort(b) + lax.top_k(b, 3)[0] * lax.top_k(b, 3)[1] + jnp.argsort(b) + jnp.argmax(b) + jnp.argmin(a, 0) + jnp.searchsorted(jnp.array([-1.0, 0.0, 1.0]), b),
    "shapes": lambda a, b, c: jnp.tile(b, (2, 2)).ravel()[:3] + jnp.repeat(b, 2)[1:4] + jnp.roll(a, 1, 0)[0] + jnp.flip(b) + jnp.diff(b, append=c) + jnp.pad(b, 1)[:3] + jnp.kron(b, b)[2:5] + jnp.swapaxes(a, 0, 1)[1],
    "index": lambda a, b, c: a[jnp.argmax(b)] + b[jnp.array([0, 0, 2])] + lax.dynamic_slice(b, (jnp.argmin(b) * 0,), (3,)) + jnp.take(b, jnp.array([2, 1, 0])),
    "scatter": lambda a, b, c: b.at[jnp.array([0, 0])].add(c) + b.at[1].set(c) + b.at[2].mul(c) + b.at[0].subtract(c) + b.at[1].max(c) + b.at[2].min(c) + jnp.insert(b, 1, c)[:3],
    "batched index": lambda a, b, c: jnp.sum(jax.vmap(lambda r: jnp.insert(r, jnp.argmax(r) % 2, c))(a), 0)[:3] + jnp.sum(jax.vmap(lambda r: r.at[jnp.argmin(r)].set(c).at[jnp.argmax(r)].add(r[0]))(a), 0) + jnp.take_along_axis(a, jnp.argsort(a, 1), 1)[1] + a[jnp.argmax(a, 0), jnp.argmin(a, 1)] + b.at[jnp.argmax(a, 1)].add(b),
    "nonzero": lambda a, b, c: 1.0 * jnp.nonzero(b > 0, size=2, fill_value=7)[0][0] + jnp.where(b < c, size=3)[0] + b[jnp.flatnonzero(b > 0, size=3)],
    "products": lambda a, b, c: a @ b + jnp.cross(b, a[0]) + jnp.outer(b, b)[1] + jnp.einsum("ij,jk,k->i", a, a, b) + jnp.tensordot(a, b, 1) + jnp.inner(a, b) + jnp.vdot(b, b),
    "convolution": lambda a, b, c: jnp.convolve(b, b)[1:4] + jnp.convolve(b, jnp.array([c, 1.0]), "same") + jnp.polyval(b, c),
    "linear algebra": lambda a, b, c: jnp.linalg.solve(a, b) + jnp.linalg.inv(a)[0] + jnp.linalg.det(a) + jnp.linalg.norm(a, axis=0) + jnp.linalg.norm(b, 1) + jnp.linalg.norm(b, jnp.inf),
    "triangular": lambda a, b, c: jnp.linalg.cholesky(spd(a))[2] + jax.scipy.linalg.solve_triangular(a, b) + jax.scipy.linalg.solve_triangular(a, b, lower=True, trans=1) + jax.scipy.linalg.solve_triangular(a, b, unit_diagonal=True),
    "control": lambda a, b, c: lax.cond(c > 0.5, lambda: b, lambda: -b) + lax.switch(jnp.argmax(b), [lambda x: x, lambda x: 2 * x, lambda x: x * x], b) + lax.fori_loop(0, 3, lambda i, x: x * c + i, b) + lax.scan(lambda x, y: (x + y, x * y), b, a)[1][2] + lax.map(lambda x: x[0] * c, a),
    "derivatives": lambda a, b, c: jax.grad(lambda x: jnp.sum(jnp.sin(x) * x ** 3))(b) + jax.hessian(lambda x: jnp.exp(-x @ x))(b)[0] + jax.jvp(lambda x: a @ jnp.tanh(x), (b,), (b,))[1] + jax.jacrev(lambda x: jnp.cross(x, a[1]))(b)[2]
    + jax.linearize(jnp.cos, b)[1](b) + jax.vjp(lambda x: x * jnp.sum(x), b)[1](b)[0],
    "powers": lambda a, b, c: jnp.abs(b) ** c + jnp.abs(b) ** 0.3 + b ** 3 + b ** -2 + lax.rsqrt(jnp.abs(b)) + jnp.power(2.0, b) + jnp.float_power(c, b),
    "jit": lambda a, b, c: jax.jit(lambda x: jax.checkpoint(lambda y: jnp.sin(y) * c)(x))(b) + jax.vmap(lambda r: r @ b)(a) + jax.vmap(jnp.vdot, (0, None))(a, b) + lax.optimization_barrier(b),
}


def run():
    bad = []
    for name, f in CASES.items():
        try:
            jx = jax.make_jaxpr(f)(*[jnp.asarray(x) for x in A])
            env, ins = {}, []
            for i, x in enumerate(A):
                x = np.asarray(x)
                v = np.empty(x.shape, dtype=object)
                for ix in np.ndindex(*x.shape):
                    v[ix] = t_.var("v%d%s" % (i, list(ix)))
                    env["v%d%s" % (i, list(ix))] = float(x[ix])
                ins.append(v)
            out = interp.obj(interp.run_jaxpr(interp.Ctx(), jx.jaxpr, jx.consts, ins)[0])
            got = np.array([t_.feval(t, env) for t in out.reshape(-1)], dtype=float).reshape(out.shape)
            ref = np.asarray(f(*[jnp.asarray(x) for x in A]))
            ok = got.shape == ref.shape and np.allclose(got, ref, rtol=2e-4, atol=2e-4)
        except Exception as ex:  # noqa: BLE001
            ok, got, ref = False, repr(ex)[:300], ""
        if not ok:
            bad.append((name, got, ref))
    return len(CASES), bad
