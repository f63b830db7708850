"""Partial operations stay in their domain in machine arithmetic.

The other contracts treat floating point numbers as reals.  Over the reals a square root of
a**2 + b**2 - 2*a*b is total; rounded, it is nan for half of all a == b.  This contract closes that
gap where it matters: an interval analysis of the jaxpr of the real code in which every step is
monotone under rounding (x <= y implies fl(x) <= fl(y), so bounds that are machine numbers survive
rounding, also when a multiplication and an addition are fused) shows for every sqrt, log, pow, acos
and asin that its argument is in the domain whatever the rounding does.  Operations the analysis
cannot settle are reported as sampled, not proved; a witness comes from running the real code,
compiled and not, in both precisions, on operands chosen to cancel."""
import math
import time

import jax
import jax.numpy as jnp
import numpy as np
from jax.extend import core as jex

from vk import contract

INF = math.inf


def _down(x):
    return x if math.isinf(x) or float(np.float32(x)) == x else float(np.nextafter(np.float32(x), np.float32(-INF)))


def _up(x):
    return x if math.isinf(x) or float(np.float32(x)) == x else float(np.nextafter(np.float32(x), np.float32(INF)))


def iv(lo, hi):
    if math.isnan(lo) or math.isnan(hi):
        return (-INF, INF)
    return (_down(lo), _up(hi))


TOP = (-INF, INF)


def _mul1(x, y):
    return 0.0 if x == 0 or y == 0 else x * y


def mul(a, b):
    p = [_mul1(x, y) for x in a for y in b]
    return iv(min(p), max(p))


def add(a, b):
    return iv(a[0] + b[0], a[1] + b[1])


def sq(a):
    m = max(abs(a[0]), abs(a[1]))
    lo = 0.0 if a[0] <= 0 <= a[1] else min(abs(a[0]), abs(a[1])) ** 2
    return iv(lo, m * m)


def hull(*xs):
    return (min(x[0] for x in xs), max(x[1] for x in xs))


PASS = {"broadcast_in_dim", "reshape", "squeeze", "transpose", "slice", "rev", "copy", "stop_gradient", "reduce_max", "reduce_min",
        "dynamic_slice", "gather", "expand_dims", "copy_p", "real", "conj", "cumprod_none", "reduce_precision", "sharding_constraint", "optimization_barrier"}


class Analysis:
    def __init__(self):
        self.obs = []          # (primitive, ok)

    def need(self, name, ok):
        self.obs.append((name, bool(ok)))

    def const(self, c):
        try:
            a = np.asarray(c)
            if a.dtype.kind in "fiub" and a.size:
                return iv(float(a.min()), float(a.max()))
        except Exception:  # noqa: BLE001
            pass
        return TOP

    def jaxpr(self, jx, consts, ins):
        env, roots, defs = {}, {}, {}

        def root(v):
            while v in roots:
                v = roots[v]
            return v

        def strip(v):
            """v up to a nonnegative factor"""
            e, xs = defs.get(v, (None, ()))
            while e is not None and e.primitive.name == "mul":
                k = [i for i in (0, 1) if rd(xs[i])[0] >= 0]
                if not k or isinstance(xs[1 - k[0]], jex.Literal):
                    break
                v = xs[1 - k[0]]
                e, xs = defs.get(v, (None, ()))
            return v

        def rd(v):
            return self.const(v.val) if isinstance(v, jex.Literal) else env.get(v, TOP)
        for v, c in zip(jx.constvars, consts):
            env[v] = self.const(c)
        for v, i in zip(jx.invars, ins):
            env[v] = i
        for e in jx.eqns:
            outs = self.eqn(e, [rd(v) for v in e.invars], [v if isinstance(v, jex.Literal) else root(v) for v in e.invars])
            if e.primitive.name == "mul" and any(self.folded(defs, strip(root(x)), root(y)) for x, y in (e.invars, e.invars[::-1]) if not isinstance(x, jex.Literal) and not isinstance(y, jex.Literal)):
                outs = [(0.0, INF)]       # s * (s - |s|): both factors are at most zero, or the second is exactly zero
            for v, o in zip(e.outvars, outs):
                env[v] = o
                defs[v] = e, [x if isinstance(x, jex.Literal) else root(x) for x in e.invars]
            if e.primitive.name in ("broadcast_in_dim", "reshape", "squeeze", "convert_element_type", "copy", "real", "conj") and not isinstance(e.invars[0], jex.Literal):
                if e.primitive.name not in ("broadcast_in_dim", "reshape", "squeeze") or e.outvars[0].aval.shape == e.invars[0].aval.shape:
                    roots[e.outvars[0]] = e.invars[0]
        return [rd(v) for v in jx.outvars]

    @staticmethod
    def folded(defs, s, d):
        e, xs = defs.get(d, (None, ()))
        if e is None or e.primitive.name != "sub" or xs[0] is not s:
            return False
        f, ys = defs.get(xs[1], (None, ())) if not isinstance(xs[1], jex.Literal) else (None, ())
        return f is not None and f.primitive.name == "abs" and ys[0] is s

    def eqn(self, e, a, v):
        n, p = e.primitive.name, e.params
        size = lambda x: int(np.prod(x.aval.shape)) if hasattr(x, "aval") else 1
        if n in ("pjit", "jit") and p.get("name") in ("remainder", "_remainder", "mod") and a[1][0] > 0:
            return [(0.0, a[1][1])]       # jnp.remainder for a positive divisor: 0 <= x % y <= y
        if n in PASS:
            return [a[0]] * len(e.outvars)
        if n == "convert_element_type":
            return [a[0]]
        if n in ("add", "add_any"):
            return [add(*a)]
        if n == "sub":
            return [(0.0, 0.0) if v[0] is v[1] and not math.isinf(a[0][1]) else add(a[0], (-a[1][1], -a[1][0]))]
        if n == "mul":
            return [sq(a[0]) if v[0] is v[1] and not isinstance(v[0], jex.Literal) else mul(*a)]
        if n == "neg":
            return [(-a[0][1], -a[0][0])]
        if n == "abs":
            s = a[0]
            return [(0.0 if s[0] <= 0 <= s[1] else min(abs(s[0]), abs(s[1])), max(abs(s[0]), abs(s[1])))]
        if n == "square":
            return [sq(a[0])]
        if n == "integer_pow":
            y = p["y"]
            if y == 0:
                return [(1.0, 1.0)]
            if y > 0 and y % 2 == 0:
                m = max(abs(a[0][0]), abs(a[0][1]))
                lo = 0.0 if a[0][0] <= 0 <= a[0][1] else min(abs(a[0][0]), abs(a[0][1]))
                return [iv(lo ** y if lo < 1e6 else 0.0, m ** y if m < 1e6 else INF)]
            if y > 0 and not any(math.isinf(x) for x in a[0]):
                return [iv(a[0][0] ** y, a[0][1] ** y)]
            if y > 0:
                return [(0.0 if a[0][0] >= 0 else -INF, 0.0 if a[0][1] <= 0 else INF)]
            return [(0.0, INF) if y % 2 == 0 or a[0][0] >= 0 else TOP]
        if n == "max":
            return [(max(a[0][0], a[1][0]), max(a[0][1], a[1][1]))]
        if n == "min":
            return [(min(a[0][0], a[1][0]), min(a[0][1], a[1][1]))]
        if n == "clamp":
            return [(max(a[0][0], min(a[1][0], a[2][1])), min(a[2][1], max(a[1][1], a[0][0])))]
        if n == "select_n":
            return [hull(*a[1:])]
        if n in ("concatenate", "pad", "dynamic_update_slice", "scatter"):
            return [hull(*[x for x, w in zip(a, e.invars) if w.aval.dtype == e.outvars[0].aval.dtype])]
        if n == "div":
            lo, hi = a[1]
            if lo > 0 or hi < 0:
                return [mul(a[0], (1 / hi if not math.isinf(hi) else 0.0, 1 / lo if not math.isinf(lo) else 0.0))]
            if lo >= 0:
                return [(0.0 if a[0][0] >= 0 else -INF, 0.0 if a[0][1] <= 0 else INF)]
            return [TOP]
        if n in ("exp", "exp2"):
            return [(0.0, 1.0 if a[0][1] <= 0 else INF)]
        if n in ("sin", "cos", "tanh", "erf", "sign"):
            return [(-1.0, 1.0) if n != "sign" else (-1.0 if a[0][0] < 0 else 0.0, 1.0 if a[0][1] > 0 else 0.0)]
        if n == "logistic":
            return [(0.0, 1.0)]
        if n in ("sqrt", "rsqrt", "cbrt"):
            if n != "cbrt":
                self.need(n, a[0][0] >= 0)
            if n == "sqrt":
                return [iv(math.sqrt(max(a[0][0], 0.0)), math.sqrt(max(a[0][1], 0.0)) if not math.isinf(a[0][1]) else INF)]
            return [(0.0, INF) if n == "rsqrt" or a[0][0] >= 0 else TOP]
        if n == "log":
            self.need(n, a[0][0] >= 0)
            return [TOP]
        if n == "log1p":
            self.need(n, a[0][0] >= -1)
            return [TOP]
        if n in ("acos", "asin"):
            self.need(n, a[0][0] >= -1 and a[0][1] <= 1)
            return [(0.0, 4.0) if n == "acos" else (-2.0, 2.0)]
        if n == "pow":
            y = a[1]
            whole = y[0] == y[1] and float(y[0]).is_integer()
            self.need(n, whole or a[0][0] >= 0)
            return [(0.0, INF) if a[0][0] >= 0 else TOP]
        if n == "atan2":
            return [(-4.0, 4.0)]
        if n in ("reduce_sum", "cumsum"):
            k = max(1, size(e.invars[0]))
            return [hull(a[0], mul(a[0], (float(k), float(k)))) if n == "cumsum" else mul(a[0], (1.0, float(k))) if a[0][0] >= 0 else mul(a[0], (0.0, float(k)))]
        if n == "dot_general":
            same = v[0] is v[1] and not isinstance(v[0], jex.Literal) and e.outvars[0].aval.shape == ()
            m = sq(a[0]) if same else mul(*a)
            k = max(1, size(e.invars[0]))
            return [mul(m, (0.0, float(k)))]
        if n == "iota":
            return [(0.0, float(max(0, size(e.outvars[0]))))]
        if n in ("eq", "ne", "lt", "le", "gt", "ge", "and", "or", "not", "is_finite", "xor"):
            return [(0.0, 1.0)] * len(e.outvars)
        for k in ("jaxpr", "call_jaxpr", "fun_jaxpr"):
            if k in p and n not in ("scan", "while"):
                j = p[k]
                return self.jaxpr(j.jaxpr, j.consts, a) if hasattr(j, "consts") else self.jaxpr(j, [], a)
        if n == "cond":
            rs = [self.jaxpr(b.jaxpr, b.consts, a[1:]) for b in p["branches"]]
            return [hull(*r) for r in zip(*rs)]
        # anything else (loops included): nothing is known about the result; what loops compute is sampled only
        if any(hasattr(x, "eqns") or hasattr(x, "jaxpr") for x in p.values() if not isinstance(x, (tuple, list))):
            self.need(n, False)
        return [TOP] * len(e.outvars)


class Rounding:
    """no partial operation leaves its domain, in every rounding"""
    tier = "quick"
    bounded = None

    def __init__(self, name, fn, fun, ranges, sample, n=3000, prove=True):
        """fun(m, *arrays) -> arrays; ranges: one (shape, lo, hi) per input; sample(rng) -> inputs"""
        self.name, self.fn = name, [fn] if isinstance(fn, str) else fn
        self.fun, self.ranges, self.sample, self.n = fun, ranges, sample, n
        self.prove = prove
        self.prop = None

    def trial(self, m, seed, prec, mode, n=None, xs=None):
        dt = np.dtype(prec)
        if xs is None:
            r = np.random.default_rng(seed)
            rows = [self.sample(r, dt) for _ in range(n or self.n)]
            xs = [np.stack([np.asarray(w[i], dt) for w in rows]) for i in range(len(self.ranges))]
        f = jax.vmap(lambda *a: jax.tree_util.tree_leaves(self.fun(m, *a)))
        if mode == "compiled":
            f = jax.jit(f)
        out = f(*[jnp.asarray(x, dt) for x in xs])
        bad = np.zeros(len(xs[0]), bool)
        for o in out:
            o = np.asarray(o)
            bad |= ~np.isfinite(o.reshape(o.shape[0], -1).astype(float)).all(1)
        if bad.any():
            i = int(np.argmax(bad))
            return int(bad.sum()), [np.asarray(x[i]).astype(float).tolist() for x in xs], [np.asarray(o[i]).astype(float).tolist() for o in out]
        return None

    def replay(self, d):
        i = d["inputs"]
        r = self.trial(contract.magpi(), i["seed"], i["precision"], i["mode"])
        print("real code:", r)
        return 1 if r else 0

    def check(self, seed=1, tier="quick", log=print, deadline=None):
        t0 = time.time()
        m = contract.magpi()
        res = {"contract": self.name, "functions": self.fn, "bounded": None,
               "assumes": ["rounding is monotone; compiled code evaluates sums and products of the jaxpr, possibly fused, without cancelling them algebraically"],
               "obligations": [], "violations": [], "samples": 0, "satisfied": 0, "paths": 1, "solver_s": 0.0, "backends": {}, "assumed": {}, "note": ""}
        try:
            for prec in ("float64", "float32"):
                for mode in ("eager", "compiled"):
                    k = self.n * (1 if tier == "quick" else 10)
                    r = self.trial(m, seed, prec, mode, k if tier != "quick" else None)
                    res["samples"] += k
                    res["satisfied"] += k
                    if r:
                        res["violations"].append({"kind": "input", "contract": self.name, "label": "finite in %s, %s" % (prec, mode),
                            "detail": "%d of %d samples are not finite, e.g. %s -> %s" % (r[0], k, r[1], r[2]),
                            "inputs": {"seed": seed, "precision": prec, "mode": mode, "example": r[1]}, "functions": self.fn})
                        res["obligations"].append({"label": "finite in %s, %s" % (prec, mode), "status": "failed", "why": str(r)[:300]})
                        res["wall_s"] = time.time() - t0
                        return res
            A = Analysis()
            sh = [jax.ShapeDtypeStruct(s, jnp.float64) for s, _, _ in self.ranges]
            jx = jax.make_jaxpr(lambda *a: jax.tree_util.tree_leaves(self.fun(m, *a)))(*sh)
            if self.prove:
                A.jaxpr(jx.jaxpr, jx.consts, [(lo, hi) for _, lo, hi in self.ranges])
        except Exception as ex:  # noqa: BLE001
            import traceback
            res["violations"].append({"kind": "input", "contract": self.name, "label": "exception", "detail": traceback.format_exc()[-1500:], "inputs": {"seed": seed, "precision": "float64", "mode": "eager"}, "functions": self.fn})
            res["obligations"].append({"label": "evaluates", "status": "failed", "why": repr(ex)[:300]})
            res["wall_s"] = time.time() - t0
            return res
        good = [n for n, ok in A.obs if ok]
        open_ = [n for n, ok in A.obs if not ok]
        for k, n in enumerate(good):
            log("    proved %s #%d in its domain" % (n, k))
            res["obligations"].append({"label": "argument of %s #%d is in its domain in every rounding" % (n, k), "status": "proved", "why": "", "secs": 0.0, "kind": "post"})
            res["backends"]["interval"] = res["backends"].get("interval", 0) + 1
        if not self.prove:
            res["bounded"] = "sampled in both precisions, compiled and not (%d samples)" % res["samples"]
        elif open_:
            res["bounded"] = "%s: argument sampled, not proved (%d samples)" % (", ".join(open_), res["samples"])
        elif not good:
            res["obligations"].append({"label": "no partial operation in the code", "status": "proved", "why": "", "secs": 0.0, "kind": "post"})
            res["backends"]["interval"] = 1
        res["wall_s"] = time.time() - t0
        return res


def cancel(r, dt):
    """two operands: equal, neighbours, opposite, or unrelated"""
    a = np.asarray(r.uniform(-3, 3), dt)
    k = r.integers(6)
    b = [a, np.nextafter(a, dt.type(9)), np.nextafter(a, dt.type(-9)), -a, np.asarray(r.uniform(-3, 3), dt), np.asarray(0.0, dt)][k]
    return (b, a) if r.integers(2) else (a, b)


def _q(lo, hi):
    return [((), lo, hi), ((3,), lo, hi)]


def _near_real(r, dt):
    a = np.asarray(r.uniform(-3, 3), dt)
    v = np.asarray(r.normal(0, 1, 3), dt)
    return a, np.asarray([v, 0 * v, 1e-9 * v, 1e-5 * v][r.integers(4)], dt)


def _quat(m, a, v):
    return m.quaternions.Quaternion(a, v)


def _parts(q):
    return q.real, q.imag


def _cube01(d):
    """the unit cube with its faces, corners and diagonals"""
    def s(r, dt):
        x = r.uniform(0, 1, d)
        k = r.integers(4)
        if k == 0:
            x = r.integers(0, 2, d).astype(float)
        elif k == 1:
            x[r.integers(d)] = r.integers(0, 2)
        elif k == 2:
            x[:] = x[0]
        elif k == 3:
            x = np.nextafter(x.astype(dt), dt.type(r.integers(0, 2)))
        return (np.asarray(x, dt),)
    return s


def c01():
    F = "magpi/quaternions.py:"
    R = [((), -INF, INF), ((3,), -INF, INF)]
    return [Rounding("rounding.abs", F + "Quaternion.__abs__", lambda m, a, v: abs(_quat(m, a, v)), R, _near_real)]


def c03():
    F = "magpi/quaternions.py:"
    R = [((), -INF, INF), ((3,), -INF, INF)]
    L = []
    L.append(Rounding("rounding.log", [F + "quanternion_log", F + "arg", F + "sgn"], lambda m, a, v: _parts(m.quaternions.quanternion_log(_quat(m, a, v))), R, _near_real))
    L.append(Rounding("rounding.exp", [F + "quanternion_exp", F + "sgn"], lambda m, a, v: _parts(m.quaternions.quanternion_exp(_quat(m, a, v))), R, _near_real))
    for k in (-1.0, 0.5, 2.0, 3.0):
        L.append(Rounding("rounding.pow[%g]" % k, F + "Quaternion.__pow__", lambda m, a, v, k=k: _parts(_quat(m, a, v) ** k), R, _near_real, n=1000))
    L.append(Rounding("rounding.rpow", F + "Quaternion.__rpow__", lambda m, b, a, v: _parts(_quat(m, a, v).__rpow__(b)), [((), 0.0, INF)] + R,
                      lambda r, dt: (np.asarray(r.uniform(0.01, 9), dt),) + _near_real(r, dt), n=1000))
    return L


def systems():
    for al in (1.0, 0.9999999, 0.7, 0.0, -0.5, -0.999):
        yield "RAlpha", "RAlpha[%s]" % al, (lambda m, al=al: m.r_fun.RAlpha(al))
    for k, al in ((0, 1.0), (1, 1.0), (2, 1.0), (1, 0.5), (3, 0.0)):
        yield "RAlphaM", "RAlphaM[%d,%g]" % (k, al), (lambda m, k=k, al=al: m.r_fun.RAlphaM(k, al))
    for p in (2, 4, 6):
        yield "RP", "RP[%d]" % p, (lambda m, p=p: m.r_fun.RP(p))
    for rho in (0.1, 0.5, 2.0):
        yield "RhoBlending", "RhoBlending[%g]" % rho, (lambda m, rho=rho: m.r_fun.RhoBlending(rho))
    for n in ("r0", "r1", "rp2", "rp4"):
        yield {"r": "RAlpha"}.get(n[:-1], "RP"), n, (lambda m, n=n: getattr(m.r_fun, n))


def c04():
    F = "magpi/r_fun.py:"
    L = []

    def ops(m, mk, a, b):
        s = mk(m)
        f, g = (lambda x: a), (lambda x: b)
        x = jnp.zeros(2)
        return (s.conjunction(a, b), s.disjunction(a, b), s.xor(f, g)(x), s.equivalence(f, g)(x), s.implication(f, g)(x), s.difference(f, g)(x))
    for cls, n, mk in systems():
        L.append(Rounding("rounding.%s" % n, [F + cls + ".conjunction", F + cls + ".disjunction"], lambda m, a, b, mk=mk: ops(m, mk, a, b),
                          [((), -INF, INF), ((), -INF, INF)], cancel, n=1000))
    return L


def _centre(d, dt, r):
    x = np.asarray(r.uniform(-1.5, 1.5, d), dt)
    k = r.integers(4)
    return np.asarray([x, 0 * x, x * (np.arange(d) == r.integers(d)), 0 * x + x[0]][k], dt)


def c05():
    F = "magpi/r_fun.py:"
    L = []
    for d in (1, 2, 3):
        rg = [((d,), -INF, INF)]
        smp = lambda r, dt, d=d: (_centre(d, dt, r),)
        e = [1.0, 2.0, 1.0][:d]
        L.append(Rounding("rounding.sphere[%dd]" % d, F + "sphere", lambda m, x: m.r_fun.sphere(1.5)(x), rg, smp, n=1000))
        L.append(Rounding("rounding.ellipsoid[%dd]" % d, F + "ellipsoid", lambda m, x, e=e: m.r_fun.ellipsoid(e)(x), rg, smp, n=1000))
        for n in ("r0", "r1", "rp4"):
            L.append(Rounding("rounding.cuboid[%dd,%s]" % (d, n), F + "cuboid",
                              lambda m, x, e=e, n=n: (m.r_fun.cuboid(e, True, getattr(m.r_fun, n))(x), m.r_fun.cuboid(e, False, getattr(m.r_fun, n))(x)), rg, smp, n=1000))
    L.append(Rounding("rounding.cylinder", F + "cylinder", lambda m, x: m.r_fun.cylinder(1.5)(x), [((3,), -INF, INF)], lambda r, dt: (_centre(3, dt, r),), n=1000))
    return L


def c10():
    F = "magpi/domain.py:"
    L = []
    A = jnp.asarray
    o2, o3 = [0.1, -0.3], [0.1, -0.3, 0.7]
    arr = lambda x, t: A(t, x.dtype)
    nrm = lambda p: jnp.sqrt(jnp.sum(p * p))

    def tol(p):
        return 1e-4 if p.dtype == jnp.float32 else 1e-9

    def inside(p, ok):
        """the point, or nan where it left the set (up to rounding)"""
        return jnp.where(ok, p, jnp.nan)

    def add(n, d, f, member, k=3000):
        # one contract for the domain of the partial operations, one for membership at the edges of the unit cube
        L.append(Rounding("rounding." + n, F + n, f, [((d,), 0.0, 1.0)], _cube01(d), n=k))
        L.append(Rounding("rounding.%s.member" % n, F + n, lambda m, x: (lambda p: inside(p, member(p, tol(p))))(f(m, x)), [((d,), 0.0, 1.0)], _cube01(d), n=k, prove=False))
    ball = lambda r1, r2, o: (lambda p, t: (lambda q: (q <= r2 + t) & (q >= r1 - t))(nrm(p - arr(p, o))))
    add("transform_annulus", 2, lambda m, x: m.domain.transform_annulus(x, arr(x, 0.3), arr(x, 1.7), arr(x, o2)), ball(0.3, 1.7, o2))
    add("transform_circle", 2, lambda m, x: m.domain.transform_circle(x, arr(x, 1.7), arr(x, o2)), ball(0.0, 1.7, o2))
    add("transform_sphere", 3, lambda m, x: m.domain.transform_sphere(x, arr(x, 1.7), arr(x, o3)), ball(0.0, 1.7, o3))
    add("transform_sphere_bnd", 2, lambda m, x: m.domain.transform_sphere_bnd(x, arr(x, 1.7), arr(x, o3)), ball(1.7, 1.7, o3))
    add("transform_circle_bnd", 1, lambda m, x: m.domain.transform_circle_bnd(x, arr(x, 1.7), arr(x, o2)), ball(1.7, 1.7, o2))

    def tri(p, t):
        a, b, c = (arr(p, q) for q in T)
        cr = lambda u, v: u[0] * v[1] - u[1] * v[0]
        return (cr(b - a, p - a) >= -t) & (cr(c - b, p - b) >= -t) & (cr(a - c, p - c) >= -t)
    T = (o2, [1.0, 0.5], [0.2, 2.0])
    add("transform_triangle", 2, lambda m, x: m.domain.transform_triangle(x, *(arr(x, q) for q in T)), tri)

    def online(p, t, P):
        u, v = P[:-1], P[1:]
        w = jnp.clip(jnp.sum((p - u) * (v - u), -1) / jnp.sum((v - u) ** 2, -1), 0, 1)
        return jnp.min(jnp.sum((p - u - w[:, None] * (v - u)) ** 2, -1)) <= (100 * t) ** 2
    add("transform_polyline", 1, lambda m, x: m.domain.transform_polyline(x, tuple(arr(x, q) for q in T))[0], lambda p, t: online(p, t, arr(p, T)))
    for d in (1, 2, 3):
        lb, ub = [0.1, -0.3, 0.7][:d], [1.3, 0.5, 0.9][:d]

        def box(p, t, lb=lb, ub=ub):
            return jnp.all((p >= arr(p, lb) - t) & (p <= arr(p, ub) + t))
        add("transform_hypercube", d, lambda m, x, lb=lb, ub=ub: m.domain.transform_hypercube(x, arr(x, lb), arr(x, ub)), box)
        L[-1].name += "[%dd]" % d
        L[-2].name += "[%dd]" % d
        if d > 1:
            face = lambda p, t, lb=lb, ub=ub, box=box: box(p, t) & (jnp.any(jnp.abs(p - arr(p, lb)) <= t) | jnp.any(jnp.abs(p - arr(p, ub)) <= t))
            add("transform_hypercube_bnd", d - 1, lambda m, x, lb=lb, ub=ub: m.domain.transform_hypercube_bnd(x, arr(x, lb), arr(x, ub)), face)
            L[-1].name += "[%dd]" % d
            L[-2].name += "[%dd]" % d

    # a line with many segments: the two ways of adding up its length round differently
    def edge(r, dt):
        s = np.asarray([1.0, 0.0, r.uniform(0, 1)][r.integers(3)], dt)
        for _ in range(r.integers(1, 40)):
            s = np.nextafter(s, dt.type(0.5))
        return s, np.asarray(r.normal(0, 1, (60, 2)), dt)
    L.append(Rounding("rounding.transform_polyline.member[60 points]", F + "transform_polyline",
                      lambda m, s, P: (lambda p: inside(p, online(p, tol(p), P)))(m.domain.transform_polyline(s, tuple(P))), [((), 0.0, 1.0), ((60, 2), -INF, INF)], edge, n=1500, prove=False))
    return L


def contracts(prop):
    return {"C01": c01, "C03": c03, "C04": c04, "C05": c05, "C10": c10}.get(prop, list)()
