"""C17 ODE integration (magpi.ode)."""
import jax
import jax.numpy as jnp

from .lib import *

F = "magpi.ode."


def contracts(prop):
    return {"C17": c17}[prop]()


def rk4_spec(f, y, t, h):
    k1 = f(y, t)
    k2 = f(y + h / 2 * k1, t + h / 2)
    k3 = f(y + h / 2 * k2, t + h / 2)
    k4 = f(y + h * k3, t + h)
    return y + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)


def tame(seed):
    """a bounded one-step method, so that long histories stay finite"""
    rs = np.random.RandomState(seed)
    W, b = jnp.asarray(rs.uniform(-1, 1, (2, 5))), jnp.asarray(rs.uniform(-1, 1, 2))
    return lambda y, t, dt, k: jnp.sin(W @ jnp.stack([y[0], y[1], t, dt, k]) + b)


def c17():
    R = []
    for shp in ((), (2,)):
        X = {"y": shp, "t": (), "h": (), "k": ()}
        U = {"f": ((shp, (), ()), shp)}
        tf = lambda v: (lambda y, t: v.f.arr(y, t, v.k))
        R.append(Contract("rk4.step[%s]" % (shp,), F + "rk4", X, ufs=U, n=3, scale=0.5,
            run=lambda m, v: m.ode.rk4(lambda y, t, k: v.f(y, t, k), v.y, v.t, v.h, v.k),
            ensures=lambda v, o, tf=tf: [("classical Runge-Kutta step", eqs(o, rk4_spec(tf(v), v.y, v.t, v.h)))]))
        R.append(Contract("euler.step[%s]" % (shp,), F + "explicit_euler", X, ufs=U, n=3, scale=0.5,
            run=lambda m, v: m.ode.explicit_euler(lambda y, t, k: v.f(y, t, k), v.y, v.t, v.h, v.k),
            ensures=lambda v, o, tf=tf: [("Euler step", eqs(o, v.y + v.h * tf(v)(v.y, v.t)))]))
    # order of consistency, stated on the solution: exact on polynomials up to degree four
    R.append(Contract("rk4.order", F + "rk4", {"t": (), "h": (), "y": (), "c": (4,)}, n=4,
        run=lambda m, v: m.ode.rk4(lambda y, t: v.c[0] + 2 * v.c[1] * t + 3 * v.c[2] * t ** 2 + 4 * v.c[3] * t ** 3, v.y, v.t, v.h),
        ensures=lambda v, o: [("exact for quartic solutions", eq(o - v.y, sum([v.c[k] * ((v.t + v.h) ** (k + 1) - v.t ** (k + 1)) for k in range(4)], ZERO)))]))
    R.append(Contract("rk4.linear", F + "rk4", {"t": (), "h": (), "y": (), "a": ()}, n=4,
        run=lambda m, v: m.ode.rk4(lambda y, t: v.a * y, v.y, v.t, v.h),
        ensures=lambda v, o: (lambda z: [("agrees with exp(a h) through fourth order", eq(o, v.y * (1 + z + z ** 2 / 2 + z ** 3 / 6 + z ** 4 / 24)))])(v.a * v.h)))
    R.append(Contract("rk4.pytree", F + "rk4", {"y": (2,), "z": (), "t": (), "h": ()}, ufs={"f": (((2,), (), ()), (2,)), "g": (((2,), (), ()), ())}, n=3, scale=0.5,
        run=lambda m, v: (lambda r: (r["y"], r["z"]))(m.ode.rk4(lambda s, t: {"y": v.f(s["y"], s["z"], t), "z": v.g(s["y"], s["z"], t)}, {"y": v.y, "z": v.z}, v.t, v.h)),
        ensures=lambda v, o: (lambda r: [("leaf y", eqs(o[0], r[:2])), ("leaf z", eq(o[1], r[2]))])(
            rk4_spec(lambda s, t: A(*v.f.arr(s[:2], s[2], t), v.g.arr(s[:2], s[2], t)), A(v.y[0], v.y[1], v.z), v.t, v.h))))
    R.append(Contract("euler.pytree", F + "explicit_euler", {"y": (2,), "z": (), "t": (), "h": ()}, ufs={"f": (((2,), (), ()), (2,)), "g": (((2,), (), ()), ())}, n=3,
        run=lambda m, v: (lambda r: (r["y"], r["z"]))(m.ode.explicit_euler(lambda s, t: {"y": v.f(s["y"], s["z"], t), "z": v.g(s["y"], s["z"], t)}, {"y": v.y, "z": v.z}, v.t, v.h)),
        ensures=lambda v, o: [("leaf y", eqs(o[0], v.y + v.h * v.f.arr(v.y, v.z, v.t))), ("leaf z", eq(o[1], v.z + v.h * v.g.arr(v.y, v.z, v.t)))]))

    # odeint: any one-step method M(y, t, dt)
    for n in (1, 2, 3, 4, 6, 33, 121):
        for unroll in ((1, 2) if n < 33 else (1, 4)):
            def run(m, v, unroll=unroll):
                meth = lambda df, y, t, dt, k: v.M(y, t, dt, k)
                return m.ode.odeint(lambda y, t, k: y, v.y, v.ts, v.k, unroll=unroll, method=meth)

            def ens(v, o, n=n):
                if np.shape(o) != (n, 2):
                    return [("one state per time", FALSE)]
                out = [("starts at the initial value", eqs(o[0], v.y))]
                for i in range(n - 1):
                    out.append(("step %d advances from t_%d by t_%d - t_%d" % (i + 1, i, i + 1, i),
                                eqs(o[i + 1], v.M.arr(o[i], v.ts[i], v.ts[i + 1] - v.ts[i], v.k))))
                return out
            R.append(Contract("odeint[%d times,unroll=%d]" % (n, unroll), F + "odeint", {"y": (2,), "ts": (n,), "k": ()},
                ufs={"M": (((2,), (), (), ()), (2,))}, concrete={"M": tame}, n=2, scale=0.5, run=run, ensures=ens))
    R.append(Contract("odeint.default", [F + "odeint", F + "rk4"], {"y": (), "ts": (3,), "k": ()}, ufs={"f": (((), (), ()), ())}, n=3, scale=0.5,
        run=lambda m, v: m.ode.odeint(lambda y, t, k: v.f(y, t, k), v.y, v.ts, v.k),
        ensures=lambda v, o: [("starts at the initial value", eq(o[0], v.y))] + [("RK4 step %d" % i, eq(o[i + 1], rk4_spec(lambda y, t: v.f.term(y, t, v.k), o[i], v.ts[i], v.ts[i + 1] - v.ts[i]))) for i in range(2)]))
    R.append(Contract("odeint.euler", [F + "odeint", F + "explicit_euler"], {"y": (), "ts": (4,)}, ufs={"f": (((), ()), ())}, n=3, scale=0.5,
        run=lambda m, v: m.ode.odeint(lambda y, t: v.f(y, t), v.y, v.ts, method=m.ode.explicit_euler),
        ensures=lambda v, o: [("Euler step %d" % i, eq(o[i + 1], o[i] + (v.ts[i + 1] - v.ts[i]) * v.f.term(o[i], v.ts[i]))) for i in range(3)]))
    R.append(Contract("odeint.quartic", [F + "odeint"], {"y": (), "ts": (4,), "c": (4,)}, n=3,
        run=lambda m, v: m.ode.odeint(lambda y, t: v.c[0] + 2 * v.c[1] * t + 3 * v.c[2] * t ** 2 + 4 * v.c[3] * t ** 3, v.y, v.ts),
        ensures=lambda v, o: [("exact at node %d" % i, eq(o[i] - v.y, sum([v.c[k] * (v.ts[i] ** (k + 1) - v.ts[0] ** (k + 1)) for k in range(4)], ZERO))) for i in range(4)]))
    def run_many(m, v):
        a = (v.a1, v.a2, v.a3, v.a4, v.k1, v.k2)
        o = lambda y, t, *z: v.f(y, t, v.w(*z))
        s = lambda y, t: v.f(y, t, v.w(*a))
        O = m.ode
        return [(O.rk4(o, v.y, v.ts[0], v.ts[1], *a), O.rk4(s, v.y, v.ts[0], v.ts[1])), (O.explicit_euler(o, v.y, v.ts[0], v.ts[1], *a), O.explicit_euler(s, v.y, v.ts[0], v.ts[1])),
                (O.odeint(o, v.y, v.ts, *a), O.odeint(s, v.y, v.ts)), (O.odeint(o, v.y, v.ts, *a, method=O.explicit_euler, unroll=2), O.odeint(s, v.y, v.ts, method=O.explicit_euler))]
    R.append(Contract("odeint.many arguments", [F + "odeint", F + "rk4", F + "explicit_euler"], dict(MANY, y=(), ts=(3,)), ufs=dict(MANYF, f=(((), (), ()), ())), n=3, scale=0.5, run=run_many,
        ensures=lambda v, o: passes(v, o, ("rk4", "explicit_euler", "odeint", "odeint, Euler"))))
    R.append(Contract("odeint.reversible", [F + "odeint"], {"y": (), "t0": (), "h": (), "c": (2,)}, n=3,
        run=lambda m, v: m.ode.odeint(lambda y, t: v.c[0] + v.c[1] * t, v.y, jnp.stack([v.t0, v.t0 + v.h, v.t0])),
        ensures=lambda v, o: [("decreasing times integrate backwards", eq(o[2], v.y))]))
    R.append(Contract("odeint.pytree", F + "odeint", {"y": (2,), "z": (), "ts": (3,)}, ufs={"f": (((2,), (), ()), (2,)), "g": (((2,), (), ()), ())}, n=3, scale=0.5,
        run=lambda m, v: (lambda r: (r[0], r[1]))(m.ode.odeint(lambda s, t: (v.f(s[0], s[1], t), v.g(s[0], s[1], t)), (v.y, v.z), v.ts, method=m.ode.explicit_euler)),
        ensures=lambda v, o: [("starts", and_(eqs(o[0][0], v.y), eq(o[1][0], v.z)))] + [
            ("step %d" % i, and_(eqs(o[0][i + 1], o[0][i] + (v.ts[i + 1] - v.ts[i]) * v.f.arr(o[0][i], o[1][i], v.ts[i])),
                                 eq(o[1][i + 1], o[1][i] + (v.ts[i + 1] - v.ts[i]) * v.g.term(o[0][i], o[1][i], v.ts[i])))) for i in range(2)]))
    # derivatives through the solver agree with the differentiated recursion (forward and reverse)
    R.append(Contract("odeint.grad", F + "odeint", {"y": (), "ts": (3,)}, ufs={"f": (((), ()), ())}, n=3, scale=0.5,
        run=lambda m, v: (lambda g: (g(v.y), jax.jacfwd(g)(v.y), jax.jacrev(g)(v.y)))(lambda y: m.ode.odeint(lambda y, t: v.f(y, t), y, v.ts, method=m.ode.explicit_euler)),
        ensures=lambda v, o: [("starts with 1", and_(eq(o[1][0], 1), eq(o[2][0], 1)))] + [
            ("sensitivity step %d" % i, and_(*[eq(o[k][i + 1], o[k][i] * (1 + (v.ts[i + 1] - v.ts[i]) * v.f.term(o[0][i], v.ts[i], d=((0, 0),)))) for k in (1, 2)])) for i in range(2)]))
    return R
