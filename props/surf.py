"""C23 surface integrals, C24 single layer potentials (magpi.surface_integral)."""
import itertools
import math

import jax
import jax.numpy as jnp

from .lib import *

F = "magpi.surface_integral."
RULE = {"wq": (((2,),), (2,)), "xq": (((2,),), (2,))}     # an arbitrary two point rule on one interval


def contracts(prop):
    return {"C23": c23, "C24": c24}[prop]()


def rule(v):
    return lambda d: (v.wq(d), v.xq(d))


def nodes(v, a, b, c, d):
    """weight and parameter of the tensor product rule on [a,b] x [c,d]"""
    U, V = A(a, b), A(c, d)
    for i, j in itertools.product(range(2), range(2)):
        yield v.wq.term(U, out=(i,)) * v.wq.term(V, out=(j,)), A(v.xq.term(U, out=(i,)), v.xq.term(V, out=(j,)))


def area(v, p):
    ru, rv = v.r.arr(p, d=((0, 0),)), v.r.arr(p, d=((0, 1),))
    return sqrt(norm2(cross(ru, rv)))


def elements(v):
    """(u-cell, v-cell) in row-major order"""
    for i in range(len(v.u) - 1):
        for j in range(len(v.v) - 1):
            yield i, j, (v.u[i], v.u[i + 1], v.v[j], v.v[j + 1])


def mid(v, e):
    a, b, c, d = e
    return v.r.arr(A((a + b) * HALF, (c + d) * HALF))


def mesh(r, n, m):
    return {"u": np.cumsum(r.uniform(0.2, 0.5, n)) - 0.2, "v": np.cumsum(r.uniform(0.2, 0.5, m)) - 0.2}


# concrete meanings of the arbitrary functions for replays: a curved surface and the two point Gauss rule
def surface(seed):
    k = 0.2 + 0.1 * (seed % 5)
    return lambda p: jnp.stack([p[0] + k * p[1] ** 2, p[1] - k * p[0] * p[1], 1 + k * jnp.sin(p[0]) - p[1] * k])


def w2(seed):
    return lambda d: (d[1] - d[0]) * jnp.array([0.25, 0.75])


def x2(seed):
    return lambda d: d[0] + (d[1] - d[0]) * jnp.array([0.1, 2 / 3])


CONC = {"r": surface, "wq": w2, "xq": x2}
R3 = {"r": (((2,),), (3,))}


def c23():
    R = []
    U0 = dict(R3, **RULE)

    def whole(v, f):
        return sum([w * f(v.r.arr(p)) * area(v, p) for w, p in nodes(v, v.u[0], v.u[1], v.v[0], v.v[1])], ZERO)
    R.append(Contract("surface.scalar", F + "integrate_surface", {"u": (2,), "v": (2,)}, ufs=dict(U0, f=(((3,),), ())), concrete=CONC, sample=lambda r: mesh(r, 2, 2), n=4,
        run=lambda m, v: m.surface_integral.integrate_surface(v.f, v.r, v.u, v.v, method=rule(v)),
        ensures=lambda v, o: [("sum of w f(r) |r_u x r_v|", eq(o, whole(v, lambda y: v.f.term(y))))]))

    def ens(v, o):
        if np.shape(o["a"]) != (2,) or np.shape(o["b"]) != ():
            return [("shape of the integrand", FALSE)]
        return [("component %d" % k, eq(o["a"][k], whole(v, lambda y: v.f.term(y, v.s, v.t, out=(k,))))) for k in range(2)] + [("second leaf", eq(o["b"], whole(v, lambda y: v.g.term(y, v.s, v.t))))]
    R.append(Contract("surface.args", F + "integrate_surface", {"u": (2,), "v": (2,), "s": (), "t": ()}, ufs=dict(U0, f=(((3,), (), ()), (2,)), g=(((3,), (), ()), ())), concrete=CONC, n=4,
        sample=lambda r: dict(mesh(r, 2, 2), s=r.normal(), t=r.normal()),
        run=lambda m, v: m.surface_integral.integrate_surface(lambda y, s, t: {"a": v.f(y, s, t), "b": v.g(y, s, t)}, v.r, v.u, v.v, v.s, method=rule(v), t=v.t), ensures=ens))
    def run_many(m, v):
        S, (a, k) = m.surface_integral, extra(v)
        oc, sc = (lambda y, c, *z, **kw: open_(v, v.f)(y, *z, **kw) * c[0]), (lambda y, c: shut(v, v.f)(y) * c[0])
        return [(S.integrate_surface(open_(v, v.f), v.r, v.u, v.v, *a, method=rule(v), **k), S.integrate_surface(shut(v, v.f), v.r, v.u, v.v, method=rule(v))),
                (S.integrate_surface_elements(oc, v.r, v.u, v.v, *a, method=rule(v), **k), S.integrate_surface_elements(sc, v.r, v.u, v.v, method=rule(v)))]
    R.append(Contract("surface.many arguments", [F + "integrate_surface", F + "integrate_surface_elements"], dict(MANY, u=(2,), v=(2,)), ufs=dict(U0, **MANYF, f=(((3,), ()), ())), concrete=CONC, n=2,
        sample=lambda r: dict(mesh(r, 2, 2), **{t: r.normal() for t in MANY}), run=run_many,
        ensures=lambda v, o: passes(v, o, ("integrate_surface", "integrate_surface_elements"))))
    for gd in (1, 2):
        # composite rules on the whole mesh: the sum over the elements is the integral
        for n, k in ((2, 2), (3, 2), (2, 3), (3, 3)):
            if gd == 2 and n + k > 5:
                continue
            R.append(Contract("surface.additive[gauss %d,%dx%d]" % (gd, n, k), [F + "integrate_surface", F + "integrate_surface_elements"], {"u": (n,), "v": (k,)}, ufs=dict(R3, f=(((3,),), ())), concrete=CONC,
                sample=lambda r, n=n, k=k: mesh(r, n, k), n=3,
                run=lambda m, v, gd=gd: (m.surface_integral.integrate_surface(v.f, v.r, v.u, v.v, method=m.integrate.gauss(gd)),
                                         m.surface_integral.integrate_surface_elements(lambda y, c: v.f(y), v.r, v.u, v.v, method=m.integrate.gauss(gd))),
                ensures=lambda v, o, n=n, k=k: [("one value per element", TRUE if np.shape(o[1]) == (n - 1, k - 1) else FALSE), ("elements add up to the surface", eq(o[0], sum(list(np.asarray(o[1]).reshape(-1)), ZERO)))]))
    for n, k in ((2, 2), (3, 2), (2, 4), (3, 3)):
        def ens(v, o, n=n, k=k):
            if np.shape(o) != (n - 1, k - 1, 2):
                return [("one value per element", FALSE)]
            E = []
            for i, j, e in elements(v):
                c = mid(v, e)
                for q_ in range(2):
                    E.append(("element %d,%d component %d" % (i, j, q_), eq(o[i, j, q_], sum([w * v.f.term(v.r.arr(p), c, v.s, v.t, out=(q_,)) * area(v, p) for w, p in nodes(v, *e)], ZERO))))
            return E
        R.append(Contract("surface.elements[%dx%d]" % (n, k), [F + "integrate_surface_elements", F + "center"], {"u": (n,), "v": (k,), "s": (), "t": ()}, ufs=dict(U0, f=(((3,), (3,), (), ()), (2,))), concrete=CONC, n=3,
            sample=lambda r, n=n, k=k: dict(mesh(r, n, k), s=r.normal(), t=r.normal()),
            run=lambda m, v: m.surface_integral.integrate_surface_elements(lambda y, c, s, t: v.f(y, c, s, t), v.r, v.u, v.v, v.s, method=rule(v), t=v.t), ensures=ens))
    for n, k in ((2, 2), (3, 2), (2, 4), (4, 3), (5, 5)):
        R.append(Contract("midpoints[%dx%d]" % (n, k), [F + "midpoints", F + "center"], {"u": (n,), "v": (k,)}, ufs=R3, concrete=CONC, n=3, sample=lambda r, n=n, k=k: mesh(r, n, k),
            run=lambda m, v: (m.surface_integral.midpoints(v.r, v.u, v.v), m.surface_integral.center(v.r, v.u[:2], v.v[:2])),
            ensures=lambda v, o, n=n, k=k: [("image of the centre of element %d,%d" % (i, j), eqs(o[0][i, j], mid(v, e))) for i, j, e in elements(v)] + [("center", eqs(o[1], mid(v, (v.u[0], v.u[1], v.v[0], v.v[1]))))]
            if np.shape(o[0]) == (n - 1, k - 1, 3) else [("shape", FALSE)]))
    # areas of flat elements with the default rule: exact up to the rounding of the tabulated weights, so gauss(1) here
    R.append(Contract("surface.area", F + "integrate_surface", {"u": (3,), "v": (2,), "a": (3,), "b": (3,), "o": (3,)}, n=4, sample=lambda r: dict(mesh(r, 3, 2), a=r.normal(0, 1, 3), b=r.normal(0, 1, 3), o=r.normal(0, 1, 3)),
        requires=lambda v: [le(v.u[0], v.u[2]), le(v.v[0], v.v[1])],
        run=lambda m, v: m.surface_integral.integrate_surface(lambda y: 1.0, lambda p: v.o + p[0] * v.a + p[1] * v.b, v.u, v.v, method=m.integrate.gauss(1)),
        ensures=lambda v, o: [("area of a parallelogram", and_(le(0, o), eq(o * o, (v.u[2] - v.u[0]) ** 2 * (v.v[1] - v.v[0]) ** 2 * norm2(cross(v.a, v.b)))))]))

    # the documented default is the five point rule in both directions
    R.append(Contract("surface.default rule", [F + "integrate_surface", F + "integrate_surface_elements"], {"u": (2,), "v": (2,)}, ufs=dict(R3, f=(((3,),), ())), concrete=CONC, n=3, sample=lambda r: mesh(r, 2, 2),
        run=lambda m, v: (m.surface_integral.integrate_surface(v.f, v.r, v.u, v.v), m.surface_integral.integrate_surface(v.f, v.r, v.u, v.v, method=m.integrate.gauss(5)),
                          m.surface_integral.integrate_surface_elements(lambda y, c: v.f(y), v.r, v.u, v.v), m.surface_integral.integrate_surface_elements(lambda y, c: v.f(y), v.r, v.u, v.v, method=m.integrate.gauss(5))),
        ensures=lambda v, o: [("whole surface", eq(o[0], o[1])), ("elements", eq(o[2][0, 0], o[3][0, 0]))]))
    # a parametrization of the wrong shape is rejected
    def run(m, v):
        r = []
        for p in (lambda x: x, lambda x: jnp.stack([x[0], x[1], x[0], x[1]])):
            try:
                m.surface_integral.integrate_surface(lambda y: 1.0, p, v.u, v.v)
                r.append(0.0)
            except (AssertionError, ValueError):
                r.append(1.0)
        for u, w in ((v.u[:1], v.v), (v.u, v.v[:1])):
            try:
                m.surface_integral.integrate_surface_elements(lambda y, c: 1.0, lambda x: jnp.stack([x[0], x[1], x[0]]), u, w)
                r.append(0.0)
            except (AssertionError, ValueError):
                r.append(1.0)
        return [v.u[0] * 0 + t for t in r]
    R.append(Contract("surface.rejects", [F + "integrate_surface", F + "integrate_surface_elements"], {"u": (2,), "v": (2,)}, run=run, n=2, ensures=lambda v, o: [("not a surface in R^3, or no element", and_(*[eq(t, 1) for t in o]))]))
    return R


def alphas(order):
    """components of the Taylor tensors up to the order, row-major"""
    for k in range(order + 1):
        yield from itertools.product(range(3), repeat=k)


def prod(xs):
    r = ONE
    for x in xs:
        r = r * x
    return r


def away(v):
    """the target point is not a quadrature node"""
    return [lt(0, norm2(v.x - v.r.arr(p))) for _, _, e in elements(v) for _, p in nodes(v, *e)]


def c24():
    R = []
    U0 = dict(R3, **RULE)

    def smp(n, k, **kw):
        def f(r):
            d = mesh(r, n, k)
            d["x"] = r.uniform(-1, 1, 3) - [0, 0, 2]
            for a, s in kw.items():
                d[a] = r.normal(0, 1, s)
            return d
        return f

    def S(v, e, al):
        c = mid(v, e)
        return sum([w * area(v, p) * prod([v.r.arr(p)[a] - c[a] for a in al]) / sqrt(norm2(v.x - v.r.arr(p))) for w, p in nodes(v, *e)], ZERO)

    def dS(v, e, al, i):
        c = mid(v, e)
        s = ZERO
        for w, p in nodes(v, *e):
            y = v.r.arr(p)
            n2 = norm2(v.x - y)
            s = s - w * area(v, p) * prod([y[a] - c[a] for a in al]) * (v.x[i] - y[i]) / (n2 * sqrt(n2))
        return s
    for order, n, k in ((0, 2, 2), (1, 2, 2), (2, 2, 2), (3, 2, 2), (1, 3, 2), (0, 2, 3)):
        K = sum(3 ** i for i in range(order + 1))
        N = (n - 1) * (k - 1) * K

        def ens(v, o, order=order, N=N, K=K, n=n, k=k):
            if np.shape(o[0]) != (N,) or np.shape(o[1][0]) != (N,) or np.shape(o[1][1]) != (N, 3):
                return [("one entry per element and Taylor component", FALSE)]
            E = []
            for q_, (i, j, e) in enumerate(elements(v)):
                for t, al in enumerate(alphas(order)):
                    s = S(v, e, al)
                    E.append(("element %d,%d component %s" % (i, j, al), and_(eq(o[0][q_ * K + t], s), eq(o[1][0][q_ * K + t], s))))
                    if len(al) <= 1 or al in ((0, 1), (2, 0), (1, 1)):
                        for a in range(3):
                            E.append(("x%d-derivative of element %d,%d component %s" % (a, i, j, al), eq(o[1][1][q_ * K + t, a], dS(v, e, al, a))))
            return E
        R.append(Contract("source_tensor[order %d,%dx%d]" % (order, n, k), [F + "source_tensor", F + "_source_tensor"], {"u": (n,), "v": (k,), "x": (3,)}, ufs=U0, concrete=CONC, sample=smp(n, k), n=3,
            requires=away, ensures=ens,
            run=lambda m, v, order=order: (m.surface_integral.source_tensor(v.x, v.r, v.u, v.v, method=rule(v), order=order, compute_jacfwd=False),
                                           m.surface_integral.source_tensor(v.x, v.r, v.u, v.v, method=rule(v), order=order))))
    for order in (4, 5):
        def ens(v, o, order=order):
            al = list(alphas(order))
            if np.shape(o) != (len(al),):
                return [("one entry per Taylor component", FALSE)]
            return [("component %s" % (a,), eq(o[t], S(v, (v.u[0], v.u[1], v.v[0], v.v[1]), a))) for t, a in enumerate(al)]
        R.append(Contract("source_tensor.values[order %d]" % order, [F + "source_tensor", F + "_source_tensor"], {"u": (2,), "v": (2,), "x": (3,)}, ufs=U0, concrete=CONC, sample=smp(2, 2), n=2,
            requires=away, ensures=ens, run=lambda m, v, order=order: m.surface_integral.source_tensor(v.x, v.r, v.u, v.v, method=rule(v), order=order, compute_jacfwd=False)))
    # defaults: order 2
    R.append(Contract("source_tensor.defaults", [F + "source_tensor", F + "charge_tensor"], {"u": (2,), "v": (2,), "x": (3,)}, ufs=dict(R3, f=(((3,),), ())), concrete=CONC, sample=smp(2, 2), n=3,
        run=lambda m, v: (m.surface_integral.source_tensor(v.x, v.r, v.u, v.v, method=m.integrate.gauss(1), compute_jacfwd=False), m.surface_integral.source_tensor(v.x, v.r, v.u, v.v, order=2, method=m.integrate.gauss(1), compute_jacfwd=False),
                          m.surface_integral.charge_tensor(v.f, v.r, v.u, v.v), m.surface_integral.charge_tensor(v.f, v.r, v.u, v.v, order=2)),
        requires=lambda v: [lt(0, norm2(v.x - mid(v, e))) for _, _, e in elements(v)],
        ensures=lambda v, o: [("second order by default", and_(eqs(o[0], o[1]), eqs(o[2], o[3])) if np.shape(o[0]) == (13,) == np.shape(o[2]) else FALSE)]))

    R.append(Contract("source_tensor.default rule", [F + "source_tensor"], {"u": (2,), "v": (2,), "x": (3,)}, ufs=R3, concrete=CONC, sample=smp(2, 2), n=2, defined=False,
        run=lambda m, v: (m.surface_integral.source_tensor(v.x, v.r, v.u, v.v, order=1, compute_jacfwd=False), m.surface_integral.source_tensor(v.x, v.r, v.u, v.v, method=m.integrate.gauss(5), order=1, compute_jacfwd=False)),
        ensures=lambda v, o: [("five point rule", eqs(o[0], o[1])) if np.shape(o[0]) == (4,) else ("shape", FALSE)]))
    # Taylor coefficients of the charge at the element centres
    for out in ((), (3,)):
        for order, n, k in ((0, 2, 2), (1, 3, 2), (2, 2, 3), (3, 2, 2), (2, 3, 3)) + (((5, 2, 2),) if not out else ((4, 2, 2),)):
            K = sum(3 ** i for i in range(order + 1))

            def ens(v, o, order=order, K=K, n=n, k=k, out=out):
                if np.shape(o) != ((n - 1) * (k - 1) * K,) + out:
                    return [("one entry per element and Taylor component", FALSE)]
                E = []
                for q_, (i, j, e) in enumerate(elements(v)):
                    c = mid(v, e)
                    for t, al in enumerate(alphas(order)):
                        row = o[q_ * K + t]
                        d = tuple((0, a) for a in sorted(al))
                        want = [v.f.term(c, v.s, v.t, out=ix, d=d) for ix in np.ndindex(*out)]
                        E.append(("element %d,%d derivative %s / %d!" % (i, j, al, len(al)), and_(*[eq(math.factorial(len(al)) * x, y) for x, y in zip(np.asarray(row, dtype=object).reshape(-1), want)])))
                return E
            R.append(Contract("charge_tensor[%s,order %d,%dx%d]" % ("vector" if out else "scalar", order, n, k), F + "charge_tensor", {"u": (n,), "v": (k,), "s": (), "t": ()}, ufs=dict(R3, f=(((3,), (), ()), out)), concrete=CONC, n=3,
                sample=lambda r, n=n, k=k: dict(mesh(r, n, k), s=r.normal(), t=r.normal()), ensures=ens,
                run=lambda m, v, order=order: m.surface_integral.charge_tensor(lambda y, s, t: v.f(y, s, t), v.r, v.u, v.v, v.s, order=order, t=v.t)))

    # charges with extra arguments
    def run_many(m, v):
        S, (a, k) = m.surface_integral, extra(v)
        return [(S.charge_tensor(open_(v, v.f), v.r, v.u, v.v, *a, order=1, **k), S.charge_tensor(shut(v, v.f), v.r, v.u, v.v, order=1))]
    R.append(Contract("charge_tensor.many arguments", F + "charge_tensor", dict(MANY, u=(2,), v=(2,)), ufs=dict(R3, **MANYF, f=(((3,), ()), (3,))), concrete={"r": surface}, n=2,
        sample=lambda r: dict(mesh(r, 2, 2), **{t: r.normal() for t in MANY}), run=run_many, ensures=lambda v, o: passes(v, o, ("charge_tensor",))))

    # potential and its curl over arbitrary tensors
    R.append(Contract("potential", F + "single_layer_potential", {"S": (3,), "dS": (3, 3), "q": (3,), "Q": (3, 3)}, n=4,
        run=lambda m, v: (m.surface_integral.single_layer_potential(v.S, v.q), m.surface_integral.single_layer_potential(v.S, v.Q), m.surface_integral.single_layer_potential(v.dS, v.q), m.surface_integral.single_layer_potential(v.dS, v.Q)),
        ensures=lambda v, o: [("scalar charge", eq(4 * PI * o[0], dot(v.q, v.S))), ("vector charge", and_(*[eq(4 * PI * o[1][a], dot(v.Q[:, a], v.S)) for a in range(3)])),
                              ("gradient", and_(*[eq(4 * PI * o[2][a], dot(v.q, v.dS[:, a])) for a in range(3)])),
                              ("jacobian", and_(*[eq(4 * PI * o[3][a, b], dot(v.Q[:, a], v.dS[:, b])) for a in range(3) for b in range(3)]))]))

    def jac(m, v):
        J = m.surface_integral.single_layer_potential(v.dS, v.Q)
        return J, m.surface_integral.curl_single_layer_potential(v.dS, v.Q)
    R.append(Contract("potential.curl", [F + "curl_single_layer_potential", F + "single_layer_potential"], {"dS": (4, 3), "Q": (4, 3)}, n=4, run=jac,
        ensures=lambda v, o: [("curl of the vector potential", eqs(o[1], A(o[0][2, 1] - o[0][1, 2], o[0][0, 2] - o[0][2, 0], o[0][1, 0] - o[0][0, 1])))]))

    # end to end: a polynomial charge of degree <= order enters exactly, with gradient and curl of the potential
    def poly(y, c0, c1, c2):
        return c0 + c1 @ y + y @ c2 @ y

    def slp(v, f):
        return sum([w * area(v, p) * f(v.r.arr(p)) / sqrt(norm2(v.x - v.r.arr(p))) for _, _, e in elements(v) for w, p in nodes(v, *e)], ZERO)

    def dslp(v, f, i):
        s = ZERO
        for _, _, e in elements(v):
            for w, p in nodes(v, *e):
                y = v.r.arr(p)
                n2 = norm2(v.x - y)
                s = s - w * area(v, p) * f(y) * (v.x[i] - y[i]) / (n2 * sqrt(n2))
        return s
    for order in (0, 1, 2, 3):
        for n, k in ((2, 2), (3, 2)):
            if order >= 2 and n > 2:
                continue

            def cut(v, order=order):
                c1 = v.c1 if order >= 1 else v.c1 * 0
                c2 = v.c2 if order >= 2 else v.c2 * 0
                return v.c0, c1, c2

            def run(m, v, order=order, cut=cut):
                c = cut(v)
                s, ds = m.surface_integral.source_tensor(v.x, v.r, v.u, v.v, method=rule(v), order=order)
                q_ = m.surface_integral.charge_tensor(lambda y: poly(y, *c), v.r, v.u, v.v, order=order)
                return m.surface_integral.single_layer_potential(s, q_), m.surface_integral.single_layer_potential(ds, q_)

            def ens(v, o, cut=cut):
                c0, c1, c2 = cut(v)
                f = lambda y: c0 + dot(c1, y) + dot(y, matvec(c2, y))
                return [("potential of a polynomial charge", eq(4 * PI * o[0], slp(v, f)))] + [("its derivative %d" % i, eq(4 * PI * o[1][i], dslp(v, f, i))) for i in range(3)]
            R.append(Contract("slp.exact[order %d,%dx%d]" % (order, n, k), [F + "source_tensor", F + "charge_tensor", F + "single_layer_potential"], {"u": (n,), "v": (k,), "x": (3,), "c0": (), "c1": (3,), "c2": (3, 3)}, ufs=U0, concrete=CONC,
                sample=smp(n, k, c0=(), c1=3, c2=(3, 3)), requires=away, run=run, ensures=ens, n=3))

    def run(m, v):
        f = lambda y: v.c0 + v.c1 @ y
        s, ds = m.surface_integral.source_tensor(v.x, v.r, v.u, v.v, method=rule(v), order=1)
        q_ = m.surface_integral.charge_tensor(f, v.r, v.u, v.v, order=1)
        return m.surface_integral.single_layer_potential(s, q_), m.surface_integral.curl_single_layer_potential(ds, q_)

    def ens(v, o):
        f = [lambda y, a=a: v.c0[a] + dot(v.c1[a], y) for a in range(3)]
        D = lambda a, i: dslp(v, f[a], i)
        return [("vector potential component %d" % a, eq(4 * PI * o[0][a], slp(v, f[a]))) for a in range(3)] + [
            ("curl component %d" % a, eq(4 * PI * o[1][a], D((a + 2) % 3, (a + 1) % 3) - D((a + 1) % 3, (a + 2) % 3))) for a in range(3)]
    R.append(Contract("slp.vector", [F + "source_tensor", F + "charge_tensor", F + "single_layer_potential", F + "curl_single_layer_potential"], {"u": (2,), "v": (2,), "x": (3,), "c0": (3,), "c1": (3, 3)}, ufs=U0, concrete=CONC,
        sample=smp(2, 2, c0=3, c1=(3, 3)), requires=away, run=run, ensures=ens, n=3))

    # charges on the boundary of a body given by its distance function
    UC = {"adf": (((3,),), ()), "mag": (((3,), ()), (3,)), "phi": (((3,), ()), ()), "B": (((3,), ()), (3,))}
    g = lambda v: v.adf.arr if False else A(*[v.adf.term(v.x, d=((0, i),)) for i in range(3)])

    def N(v):
        d = g(v)
        return A(*[-t / sqrt(norm2(d)) for t in d])
    reg = lambda v: [lt(0, norm2(g(v)))]
    X = {"x": (3,), "s": (), "t": ()}
    R.append(Contract("charge.scalar", F + "scalar_potential_charge", X, ufs=UC, requires=reg, n=4,
        run=lambda m, v: (m.surface_integral.scalar_potential_charge(v.adf, v.mag, v.phi)(v.x, (v.s,), (v.t,)), m.surface_integral.scalar_potential_charge(v.adf, v.mag, v.phi, normalized=True)(v.x, (v.s,), (v.t,)),
                          m.surface_integral.scalar_potential_charge(v.adf, lambda y: v.mag(y, 0.5), lambda y: v.phi(y, 0.25))(v.x)),
        ensures=lambda v, o: [("m.n - dphi/dn", eq(o[0], dot(v.mag.arr(v.x, v.s), N(v)) - dot(A(*[v.phi.term(v.x, v.t, d=((0, i),)) for i in range(3)]), N(v)))),
                              ("m.n + u", eq(o[1], dot(v.mag.arr(v.x, v.s), N(v)) + v.phi.term(v.x, v.t))),
                              ("without parameters", eq(o[2], dot(v.mag.arr(v.x, HALF), N(v)) - dot(A(*[v.phi.term(v.x, q("1/4"), d=((0, i),)) for i in range(3)]), N(v))))]))
    R.append(Contract("charge.vector", F + "vector_potential_charge", X, ufs=UC, requires=reg, n=4,
        run=lambda m, v: (m.surface_integral.vector_potential_charge(v.adf, v.mag, v.B)(v.x, (v.s,), (v.t,)), m.surface_integral.vector_potential_charge(v.adf, v.mag, v.B, normalized=True)(v.x, (v.s,), (v.t,)),
                          m.surface_integral.vector_potential_charge(v.adf, lambda y: v.mag(y, 0.5), lambda y: v.B(y, 0.25))(v.x)),
        ensures=lambda v, o: [("m x n - dA/dn", eqs(o[0], cross(v.mag.arr(v.x, v.s), N(v)) - A(*[dot(A(*[v.B.term(v.x, v.t, out=(a,), d=((0, i),)) for i in range(3)]), N(v)) for a in range(3)]))),
                              ("m x n + u", eqs(o[1], cross(v.mag.arr(v.x, v.s), N(v)) + v.B.arr(v.x, v.t))),
                              ("without parameters", eqs(o[2], cross(v.mag.arr(v.x, HALF), N(v)) - A(*[dot(A(*[v.B.term(v.x, q("1/4"), out=(a,), d=((0, i),)) for i in range(3)]), N(v)) for a in range(3)])))]))

    # the shortcut for phi1 = adf * u agrees with the general charge where adf = 0 and |grad adf| = 1
    def run(m, v):
        return (m.surface_integral.scalar_potential_charge(v.adf, v.mag, lambda y, t: v.adf(y) * v.phi(y, t))(v.x, (v.s,), (v.t,)), m.surface_integral.scalar_potential_charge(v.adf, v.mag, v.phi, normalized=True)(v.x, (v.s,), (v.t,)),
                m.surface_integral.vector_potential_charge(v.adf, v.mag, lambda y, t: v.adf(y) * v.B(y, t))(v.x, (v.s,), (v.t,)), m.surface_integral.vector_potential_charge(v.adf, v.mag, v.B, normalized=True)(v.x, (v.s,), (v.t,)))
    R.append(Contract("charge.normalized", [F + "scalar_potential_charge", F + "vector_potential_charge"], X, ufs=UC, n=6,
        requires=lambda v: [eq(v.adf.term(v.x), 0), eq(norm2(g(v)), 1)], run=run,
        concrete={"adf": lambda seed: (lambda y: 0.6 * y[0] + 0.8 * y[1])}, sample=lambda r: (lambda z, h: {"x": np.array([0.8 * h, -0.6 * h, z]), "s": r.normal(), "t": r.normal()})(r.normal(), r.normal()),
        ensures=lambda v, o: [("scalar", eq(o[0], o[1])), ("vector", eqs(o[2], o[3]))]))
    return R
