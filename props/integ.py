"""C13 quadrature rules, C14 integration over products, disks, balls (magpi.integrate)."""
import contextlib
import math

import jax
import jax.numpy as jnp

from .lib import *

F = "magpi.integrate."


def contracts(prop):
    return {"C13": c13, "C14": c14}[prop]()


def moments(v_d, w, x, deg):
    """sum w = length, sum w x^k = integral of x^k over [d_0, d_n], k <= deg"""
    a, b = v_d[0], v_d[-1]
    w, x = list(w), list(x)
    out = []
    for k in range(deg + 1):
        s = ZERO
        for wi, xi in zip(w, x):
            s = s + wi * xi ** k if k else s + wi
        out.append(("integrates x^%d exactly" % k, eq((k + 1) * s, b ** (k + 1) - a ** (k + 1))))
    return out


def ordered(d):
    return [lt(p, q_) for p, q_ in zip(d[:-1], d[1:])]


def s_nodes(n):
    return lambda r: {"d": np.cumsum(r.uniform(0.2, 1, n)) - 1.5}


@contextlib.contextmanager
def leggauss_contract(m, n, xi, om):
    """numpy's leggauss replaced by its contract: nodes and weights with exact moments"""
    import numpy.polynomial.legendre as L

    def f(deg):
        if int(deg) != n:
            raise AssertionError("leggauss called with degree %s instead of %s" % (deg, n))
        return xi, om
    old = L.leggauss
    had = hasattr(m.integrate, "leggauss")
    L.leggauss = f
    if had:
        m.integrate.leggauss = f
    try:
        yield
    finally:
        L.leggauss = old
        if had:
            m.integrate.leggauss = old


def c13():
    R = []
    rules = {"midpoint": 1, "trap": 1, "simpson": 3}
    for nm, deg in rules.items():
        for n in (2, 3, 4, 5, 6, 11, 40):
            def run(m, v, nm=nm):
                w, x = getattr(m.integrate, nm)(v.d)
                return w, x

            def ens(v, o, deg=deg, n=n):
                w, x = o
                inc = and_(*ordered(v.d))
                return [("one weight per node", TRUE if len(w) == len(x) else FALSE)] + moments(v.d, w, x, deg) + [
                    ("weights are positive on increasing nodes", implies(inc, and_(*[lt(0, k) for k in w]))),
                    ("nodes stay inside", implies(inc, and_(*[and_(le(v.d[0], k), le(k, v.d[-1])) for k in x])))]
            R.append(Contract("rule.%s[%d]" % (nm, n), F + nm, {"d": (n,)}, run=run, ensures=ens, sample=s_nodes(n), n=4))
    # exact constants of low order
    for g in (1, 2, 3):
        for n in (2, 3):
            R.append(Contract("rule.gauss%d[%d]" % (g, n), F + "gauss", {"d": (n,)}, sample=s_nodes(n), n=4,
                run=lambda m, v, g=g: m.integrate.gauss(g)(v.d),
                ensures=lambda v, o, g=g, n=n: [("nodes", TRUE if len(o[0]) == len(o[1]) == g * (n - 1) else FALSE)] + moments(v.d, o[0], o[1], 2 * g - 1)
                + [("weights positive", implies(and_(*ordered(v.d)), and_(*[lt(0, k) for k in o[0]])))]))
    for g in (2, 3, 4, 5, 6, 7, 8, 10, 16, 24):
        xi, om = np.polynomial.legendre.leggauss(g)

        def req(v, g=g):
            out = [lt(0, w) for w in v.om] + [and_(lt(-1, x), lt(x, 1)) for x in v.xi]
            for k in range(2 * g):
                s = ZERO
                for w, x in zip(v.om, v.xi):
                    s = s + (w * x ** k if k else w)
                out.append(eq(s, 0 if k % 2 else T(2) / (k + 1)))
            return out

        def run(m, v, g=g):
            with leggauss_contract(m, g, v.xi, v.om):
                w, x = m.integrate.gauss(g)(v.d)
            return w, x

        def ens(v, o, g=g):
            if len(o[0]) != g or len(o[1]) != g:
                return [("one weight and node per point", FALSE)]
            inc = lt(v.d[0], v.d[1])
            return moments(v.d, o[0], o[1], 2 * g - 1) + [
                ("weights positive", implies(inc, and_(*[lt(0, k) for k in o[0]]))),
                ("nodes inside", implies(inc, and_(*[and_(lt(v.d[0], k), lt(k, v.d[1])) for k in o[1]])))]
        # any integrand: the rule is the affine image of the reference rule (exactness on the pulled back polynomial follows)
        def ens2(v, o, g=g):
            if len(o[0]) != g or len(o[1]) != g:
                return [("one weight and node per point", FALSE)]
            s, r = ZERO, ZERO
            for k in range(g):
                s = s + o[0][k] * v.f.term(o[1][k])
                r = r + (v.d[1] - v.d[0]) / 2 * v.om[k] * v.f.term((v.d[0] + v.d[1]) / 2 + (v.d[1] - v.d[0]) / 2 * v.xi[k])
            return [("affine image of the reference rule", eq(s, r))]
        R.append(Contract("rule.gauss%d.image" % g, F + "gauss", {"d": (2,), "xi": (g,), "om": (g,)}, ufs={"f": (((),), ())}, run=run, ensures=ens2,
            sample=lambda r, xi=xi, om=om: dict(s_nodes(2)(r), xi=xi, om=om), n=3))
        if g < 8:
          R.append(Contract("rule.gauss%d.abstract" % g, F + "gauss", {"d": (2,), "xi": (g,), "om": (g,)}, requires=req, run=run, ensures=ens,
            sample=lambda r, xi=xi, om=om: dict(s_nodes(2)(r), xi=xi, om=om), n=3, tol=1e-9,
            assumes=["numpy.polynomial.legendre.leggauss(n) returns positive weights and nodes in (-1,1) with exact moments up to 2n-1"]))
        # panels: composite rule is the concatenation of the single panel rule
        R.append(Contract("rule.gauss%d.panels" % g, F + "gauss", {"d": (3,)}, sample=s_nodes(3), n=3,
            run=lambda m, v, g=g: (m.integrate.gauss(g)(v.d), m.integrate.gauss(g)(v.d[:2]), m.integrate.gauss(g)(v.d[1:])),
            ensures=lambda v, o, g=g: [("panel by panel", and_(*[and_(eqs(o[0][i][:g], o[1][i]), eqs(o[0][i][g:], o[2][i])) if len(o[0][i]) == 2 * g else FALSE for i in range(2)]))]))
        for n in (9,):
            R.append(Contract("rule.gauss%d.panels[%d]" % (g, n), F + "gauss", {"d": (n,)}, sample=s_nodes(n), n=2,
                run=lambda m, v, g=g, n=n: (m.integrate.gauss(g)(v.d), [m.integrate.gauss(g)(v.d[i:i + 2]) for i in range(n - 1)]),
                ensures=lambda v, o, g=g, n=n: [("panel %d" % p, and_(*[eqs(o[0][i][g * p:g * (p + 1)], o[1][p][i]) if len(o[0][i]) == (n - 1) * g else FALSE for i in range(2)])) for p in range(n - 1)]))
    # meshes of whole numbers denote the same mesh
    for mesh in ((0, 1, 3), (-2, 3), (-3, -1, 4, 5, 8)):
        for nm, rule in [(k, lambda m, k=k: getattr(m.integrate, k)) for k in rules] + [("gauss3", lambda m: m.integrate.gauss(3))]:
            def run(m, v, mesh=mesh, rule=rule):
                r = [rule(m)(jnp.array(mesh)), rule(m)(jnp.array(mesh, dtype=float))]
                return [jnp.sum(w * jax.vmap(lambda x: v.f(x * 1.0))(x)) for w, x in r]
            R.append(Contract("rule.%s.integer mesh[%d..%d]" % (nm, mesh[0], mesh[-1]), F + nm.rstrip("3"), {"z": ()}, ufs={"f": (((),), ())}, run=run, n=2,
                ensures=lambda v, o: [("same sum for every integrand", eq(o[0], o[1]))]))
    for nm in rules:
        n = 4
        R.append(Contract("rule.%s.affine" % nm, F + nm, {"d": (n,), "s": (), "c": ()}, n=4,
            sample=lambda r, n=n: dict(s_nodes(n)(r), s=r.uniform(.5, 2), c=r.normal()),
            run=lambda m, v, nm=nm: (getattr(m.integrate, nm)(v.d), getattr(m.integrate, nm)(v.s * v.d + v.c)),
            ensures=lambda v, o: [("weights scale", eqs(o[1][0], v.s * o[0][0])), ("nodes follow", eqs(o[1][1], v.s * o[0][1] + v.c))]))
    return R


def tensor(ws, xs, f):
    import itertools
    s = ZERO
    for idx in itertools.product(*[range(len(w)) for w in ws]):
        wt = ONE
        for w, i in zip(ws, idx):
            wt = wt * w[i]
        s = s + wt * f(*[x[i] for x, i in zip(xs, idx)])
    return s


def pairrule(d):
    """a quadrature rule given explicitly: row 0 the weights, row 1 the nodes"""
    return d[0], d[1]


def c14():
    R = []
    R.append(Contract("integrate[1d]", F + "integrate", {"d": (2, 3)}, ufs={"f": (((),), ())}, n=4,
        run=lambda m, v: (m.integrate.integrate(v.f, [v.d], method=pairrule), m.integrate.integrate(v.f, (v.d,), method=pairrule)),
        ensures=lambda v, o: [("weighted sum of the values", eq(o[0], tensor([v.d[0]], [v.d[1]], lambda x: v.f.term(x)))),
                              ("tuple domains", eq(o[1], o[0]))]))
    R.append(Contract("integrate[1d,array]", F + "integrate", {"d": (4,)}, ufs={"f": (((),), ()), "wq": (((4,),), (3,)), "xq": (((4,),), (3,))}, n=4,
        run=lambda m, v: m.integrate.integrate(v.f, v.d, method=lambda d: (v.wq(d), v.xq(d))),
        ensures=lambda v, o: [("weighted sum of the values", eq(o, tensor([v.wq.arr(v.d)], [v.xq.arr(v.d)], lambda x: v.f.term(x))))]))
    R.append(Contract("integrate[2d]", F + "integrate", {"d": (2, 2), "e": (2, 3)}, ufs={"f": (((2,),), ())}, n=4,
        run=lambda m, v: m.integrate.integrate(v.f, [v.d, v.e], method=pairrule),
        ensures=lambda v, o: [("tensor product sum", eq(o, tensor([v.d[0], v.e[0]], [v.d[1], v.e[1]], lambda x, y: v.f.term(A(x, y)))))]))
    R.append(Contract("integrate[3d]", F + "integrate", {"d": (2, 2), "e": (2, 3), "h": (2, 2)}, ufs={"f": (((3,),), ())}, n=4,
        run=lambda m, v: m.integrate.integrate(v.f, [v.d, v.e, v.h], method=pairrule),
        ensures=lambda v, o: [("tensor product sum", eq(o, tensor([v.d[0], v.e[0], v.h[0]], [v.d[1], v.e[1], v.h[1]], lambda x, y, z: v.f.term(A(x, y, z)))))]))
    R.append(Contract("integrate[2d,vector]", F + "integrate", {"d": (2, 2), "e": (2, 3)}, ufs={"f": (((2,),), (2,))}, n=4,
        run=lambda m, v: m.integrate.integrate(v.f, [v.d, v.e], method=pairrule),
        ensures=lambda v, o: [("component %d" % k, eq(o[k], tensor([v.d[0], v.e[0]], [v.d[1], v.e[1]], lambda x, y: v.f.term(A(x, y), out=(k,))))) for k in range(2)]
        if np.shape(o) == (2,) else [("shape", FALSE)]))
    R.append(Contract("integrate[1d,vector]", F + "integrate", {"d": (2, 3)}, ufs={"f": (((),), (2,))}, n=4,
        run=lambda m, v: m.integrate.integrate(v.f, [v.d], method=pairrule),
        ensures=lambda v, o: [("component %d" % k, eq(o[k], tensor([v.d[0]], [v.d[1]], lambda x: v.f.term(x, out=(k,))))) for k in range(2)]
        if np.shape(o) == (2,) else [("shape", FALSE)]))
    # larger meshes, up to four dimensions, pytree valued integrands
    for nn in ((24,), (7, 5), (4, 3, 5), (2, 3, 2, 3)):
        X = {"d%d" % i: (2, n) for i, n in enumerate(nn)}
        k = len(nn)
        R.append(Contract("integrate[mesh %s]" % (nn,), F + "integrate", X, ufs={"f": (((k,) if k > 1 else (),), ())}, n=3,
            run=lambda m, v, k=k: m.integrate.integrate(v.f, [getattr(v, "d%d" % i) for i in range(k)], method=pairrule),
            ensures=lambda v, o, k=k: [("tensor product sum", eq(o, tensor([getattr(v, "d%d" % i)[0] for i in range(k)], [getattr(v, "d%d" % i)[1] for i in range(k)],
                                                                      lambda *x: v.f.term(A(*x) if len(x) > 1 else x[0]))))]))
    R.append(Contract("integrate.pytree", F + "integrate", {"d": (2, 3), "e": (2, 2)}, ufs={"f": (((),), ()), "g": (((),), (2,)), "h": (((2,),), ()), "l": (((2,),), (2, 2))}, n=3,
        run=lambda m, v: (lambda a, b: (a["f"], a["g"], b[0], b[1]))(m.integrate.integrate(lambda x: {"f": v.f(x), "g": v.g(x)}, [v.d], method=pairrule),
                                                                     m.integrate.integrate(lambda x: (v.h(x), v.l(x)), [v.d, v.e], method=pairrule)),
        ensures=lambda v, o: [("scalar leaf", eq(o[0], tensor([v.d[0]], [v.d[1]], lambda x: v.f.term(x)))), ("vector leaf", and_(*[eq(o[1][k], tensor([v.d[0]], [v.d[1]], lambda x: v.g.term(x, out=(k,)))) for k in range(2)])),
                              ("scalar leaf, 2d", eq(o[2], tensor([v.d[0], v.e[0]], [v.d[1], v.e[1]], lambda x, y: v.h.term(A(x, y))))),
                              ("matrix leaf, 2d", and_(*[eq(o[3][k, j], tensor([v.d[0], v.e[0]], [v.d[1], v.e[1]], lambda x, y: v.l.term(A(x, y), out=(k, j)))) for k in range(2) for j in range(2)]))]))
    R.append(Contract("integrate.args", F + "integrate", {"d": (2, 2), "a": (), "b": ()}, ufs={"f": (((), (), ()), ()), "g": (((2,), (), ()), ())}, n=4,
        run=lambda m, v: (m.integrate.integrate(lambda x, a, b: v.f(x, a, b), [v.d], v.a, method=pairrule, b=v.b),
                          m.integrate.integrate(lambda x, a, b: v.g(x, a, b), [v.d, v.d], v.a, method=pairrule, b=v.b)),
        ensures=lambda v, o: [("arguments are passed through", eq(o[0], tensor([v.d[0]], [v.d[1]], lambda x: v.f.term(x, v.a, v.b)))),
                              ("arguments are passed through (2d)", eq(o[1], tensor([v.d[0]] * 2, [v.d[1]] * 2, lambda x, y: v.g.term(A(x, y), v.a, v.b))))]))
    def run_many(m, v):
        I, (a, k), M = m.integrate, extra(v), m.integrate.midpoint
        f1, f2, f3 = [v.f, v.g, v.h]
        k = dict(k, method=M)
        return [(I.integrate(open_(v, f1), v.d, *a, **k), I.integrate(shut(v, f1), v.d, method=M)),
                (I.integrate(open_(v, f2), [v.d, v.d], *a, **k), I.integrate(shut(v, f2), [v.d, v.d], method=M)),
                (I.integrate_disk(open_(v, f2), v.k1, v.o[:2], 2, v.a1, v.a2, v.a3, *a, **k), I.integrate_disk(shut(v, f2), v.k1, v.o[:2], 2, v.a1, v.a2, v.a3, method=M)),
                (I.integrate_sphere(open_(v, f3), v.k1, v.o, 2, v.a1, v.a2, v.a3, v.a4, v.k2, *a, **k), I.integrate_sphere(shut(v, f3), v.k1, v.o, 2, v.a1, v.a2, v.a3, v.a4, v.k2, method=M))]
    R.append(Contract("integrate.many arguments", [F + "integrate", F + "integrate_disk", F + "integrate_sphere"], dict(MANY, d=(2,), o=(3,)),
        ufs=dict(MANYF, f=(((), ()), (2,)), g=(((2,), ()), ()), h=(((3,), ()), ())), n=2, scale=0.7, run=run_many,
        ensures=lambda v, o: passes(v, o, ("integrate", "integrate, 2d", "integrate_disk", "integrate_sphere"))))
    R.append(Contract("integrate.linear", F + "integrate", {"d": (2, 2), "a": (), "b": ()}, ufs={"f": (((2,),), ()), "g": (((2,),), ())}, n=4,
        run=lambda m, v: (m.integrate.integrate(lambda x: v.a * v.f(x) + v.b * v.g(x), [v.d, v.d], method=pairrule),
                          m.integrate.integrate(v.f, [v.d, v.d], method=pairrule), m.integrate.integrate(v.g, [v.d, v.d], method=pairrule)),
        ensures=lambda v, o: [("linear in the integrand", eq(o[0], v.a * o[1] + v.b * o[2]))]))
    # default rule, array domains, exactness end to end
    for n in (2, 3):
        R.append(Contract("integrate.cubic[%d]" % n, [F + "integrate", F + "simpson"], {"d": (n,), "c": (4,)}, n=4,
            sample=lambda r, n=n: dict(s_nodes(n)(r), c=r.normal(0, 1, 4)),
            run=lambda m, v: m.integrate.integrate(lambda x: v.c[0] + v.c[1] * x + v.c[2] * x ** 2 + v.c[3] * x ** 3, v.d),
            ensures=lambda v, o: [("cubics are integrated exactly", eq(12 * o, sum([v.c[k] * (v.d[-1] ** (k + 1) - v.d[0] ** (k + 1)) * (12 // (k + 1)) for k in range(4)], ZERO)))]))
    R.append(Contract("integrate.rect[2d]", [F + "integrate", F + "gauss"], {"d": (2, 2), "c": (4,)}, n=4,
        run=lambda m, v: m.integrate.integrate(lambda x: v.c[0] + v.c[1] * x[0] + v.c[2] * x[1] + v.c[3] * x[0] ** 2 * x[1] ** 3, v.d, method=m.integrate.gauss(2)),
        ensures=lambda v, o: [("polynomial over a rectangle given as an array",
            eq(o, (lambda a, b, c, d: v.c[0] * (b - a) * (d - c) + v.c[1] * (b ** 2 - a ** 2) / 2 * (d - c) + v.c[2] * (b - a) * (d ** 2 - c ** 2) / 2
                   + v.c[3] * (b ** 3 - a ** 3) / 3 * (d ** 4 - c ** 4) / 4)(v.d[0][0], v.d[0][1], v.d[1][0], v.d[1][1])))]))

    # disk / ball: explicit change of variables with the midpoint rule
    def mid(a, b, n):
        h = (b - a) / (n - 1)
        return [h] * (n - 1), [a + h * (2 * i + 1) / 2 for i in range(n - 1)]

    def disk_spec(v, r0, p1, p2, n, f):
        (wr, xr), (wp, xp) = mid(r0, v.r, n[0]), mid(p1, p2, n[1])
        return tensor([wr, wp], [xr, xp], lambda r, p: r * f(A(v.o[0] + r * cos(p), v.o[1] + r * sin(p))))
    for n in ((2, 2), (2, 3), (3, 2), (6, 9)):
        R.append(Contract("disk[%s]" % (n,), F + "integrate_disk", {"r": (), "o": (2,), "ri": (), "p1": (), "p2": ()}, ufs={"f": (((2,),), ())}, n=3,
            run=lambda m, v, n=n: m.integrate.integrate_disk(v.f, v.r, v.o, n, v.ri, v.p1, v.p2, method=m.integrate.midpoint),
            ensures=lambda v, o, n=n: [("sum of w f(o + r e(phi)) r", eq(o, disk_spec(v, v.ri, v.p1, v.p2, n, lambda p: v.f.term(p))))]))
    R.append(Contract("disk.area", F + "integrate_disk", {"r": (), "o": (2,), "c": ()}, n=4,
        run=lambda m, v: (m.integrate.integrate_disk(lambda x: v.c, v.r, v.o, 3), m.integrate.integrate_disk(lambda x: v.c, v.r, v.o, 3, method=m.integrate.trap),
                          m.integrate.integrate_disk(lambda x, *, k: v.c * k, v.r, v.o, 2, k=2.0)),
        ensures=lambda v, o: [("constant times area", and_(*[eq(x, v.c * PI * v.r ** 2) for x in o[:2]])), ("keyword arguments", eq(o[2], 2 * v.c * PI * v.r ** 2))]))
    R.append(Contract("disk.pytree", [F + "integrate_disk", F + "integrate_sphere"], {"r": (), "o": (3,)}, ufs={"f": (((2,),), ()), "g": (((2,),), (2,)), "h": (((3,),), ()), "l": (((3,),), (2,))}, n=3,
        run=lambda m, v: (lambda a, b: (a["f"], a["g"], b[0], b[1]))(m.integrate.integrate_disk(lambda x: {"f": v.f(x), "g": v.g(x)}, v.r, v.o[:2], 2, 0.0, 0.0, 2.0, method=m.integrate.midpoint),
                                                                     m.integrate.integrate_sphere(lambda x: (v.h(x), v.l(x)), v.r, v.o, 2, 0.0, 0.0, 2.0, 0.0, 1.0, method=m.integrate.midpoint)),
        ensures=lambda v, o: (lambda D, B: [("scalar leaf", eq(o[0], D(lambda p: v.f.term(p)))), ("vector leaf", and_(*[eq(o[1][k], D(lambda p: v.g.term(p, out=(k,)))) for k in range(2)])),
                              ("scalar leaf, ball", eq(o[2], B(lambda p: v.h.term(p)))), ("vector leaf, ball", and_(*[eq(o[3][k], B(lambda p: v.l.term(p, out=(k,)))) for k in range(2)]))])(
            lambda f: disk_spec(v, ZERO, ZERO, T(2), (2, 2), f), lambda f: ball_spec(v, ZERO, ZERO, T(2), ZERO, T(1), (2, 2, 2), f))))
    R.append(Contract("disk.sector", F + "integrate_disk", {"r": (), "o": (2,), "ri": (), "p1": (), "p2": ()}, n=4,
        run=lambda m, v: (m.integrate.integrate_disk(lambda x: 1.0, v.r, v.o, (3, 2), r_inner=v.ri, phi1=v.p1, phi2=v.p2),
                          m.integrate.integrate_disk(lambda x: jnp.sum((x - v.o) ** 2), v.r, v.o, (2, 2), v.ri, v.p1, v.p2)),
        ensures=lambda v, o: [("area of the annular sector", eq(2 * o[0], (v.p2 - v.p1) * (v.r ** 2 - v.ri ** 2))),
                              ("second moment", eq(4 * o[1], (v.p2 - v.p1) * (v.r ** 4 - v.ri ** 4)))]))
    R.append(Contract("disk.args", F + "integrate_disk", {"r": (), "o": (2,), "a": (), "b": ()}, ufs={"f": (((2,), (), ()), (2,))}, n=3,
        run=lambda m, v: m.integrate.integrate_disk(lambda x, a, b: v.f(x, a, b), v.r, v.o, 2, 0.0, 0.0, 2.0, v.a, method=m.integrate.midpoint, b=v.b),
        ensures=lambda v, o: [("component %d" % k, eq(o[k], disk_spec(v, ZERO, ZERO, T(2), (2, 2), lambda p: v.f.term(p, v.a, v.b, out=(k,))))) for k in range(2)]
        if np.shape(o) == (2,) else [("shape", FALSE)]))

    def ball_spec(v, r0, p1, p2, t1, t2, n, f):
        (wr, xr), (wp, xp), (wt, xt) = mid(r0, v.r, n[0]), mid(p1, p2, n[1]), mid(t1, t2, n[2])
        return tensor([wr, wp, wt], [xr, xp, xt], lambda r, p, t: r ** 2 * sin(p) * f(
            A(v.o[0] + r * sin(p) * cos(t), v.o[1] + r * sin(p) * sin(t), v.o[2] + r * cos(p))))
    for n in ((2, 2, 2), (3, 2, 2), (2, 3, 2), (2, 2, 3), (4, 5, 4)):
        R.append(Contract("ball[%s]" % (n,), F + "integrate_sphere", {"r": (), "o": (3,), "ri": (), "p1": (), "p2": (), "t1": (), "t2": ()},
            ufs={"f": (((3,),), ())}, n=3,
            run=lambda m, v, n=n: m.integrate.integrate_sphere(v.f, v.r, v.o, n, v.ri, v.p1, v.p2, v.t1, v.t2, method=m.integrate.midpoint),
            ensures=lambda v, o, n=n: [("sum of w f(p) r^2 sin(phi)", eq(o, ball_spec(v, v.ri, v.p1, v.p2, v.t1, v.t2, n, lambda p: v.f.term(p))))]))
    R.append(Contract("ball.defaults", F + "integrate_sphere", {"r": (), "o": (3,), "a": ()}, ufs={"f": (((3,), ()), ())}, n=3,
        run=lambda m, v: (m.integrate.integrate_sphere(lambda x, k: v.f(x, k), v.r, v.o, 2, method=m.integrate.midpoint, k=v.a),
                          m.integrate.integrate_sphere(lambda x: 1.0, v.r, v.o, 3, 0, 0.0, pi_half)),
        ensures=lambda v, o: [("full ball by default", eq(o[0], ball_spec(v, ZERO, ZERO, PI, ZERO, 2 * PI, (2, 2, 2), lambda p: v.f.term(p, v.a))))]))
    R[-1].run = lambda m, v: (m.integrate.integrate_sphere(lambda x, k: v.f(x, k), v.r, v.o, 2, method=m.integrate.midpoint, k=v.a),)
    R.append(Contract("ball.args", F + "integrate_sphere", {"r": (), "o": (3,), "a": ()}, ufs={"f": (((3,), ()), (2,))}, n=3,
        run=lambda m, v: m.integrate.integrate_sphere(lambda x, k: v.f(x, k), v.r, v.o, (2, 2, 2), 0.0, 0.0, 2.0, 0.0, 1.0, v.a, method=m.integrate.midpoint),
        ensures=lambda v, o: [("component %d" % k, eq(o[k], ball_spec(v, ZERO, ZERO, T(2), ZERO, T(1), (2, 2, 2), lambda p: v.f.term(p, v.a, out=(k,))))) for k in range(2)]
        if np.shape(o) == (2,) else [("shape", FALSE)]))
    return R
