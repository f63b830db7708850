"""C21 B-spline basis, grids and the spline activation (magpi.spline)."""
import jax
import jax.numpy as jnp

from .lib import *

F = "magpi.spline."


def contracts(prop):
    return {"C21": c21}[prop]()


def bspline(x, t, k, i):
    """Cox-de Boor"""
    if k == 0:
        return ite(and_(le(t[i], x), lt(x, t[i + 1])), ONE, ZERO)
    a, b = t[i + k] - t[i], t[i + k + 1] - t[i + 1]
    s = ZERO
    if a is not ZERO:
        s = s + ite(eq(a, 0), ZERO, (x - t[i]) / a * bspline(x, t, k - 1, i))
    if b is not ZERO:
        s = s + ite(eq(b, 0), ZERO, (t[i + k + 1] - x) / b * bspline(x, t, k - 1, i + 1))
    return s


def incr(t):
    return [lt(a, b) for a, b in zip(t[:-1], t[1:]) if a is not b]


def knots(n):
    return lambda r: np.sort(r.uniform(-2, 2, n)) + 0.1 * np.arange(n)


def cell(t, x, j):
    return and_(le(t[j], x), lt(x, t[j + 1]))


def interior(t, k):
    """the cells on which the basis is complete"""
    return [j for j in range(k, len(t) - k - 1) if t[j] is not t[j + 1]]


def facts(v, o, t, k, x, tag="", nonneg=True):
    n = len(t) - k - 1
    if np.shape(o) != (n,):
        return [("one value per basis function" + tag, FALSE)]
    E = []
    cells = [j for j in range(len(t) - 1) if t[j] is not t[j + 1]]
    E.append(("vanishes outside the grid" + tag, implies(or_(lt(x, t[0]), le(t[-1], x)), and_(*[eq(b, 0) for b in o]))))
    for j in cells:
        c = cell(t, x, j)
        if nonneg:
            E.append(("nonnegative in cell %d" % j + tag, implies(c, and_(*[le(0, b) for b in o]))))
        out = [i for i in range(n) if not i <= j <= i + k]
        if out:
            E.append(("local support, cell %d" % j + tag, implies(c, and_(*[eq(o[i], 0) for i in out]))))
    for j in interior(t, k):
        c = cell(t, x, j)
        E.append(("partition of unity in cell %d" % j + tag, implies(c, eq(sum(list(o), ZERO), 1))))
        if k >= 1:
            g = [sum([t[i + r] for r in range(1, k + 1)], ZERO) * (ONE / k) for i in range(n)]
            E.append(("reproduces x in cell %d" % j + tag, implies(c, eq(dot(A(*g), o), x))))
    return E


def pattern(v, mult):
    """knot vector with multiplicities"""
    return np.array([v.t[i] for i, m in enumerate(mult) for _ in range(m)], dtype=object)


def c21():
    R = []
    for k in (0, 1, 2, 3):
        for n in (k + 2, 2 * k + 2, 2 * k + 3) if k else (2, 4):
            R.append(Contract("basis[degree %d,%d nodes]" % (k, n), [F + "basis", F + "_base_fun"], {"x": (), "t": (n,)}, requires=lambda v: incr(v.t),
                sample=lambda r, n=n: (lambda t: {"t": t, "x": r.uniform(t[0] - 0.2, t[-1] + 0.2) if r.rand() < 0.7 else t[r.randint(n)]})(knots(n)(r)), n=12,
                run=lambda m, v, k=k: m.spline.basis(v.x, v.t, k), ensures=lambda v, o, k=k: facts(v, o, v.t, k, v.x)))
    for k, mult in ((1, (2, 1, 2)), (2, (3, 1, 3)), (2, (1, 2, 1, 1)), (3, (4, 4)), (3, (4, 1, 4)), (1, (2, 2, 2)), (2, (3, 2, 3))):
        n = len(mult)

        def smp(r, n=n):
            t = knots(n)(r)
            return {"t": t, "x": r.uniform(t[0] - 0.2, t[-1] + 0.2) if r.rand() < 0.7 else t[r.randint(n)]}
        R.append(Contract("basis[degree %d,multiplicities %s]" % (k, mult), [F + "basis", F + "_base_fun"], {"x": (), "t": (n,)}, requires=lambda v: incr(v.t), sample=smp, n=12,
            run=lambda m, v, k=k, mult=mult: m.spline.basis(v.x, jnp.stack([v.t[i] for i, q_ in enumerate(mult) for _ in range(q_)]), k),
            ensures=lambda v, o, k=k, mult=mult: facts(v, o, pattern(v, mult), k, v.x)))

        # derivatives, also with respect to the nodes, in both modes
        def run(m, v, k=k, mult=mult):
            f = lambda x: m.spline.basis(x, jnp.stack([v.t[i] for i, q_ in enumerate(mult) for _ in range(q_)]), k)
            return jax.jacfwd(f)(v.x), jax.jacrev(f)(v.x)

        def ens(v, o, k=k, mult=mult):
            t = pattern(v, mult)
            E = [("forward and reverse mode agree", eqs(o[0], o[1]))]
            for j in interior(t, k):
                E.append(("derivatives sum to zero in cell %d" % j, implies(and_(lt(t[j], v.x), lt(v.x, t[j + 1])), eq(sum(list(o[0]), ZERO), 0))))
            if k:
                for i in range(len(t) - k - 1):
                    d = ZERO
                    a, b = t[i + k] - t[i], t[i + k + 1] - t[i + 1]
                    if a is not ZERO:
                        d = d + bspline(v.x, t, k - 1, i) / a
                    if b is not ZERO:
                        d = d - bspline(v.x, t, k - 1, i + 1) / b
                    for j in range(len(t) - 1):
                        if t[j] is not t[j + 1]:
                            E.append(("derivative of function %d, cell %d" % (i, j), implies(and_(lt(t[j], v.x), lt(v.x, t[j + 1])), eq(o[0][i], k * d))))
            return E
        R.append(Contract("basis.derivative[degree %d,multiplicities %s]" % (k, mult), [F + "basis", F + "_base_fun"], {"x": (), "t": (n,)}, requires=lambda v: incr(v.t), sample=smp, n=6,
            run=run, ensures=ens))
    # larger grids: symbolic nodes, and the default grid of the activation between symbolic end points
    for k, n, nonneg in ((4, 7, True), (5, 8, False), (2, 14, False), (3, 14, False), (3, 14, True)):
        R.append(Contract("basis[degree %d,%d nodes,large%s]" % (k, n, ",nonnegative" if nonneg else ""), [F + "basis", F + "_base_fun"], {"x": (), "t": (n,)}, requires=lambda v: incr(v.t),
            sample=lambda r, n=n: (lambda t: {"t": t, "x": r.uniform(t[0] - 0.2, t[-1] + 0.2) if r.rand() < 0.7 else t[r.randint(n)]})(knots(n)(r)), n=12,
            run=lambda m, v, k=k: m.spline.basis(v.x, v.t, k),
            ensures=lambda v, o, k=k, nonneg=nonneg: facts(v, o, v.t, k, v.x, nonneg=nonneg), tier="thorough" if nonneg and n > 7 else "quick", budget=600))
    # several inputs, one grid each
    R.append(Contract("basis.batched", [F + "basis"], {"x": (2, 2), "t": (2, 5)}, requires=lambda v: incr(v.t[0]) + incr(v.t[1]), n=6,
        sample=lambda r: {"x": r.uniform(-2, 2, (2, 2)), "t": np.array([knots(5)(r), knots(5)(r)])},
        run=lambda m, v: (m.spline.basis(v.x, v.t, 2), [m.spline.basis(v.x[i, j], v.t[j], 2) for i in range(2) for j in range(2)]),
        ensures=lambda v, o: [("each input with its own grid", and_(*[eqs(o[0][i, j], o[1][2 * i + j]) for i in range(2) for j in range(2)])) if np.shape(o[0]) == (2, 2, 2) else ("shape", FALSE)]))
    # grids
    for num in (2, 3, 4, 5, 6, 9, 14, 40, 101):
        for pw in (1.0, 2.0, 3.0, 0.5, 4.0, 8.0):
            if pw == 0.5 and num > 5 or num > 14 and pw not in (2.0, 8.0) or num == 101 and pw == 8.0:
                continue

            def ens(v, o, num=num, pw=pw):
                if np.shape(o) != (num,):
                    return [("number of nodes", FALSE)]
                E = [("starts at start", eq(o[0], v.a)), ("ends at stop", eq(o[-1], v.b)), ("increasing", and_(*[lt(p, q_) for p, q_ in zip(o[:-1], o[1:])])),
                     ("symmetric about the centre", and_(*[eq(o[i] + o[num - 1 - i], v.a + v.b) for i in range(num)]))]
                if pw != 0.5:
                    for i in range(num):
                        u = q("%d/%d" % (2 * i - (num - 1), num - 1))
                        w = u ** int(pw) if (2 * i >= num - 1 or int(pw) % 2) else -(u ** int(pw))
                        E.append(("node %d" % i, eq(2 * o[i], v.a + v.b + w * (v.b - v.a))))
                return E
            R.append(Contract("make_grid[%d nodes,power %s]" % (num, pw), F + "make_grid", {"a": (), "b": ()}, requires=lambda v: [lt(v.a, v.b)], n=4,
                sample=lambda r: (lambda a: {"a": a, "b": a + r.uniform(0.1, 4)})(r.uniform(-3, 3)),
                run=lambda m, v, num=num, pw=pw: m.spline.make_grid(v.a, v.b, pw, num), ensures=ens))

    # any positive power (no node in the centre: there 0**p is 0 for every p > 0, covered above)
    for num in (2, 4, 6, 10):
        W = lambda v, num=num: [t_.fn("powr", q("%d/%d" % (2 * i - num + 1, num - 1)), v.p) if i < num - 1 else ONE for i in range(num // 2, num)]

        def ens(v, o, num=num, W=W):
            if np.shape(o) != (num,):
                return [("number of nodes", FALSE)]
            w = W(v)
            w = [-t for t in w[::-1]] + w
            return [("starts at start", eq(o[0], v.a)), ("ends at stop", eq(o[-1], v.b)), ("increasing", and_(*[lt(a, b) for a, b in zip(o[:-1], o[1:])]))] + [
                ("node %d" % i, eq(2 * o[i], v.a + v.b + w[i] * (v.b - v.a))) for i in range(num)]
        R.append(Contract("make_grid[%d nodes,any power]" % num, F + "make_grid", {"a": (), "b": (), "p": ()}, n=4,
            # monotonicity of the power function
            requires=lambda v, W=W: [lt(v.a, v.b), lt(0, v.p)] + [lt(a, b) for a, b in zip([ZERO] + W(v)[:-1], W(v))],
            sample=lambda r: (lambda a: {"a": a, "b": a + r.uniform(0.1, 4), "p": r.uniform(0.2, 6)})(r.uniform(-3, 3)),
            points=[lambda r: {"a": -1.0, "b": 2.0, "p": 9.3}],
            run=lambda m, v, num=num: m.spline.make_grid(v.a, v.b, v.p, num), ensures=ens))

    # the activation module
    for deg, nodes in ((1, 4), (2, 5), (3, 6)):
        nc = nodes - deg - 1

        def run(m, v, deg=deg, nodes=nodes):
            act = m.spline.SplineActivation(nodes=nodes, node_min=-1.5, node_max=2.0, degree=deg, grid_power=3.0, activation=v.f_)
            y = act.apply({"params": {"coefs": v.c}}, v.x)
            g = m.spline.make_grid(-1.5, 2.0, 3.0, nodes)
            return y, m.spline.basis(v.x, g, deg)
        R.append(Contract("activation[degree %d,%d nodes]" % (deg, nodes), F + "SplineActivation", {"x": (2,), "c": (2, nc)}, ufs={"f": (((),), ())}, n=6,
            run=lambda m, v, run=run: (setattr(v, "f_", lambda x: jax.vmap(v.f)(x)), run(m, v))[1],
            ensures=lambda v, o: [("activation plus spline, input %d" % i, eq(o[0][i], v.f.term(v.x[i]) + dot(v.c[i], o[1][i]))) for i in range(2)] if np.shape(o[0]) == (2,) else [("shape", FALSE)]))

        def run(m, v, deg=deg, nodes=nodes):
            act = m.spline.SplineActivation(nodes=nodes, degree=deg, parameterize_grid=True, activation=lambda x: jax.vmap(v.f)(x))
            y = act.apply({"params": {"coefs": v.c}, "grids": {"grid": v.t}}, v.x)
            return y, m.spline.basis(v.x, v.t, deg)
        R.append(Contract("activation.grid[degree %d,%d nodes]" % (deg, nodes), F + "SplineActivation", {"x": (2,), "c": (2, nc), "t": (2, nodes)}, ufs={"f": (((),), ())}, n=6,
            requires=lambda v: incr(v.t[0]) + incr(v.t[1]), sample=lambda r, nodes=nodes, nc=nc: {"x": r.uniform(-2, 2, 2), "c": r.normal(0, 1, (2, nc)), "t": np.array([knots(nodes)(r), knots(nodes)(r)])},
            run=run, ensures=lambda v, o: [("activation plus spline on the stored grid, input %d" % i, eq(o[0][i], v.f.term(v.x[i]) + dot(v.c[i], o[1][i]))) for i in range(2)]))

    # a batch of inputs at once, documented defaults
    def run(m, v):
        act = m.spline.SplineActivation(nodes=5, node_min=-1.5, node_max=2.0, degree=1, grid_power=3.0, activation=jnp.tanh)
        P = {"params": {"coefs": v.c}}
        stored = m.spline.SplineActivation(nodes=5, degree=1, parameterize_grid=True, activation=jnp.tanh)
        Q = dict(P, grids={"grid": v.t})
        return (act.apply(P, v.x), [act.apply(P, r) for r in v.x]), (stored.apply(Q, v.x), [stored.apply(Q, r) for r in v.x])
    R.append(Contract("activation.batch", F + "SplineActivation", {"x": (3, 2), "c": (2, 3), "t": (2, 5)}, n=6, run=run,
        requires=lambda v: incr(v.t[0]) + incr(v.t[1]), sample=lambda r: {"x": r.uniform(-2, 2, (3, 2)), "c": r.normal(0, 1, (2, 3)), "t": np.array([knots(5)(r), knots(5)(r)])},
        ensures=lambda v, o: [("row %d as if alone (%s grid)" % (i, w), eqs(b[i], s[i])) for w, (b, s) in zip(("fixed", "stored"), o) for i in range(3)]
        if all(np.shape(b) == (3, 2) for b, _ in o) else [("shape", FALSE)]))

    def run(m, v):
        return m.spline.SplineActivation().apply({"params": {"coefs": v.c}}, v.x), jnp.tanh(v.x), m.spline.basis(v.x, m.spline.make_grid(-3.0, 3.0, 2.0, 14), 3)
    R.append(Contract("activation.defaults", F + "SplineActivation", {"x": (1,), "c": (1, 10)}, n=6, run=run,
        sample=lambda r: {"x": r.uniform(-3.5, 3.5, 1), "c": r.normal(0, 1, (1, 10))},
        ensures=lambda v, o: [("tanh plus the cubic spline on 14 nodes over [-3, 3] with power 2", eq(o[0][0], o[1][0] + dot(v.c[0], o[2][0])))]))

    # initialisation: zero coefficients, stored grid equals make_grid, default activation is tanh
    def run(m, v):
        act = m.spline.SplineActivation()
        p = act.init(jax.random.PRNGKey(0), jnp.zeros((2,)))
        act2 = m.spline.SplineActivation(nodes=7, node_min=-1.0, node_max=2.0, parameterize_grid=True)
        p2 = act2.init(jax.random.PRNGKey(0), jnp.zeros((2,)))
        return act.apply(p, v.x), jnp.tanh(v.x), p["params"]["coefs"], p2["grids"]["grid"], m.spline.make_grid(-1.0, 2.0, 2.0, 7), act.apply(act.init(jax.random.PRNGKey(0), jnp.zeros(())), v.x[0])
    R.append(Contract("activation.init", [F + "SplineActivation", F + "_grid_init"], {"x": (2,)}, n=4, run=run,
        ensures=lambda v, o: [("starts as the base activation", eqs(o[0], o[1])), ("one coefficient per basis function", TRUE if np.shape(o[2]) == (2, 10) else FALSE),
                              ("stored grid", and_(eqs(o[3][0], o[4]), eqs(o[3][1], o[4])) if np.shape(o[3]) == (2, 7) else FALSE), ("scalar input", eq(o[5][0], o[1][0]) if np.shape(o[5]) == (1,) else FALSE)]))
    return R
