"""C08 Dirichlet / initial conditions, C09 Neumann conditions (magpi.model)."""
import jax
import jax.numpy as jnp

from .lib import *

F = "magpi.model."


def contracts(prop):
    return {"C08": c08, "C09": c09, "C22": c22}[prop]()


def c08():
    R = []
    for d in (1, 2, 3):
        for form in ("direct", "decorator"):
            for out in ((), (2,)):
                def run(m, v, form=form):
                    if form == "direct":
                        u = m.model.impose_dirichlet_bc(v.adf, v.f, v.g)
                    else:
                        u = m.model.impose_dirichlet_bc(v.adf, g=v.g)(v.f)
                    return u(v.x)

                def ens(v, o, out=out):
                    l, f, g = v.adf.term(v.x), v.f.arr(v.x), v.g.arr(v.x)
                    return [("equals g where the ADF vanishes", implies(eq(l, 0), eqs(o, g))),
                            ("l * model + g", eqs(o, l * f + g))]
                R.append(Contract("dirichlet[%dd,%s,out=%s]" % (d, form, out), F + "impose_dirichlet_bc", {"x": (d,)},
                    ufs={"adf": (((d,),), ()), "f": (((d,),), out), "g": (((d,),), out)}, run=run, ensures=ens, n=4))
    R.append(Contract("dirichlet.homogeneous", F + "impose_dirichlet_bc", {"x": (2,)},
        ufs={"adf": (((2,),), ()), "f": (((2,),), (3,))}, n=4,
        run=lambda m, v: (m.model.impose_dirichlet_bc(v.adf, v.f)(v.x), m.model.impose_dirichlet_bc(v.adf)(v.f)(v.x)),
        ensures=lambda v, o: [("zero where the ADF vanishes", implies(eq(v.adf.term(v.x), 0), and_(eqs(o[0], A(0, 0, 0)), eqs(o[1], A(0, 0, 0))))),
                              ("l * model", and_(eqs(o[0], v.adf.term(v.x) * v.f.arr(v.x)), eqs(o[1], v.adf.term(v.x) * v.f.arr(v.x))))]))
    # scalar points, higher dimensions, matrix valued models, and arguments counted from the end
    for sh, out in (((), ()), ((4,), ()), ((6,), (3,)), ((2,), (2, 2))):
        R.append(Contract("dirichlet.shapes[%s->%s]" % (sh, out), F + "impose_dirichlet_bc", {"x": sh, "w": ()}, ufs={"adf": ((sh,), ()), "f": (((), sh), out), "g": ((sh,), out)}, n=3,
            run=lambda m, v: (m.model.impose_dirichlet_bc(v.adf, lambda w, x: v.f(w, x), v.g, -1, -1)(v.w, v.x), m.model.impose_dirichlet_bc(v.adf, lambda w, x: v.f(w, x), argnums_adf=[1])(v.w, v.x)),
            ensures=lambda v, o, out=out: [("l * model + g", and_(*[eq(np.asarray(o[0], dtype=object)[i], v.adf.term(v.x) * v.f.term(v.w, v.x, out=i) + v.g.term(v.x, out=i)) for i in np.ndindex(*out)]) if np.shape(o[0]) == out else FALSE),
                                           ("l * model", and_(*[eq(np.asarray(o[1], dtype=object)[i], v.adf.term(v.x) * v.f.term(v.w, v.x, out=i)) for i in np.ndindex(*out)]) if np.shape(o[1]) == out else FALSE)]))
    # argument routing: (params, x, t) with adf on x (and t), g on (t, x), and keyword arguments
    def run(m, v):
        def model(w, x, t, *, k):
            return v.f(w, x, t) * k
        a = m.model.impose_dirichlet_bc(v.adf, model, v.g, argnums_adf=1, argnums_g=(2, 1))(v.w, v.x, v.t, k=v.k)
        b = m.model.impose_dirichlet_bc(v.adf2, model, v.g2, argnums_adf=(2, 1), argnums_g=2)(v.w, v.x, v.t, k=v.k)
        c = m.model.impose_dirichlet_bc(v.adf2, None, v.g2, (2, 1), 2)(model)(v.w, v.x, v.t, k=v.k)
        return a, b, c
    R.append(Contract("dirichlet.argnums", F + "impose_dirichlet_bc", {"w": (3,), "x": (2,), "t": (), "k": ()},
        ufs={"adf": (((2,),), ()), "adf2": (((), (2,)), ()), "f": (((3,), (2,), ()), ()), "g": (((), (2,)), ()), "g2": (((),), ())},
        run=run, n=4,
        ensures=lambda v, o: [
            ("adf(x), g(t,x)", eq(o[0], v.adf.term(v.x) * v.f.term(v.w, v.x, v.t) * v.k + v.g.term(v.t, v.x))),
            ("adf(t,x), g(t)", eq(o[1], v.adf2.term(v.t, v.x) * v.f.term(v.w, v.x, v.t) * v.k + v.g2.term(v.t))),
            ("decorator form", eq(o[2], v.adf2.term(v.t, v.x) * v.f.term(v.w, v.x, v.t) * v.k + v.g2.term(v.t))),
            ("boundary", implies(eq(v.adf.term(v.x), 0), eq(o[0], v.g.term(v.t, v.x))))]))
    # many positional arguments, of which any selection goes to the ADF and to g
    X6 = {"a": (2,), "b": (), "c": (2,), "d": (), "e": (), "g": (2,)}

    def run6(m, v):
        a = (v.a, v.b, v.c, v.d, v.e, v.g)
        F6 = lambda *z: v.f(*z)
        u = m.model.impose_dirichlet_bc(v.adf, F6, v.bc, argnums_adf=(5, 3, 0, 4), argnums_g=[4, 2, 1, 0, 5, 3])
        w = m.model.impose_dirichlet_bc(v.adf, None, v.bc, (-1, -3, -6, -2), (-2, -4, -5, -6, -1, -3))(F6)
        return u(*a), w(*a)
    R.append(Contract("dirichlet.many arguments", F + "impose_dirichlet_bc", X6,
        ufs={"adf": (((2,), (), (2,), ()), ()), "f": (((2,), (), (2,), (), (), (2,)), ()), "bc": (((), (2,), (), (2,), (2,), ()), ())}, n=3, run=run6,
        ensures=lambda v, o: (lambda w: [("l * model + g", eq(o[0], w)), ("decorator, arguments counted from the end", eq(o[1], w)), ("boundary", implies(eq(v.adf.term(v.g, v.d, v.a, v.e), 0), eq(o[0], v.bc.term(v.e, v.c, v.b, v.a, v.g, v.d))))])(
            v.adf.term(v.g, v.d, v.a, v.e) * v.f.term(v.a, v.b, v.c, v.d, v.e, v.g) + v.bc.term(v.e, v.c, v.b, v.a, v.g, v.d))))
    # repeated use of one imposed model (no state carried between calls)
    R.append(Contract("dirichlet.repeat", F + "impose_dirichlet_bc", {"x": (2,), "y": (2,)},
        ufs={"adf": (((2,),), ()), "f": (((2,),), ()), "g": (((2,),), ())}, n=4,
        run=lambda m, v: (lambda u: (u(v.x), u(v.y), u(v.x)))(m.model.impose_dirichlet_bc(v.adf, v.f, v.g)),
        ensures=lambda v, o: [("every call imposes the condition", and_(*[eq(oo, v.adf.term(p) * v.f.term(p) + v.g.term(p))
                                                                           for oo, p in zip(o, (v.x, v.y, v.x))]))]))

    def ic(v, o, m0, f, t, t0, k):
        dec = exp(-k * (t - t0))
        return [("equals m0 at the initial time", implies(eq(t, t0), eqs(o, m0))),
                ("exponential blend", eqs(o, m0 * dec + (1 - dec) * f))]
    for out in ((), (3,)):
        for form in ("direct", "decorator"):
            R.append(Contract("ic[out=%s,%s]" % (out, form), F + "impose_ic", {"x": (2,), "t": (), "t0": (), "k": ()},
                ufs={"m0": (((2,),), out), "f": (((2,), ()), out)}, n=4, scale=0.7,
                run=lambda m, v, form=form: (m.model.impose_ic(v.m0, v.f, t0=v.t0, decay_rate=v.k) if form == "direct" else
                                  m.model.impose_ic(v.m0, t0=v.t0, decay_rate=v.k)(v.f))(v.x, v.t),
                ensures=lambda v, o: ic(v, o, v.m0.arr(v.x), v.f.arr(v.x, v.t), v.t, v.t0, v.k)))
    R.append(Contract("ic.defaults", F + "impose_ic", {"x": (2,), "t": ()}, ufs={"m0": (((2,),), ()), "f": (((2,), ()), ())},
        run=lambda m, v: m.model.impose_ic(v.m0, v.f)(v.x, v.t), n=4, scale=0.2,
        ensures=lambda v, o: [("equals m0 at t = 0", implies(eq(v.t, 0), eqs(o, v.m0.arr(v.x)))),
                              ("exponential blend with rate 10", eqs(o, v.m0.arr(v.x) * exp(-10 * v.t) + (1 - exp(-10 * v.t)) * v.f.arr(v.x, v.t)))]))

    def run_args(m, v):
        def model(w, t, x, *, k):
            return v.f(w, t, x) * k
        a = m.model.impose_ic(v.m0, model, v.t0, v.k, argnums_m0=2, argnum_t=1)(v.w, v.t, v.x, k=v.c)
        b = m.model.impose_ic(v.m1, None, v.t0, v.k, (2, 0), 1)(model)(v.w, v.t, v.x, k=v.c)
        return a, b
    def run_ic6(m, v):
        a = (v.a, v.b, v.c, v.t, v.e, v.g)
        F6 = lambda *z: v.f(*z)
        u = m.model.impose_ic(v.m0, F6, v.t0, v.k, argnums_m0=[5, 1, 0, 4, 2], argnum_t=3)
        w = m.model.impose_ic(v.m0, None, v.t0, v.k, (-1, -5, -6, -2, -4), -3)(F6)
        return u(*a), w(*a)
    R.append(Contract("ic.many arguments", F + "impose_ic", {"a": (2,), "b": (), "c": (2,), "t": (), "e": (), "g": (2,), "t0": (), "k": ()},
        ufs={"m0": (((2,), (), (2,), (), (2,)), ()), "f": (((2,), (), (2,), (), (), (2,)), ())}, run=run_ic6, n=3, scale=0.7,
        ensures=lambda v, o: (lambda m0, f, dec: [("exponential blend", eq(o[0], m0 * dec + (1 - dec) * f)), ("decorator, arguments counted from the end", eq(o[1], m0 * dec + (1 - dec) * f)), ("equals m0 at the initial time", implies(eq(v.t, v.t0), eq(o[0], m0)))])(
            v.m0.term(v.g, v.b, v.a, v.e, v.c), v.f.term(v.a, v.b, v.c, v.t, v.e, v.g), exp(-v.k * (v.t - v.t0)))))
    R.append(Contract("ic.argnums", F + "impose_ic", {"w": (2,), "t": (), "x": (3,), "t0": (), "k": (), "c": ()},
        ufs={"m0": (((3,),), ()), "m1": (((3,), (2,)), ()), "f": (((2,), (), (3,)), ())}, run=run_args, n=4, scale=0.7,
        ensures=lambda v, o: ic(v, o[0], v.m0.arr(v.x), v.f.arr(v.w, v.t, v.x) * v.c, v.t, v.t0, v.k)
        + [(a + " (two arguments)", b) for a, b in ic(v, o[1], v.m1.arr(v.x, v.w), v.f.arr(v.w, v.t, v.x) * v.c, v.t, v.t0, v.k)]))
    # both at once, as users stack them
    R.append(Contract("dirichlet_and_ic", [F + "impose_ic", F + "impose_dirichlet_bc"], {"x": (2,), "t": ()},
        ufs={"adf": (((2,),), ()), "m0": (((2,),), ()), "f": (((2,), ()), ()), "g": (((2,),), ())}, n=4, scale=0.5,
        requires=lambda v: [implies(eq(v.adf.term(v.x), 0), eq(v.m0.term(v.x), v.g.term(v.x)))],
        run=lambda m, v: m.model.impose_ic(v.m0, m.model.impose_dirichlet_bc(v.adf, v.f, v.g))(v.x, v.t),
        ensures=lambda v, o: [("initial", implies(eq(v.t, 0), eq(o, v.m0.term(v.x)))),
                              ("boundary", implies(eq(v.adf.term(v.x), 0), eq(o, v.g.term(v.x))))]))
    return R


def grad(u, x, arg=0):
    return A(*[u.term(*x, d=((arg, i),)) for i in range(len(x[arg]))])


def c09():
    R = []
    for d in (1, 2, 3):
        for form in ("direct", "decorator"):
            for hh in (True, False):
                def run(m, v, form=form, hh=hh):
                    h = v.h if hh else None
                    if form == "direct":
                        u = m.model.impose_neumann_bc(v.adf, v.f, h)
                    else:
                        u = m.model.impose_neumann_bc(v.adf, h=h)(v.f)
                    return u(v.x), jax.jacfwd(u)(v.x)

                def ens(v, o, hh=hh):
                    n, l = grad(v.adf, (v.x,)), v.adf.term(v.x)
                    h = v.h.term(v.x) if hh else ZERO
                    bnd = and_(eq(l, 0), eq(norm2(n), 1))
                    return [("outward normal derivative equals h on the boundary", implies(bnd, eq(-dot(n, o[1]), h))),
                            ("values on the boundary stay free", implies(eq(l, 0), eq(o[0], v.f.term(v.x)))),
                            ("value", eq(o[0], v.f.term(v.x) - l * dot(n, grad(v.f, (v.x,))) - l * h))]
                ufs = {"adf": (((d,),), ()), "f": (((d,),), ())}
                if hh:
                    ufs["h"] = (((d,),), ())
                R.append(Contract("neumann[%dd,%s,h=%s]" % (d, form, hh), F + "impose_neumann_bc", {"x": (d,)}, ufs=ufs,
                    run=run, ensures=ens, n=4))
    # vector valued
    def ensv(v, o):
        n, l = grad(v.adf, (v.x,)), v.adf.term(v.x)
        bnd = and_(eq(l, 0), eq(norm2(n), 1))
        return [("outward normal derivative equals h, per component", implies(bnd, and_(*[eq(-dot(n, o[i]), v.h.term(v.x, out=(i,))) for i in range(2)])))]
    R.append(Contract("neumann.vector", F + "impose_neumann_bc", {"x": (2,)},
        ufs={"adf": (((2,),), ()), "f": (((2,),), (2,)), "h": (((2,),), (2,))}, n=4,
        run=lambda m, v: jax.jacfwd(m.model.impose_neumann_bc(v.adf, v.f, v.h))(v.x), ensures=ensv))

    for d in (4, 5):
        R.append(Contract("neumann[%dd]" % d, F + "impose_neumann_bc", {"x": (d,)}, ufs={"adf": (((d,),), ()), "f": (((d,),), ()), "h": (((d,),), ())}, n=2,
            run=lambda m, v: m.model.impose_neumann_bc(v.adf, v.f, v.h)(v.x),
            ensures=lambda v, o: [("value", eq(o, v.f.term(v.x) - v.adf.term(v.x) * (dot(grad(v.adf, (v.x,)), grad(v.f, (v.x,))) + v.h.term(v.x))))]))
    R.append(Contract("neumann[scalar points]", F + "impose_neumann_bc", {"x": ()}, ufs={"adf": (((),), ()), "f": (((),), ()), "h": (((),), ())}, n=3,
        run=lambda m, v: (lambda u: (u(v.x), jax.jacfwd(u)(v.x)))(m.model.impose_neumann_bc(v.adf, v.f, v.h)),
        ensures=lambda v, o: (lambda l, n: [("value", eq(o[0], v.f.term(v.x) - l * n * v.f.term(v.x, d=((0, 0),)) - l * v.h.term(v.x))),
                                            ("outward normal derivative", implies(and_(eq(l, 0), eq(n * n, 1)), eq(-n * o[1], v.h.term(v.x))))])(v.adf.term(v.x), v.adf.term(v.x, d=((0, 0),)))))
    # a moving boundary: adf(x, t); the normal is the derivative in space
    def ensm(v, o):
        l, n = v.adf.term(v.x, v.t), grad(v.adf, (v.x, v.t))
        return [("outward normal derivative equals h(t, x) on the boundary", implies(and_(eq(l, 0), eq(norm2(n), 1)), eq(-dot(n, o[1]), v.h.term(v.t, v.x)))),
                ("value", eq(o[0], v.f.term(v.x, v.t) - l * dot(n, grad(v.f, (v.x, v.t))) - l * v.h.term(v.t, v.x)))]
    R.append(Contract("neumann.moving", F + "impose_neumann_bc", {"x": (2,), "t": ()}, ufs={"adf": (((2,), ()), ()), "f": (((2,), ()), ()), "h": (((), (2,)), ())}, n=3, ensures=ensm,
        run=lambda m, v: (lambda u: (u(v.x, v.t), jax.jacfwd(u)(v.x, v.t)))(m.model.impose_neumann_bc(lambda x, t: v.adf(x, t), lambda x, t: v.f(x, t), lambda t, x: v.h(t, x), argnums_adf=(0, 1), argnums_h=(1, 0)))))
    # argument routing
    def run(m, v):
        def model(w, t, x, *, k):
            return v.f(w, t, x) * k
        u = m.model.impose_neumann_bc(v.adf, model, v.h, argnums_adf=2, argnum_model=2, argnums_h=(2, 1))
        u2 = m.model.impose_neumann_bc(v.adf, None, v.h, 2, 2, (2, 1))(model)
        return u(v.w, v.t, v.x, k=v.c), jax.jacfwd(lambda x: u(v.w, v.t, x, k=v.c))(v.x), u2(v.w, v.t, v.x, k=v.c)

    def ens(v, o):
        n, l = grad(v.adf, (v.x,)), v.adf.term(v.x)
        h = v.h.term(v.x, v.t)
        val = v.f.term(v.w, v.t, v.x) * v.c - l * dot(n, grad(v.f, (v.w, v.t, v.x), 2)) * v.c - l * h
        return [("outward normal derivative equals h on the boundary",
                 implies(and_(eq(l, 0), eq(norm2(n), 1)), eq(-dot(n, o[1]), h))),
                ("value", eq(o[0], val)), ("decorator", eq(o[2], val))]
    R.append(Contract("neumann.argnums", F + "impose_neumann_bc", {"w": (2,), "t": (), "x": (2,), "c": ()},
        ufs={"adf": (((2,),), ()), "f": (((2,), (), (2,)), ()), "h": (((2,), ()), ())}, run=run, ensures=ens, n=4))
    # many positional arguments, the differentiated one anywhere among them
    S6 = ((2,), (), (2,), (), (), (2,))
    for k in (0, 2, 5):
        def run6(m, v, k=k):
            a = (v.a, v.b, v.c, v.d, v.e, v.g)
            F6 = lambda *z: v.f(*z)
            u = m.model.impose_neumann_bc(v.adf, F6, v.h, argnums_adf=[k, 3], argnum_model=k, argnums_h=(4, 2, 0, 3, 1, 5))
            w = m.model.impose_neumann_bc(v.adf, None, v.h, (k - 6, -3), k, (-2, -4, -6, -3, -5, -1))(F6)
            return u(*a), w(*a), jax.jacfwd(u, argnums=k)(*a)

        def ens6(v, o, k=k):
            a = (v.a, v.b, v.c, v.d, v.e, v.g)
            x = a[k]
            n, l, h = grad(v.adf, (x, v.d)), v.adf.term(x, v.d), v.h.term(v.e, v.c, v.a, v.d, v.b, v.g)
            val = v.f.term(*a) - l * dot(n, grad(v.f, a, k)) - l * h
            return [("value", eq(o[0], val)), ("decorator, arguments counted from the end", eq(o[1], val)),
                    ("outward normal derivative equals h on the boundary", implies(and_(eq(l, 0), eq(norm2(n), 1)), eq(-dot(n, o[2]), h)))]
        R.append(Contract("neumann.many arguments[%d]" % k, F + "impose_neumann_bc", {"a": (2,), "b": (), "c": (2,), "d": (), "e": (), "g": (2,)},
            ufs={"adf": (((2,), ()), ()), "f": (S6, ()), "h": (((), (2,), (2,), (), (), (2,)), ())}, run=run6, ensures=ens6, n=2))
    # on a real ADF: the sphere of radius r
    def runs(m, v):
        u = m.model.impose_neumann_bc(m.r_fun.sphere(v.r), v.f, v.h)
        return jax.jacfwd(u)(v.x)
    R.append(Contract("neumann.sphere", [F + "impose_neumann_bc", "magpi.r_fun.sphere"], {"x": (3,), "r": ()},
        ufs={"f": (((3,),), ()), "h": (((3,),), ())}, requires=lambda v: [lt(0, v.r), eq(norm2(v.x), v.r * v.r)], n=4,
        sample=lambda r: (lambda x: {"x": x, "r": (x @ x) ** 0.5})(r.normal(0, 1, 3)), run=runs,
        ensures=lambda v, o: [("outward normal derivative equals h", eq(dot(v.x, o), v.r * v.h.term(v.x)))]))
    return R


def gentle(seed):
    """a concrete activation for deep networks: bounded, so that the value does not run away with the depth"""
    return lambda z: 0.9 * jnp.sin(z + 0.3 * (1 + seed % 5)) + 0.2 * z


def c22():
    R = []

    def net(f, Ws, bs, x, last=True):
        """rows of x through the layers"""
        h = list(x)
        for i, (W, b) in enumerate(zip(Ws, bs)):
            z = [sum([h[j] * W[j, k] for j in range(len(h))], ZERO) + b[k] for k in range(len(b))]
            h = z if i == len(Ws) - 1 else [f(t) for t in z]
        return h

    for sizes in ((2, 1), (2, 3), (1, 2, 1), (2, 2, 3), (2, 3, 2, 1), (3, 2, 2, 2, 2), (1, 1, 1), (2, 10, 10, 1), (1, 2, 2, 2, 2, 2, 1), (2,) + (1,) * 14, (1,) + (2,) * 10, (1, 1)):
        L = len(sizes) - 1
        X = {"x": (2, sizes[0])}
        for i in range(L):
            X["W%d" % i] = (sizes[i], sizes[i + 1])
            X["b%d" % i] = (sizes[i + 1],)

        def params(v, L=L):
            d = {("output_layer" if i == L - 1 else "layers_%d" % i): {"kernel": getattr(v, "W%d" % i), "bias": getattr(v, "b%d" % i)} for i in range(L)}
            return {"params": d}

        for default in (False, True):
            if default and sizes not in ((2, 3, 2, 1), (2, 2, 3)):
                continue

            def run(m, v, sizes=sizes, default=default, params=params):
                act = None if default else (lambda z: v.f(z.reshape(-1)[:, None])[:, 0].reshape(z.shape) if False else jnp.vectorize(v.f)(z))
                model = m.model.MLP(list(sizes[1:]), act)
                p = params(v)
                return model.apply(p, v.x), model.apply(p, v.x[0])

            def ens(v, o, sizes=sizes, L=L, default=default):
                f = (lambda t: t_.fn("tanh", t)) if default else (lambda t: v.f.term(t))
                Ws, bs = [getattr(v, "W%d" % i) for i in range(L)], [getattr(v, "b%d" % i) for i in range(L)]
                ys = [net(f, Ws, bs, v.x[r]) for r in range(2)]
                if sizes[-1] == 1:
                    if np.shape(o[0]) != (2,) or np.shape(o[1]) != ():
                        return [("a single output neuron gives scalars", FALSE)]
                    return [("row %d" % r, eq(o[0][r], ys[r][0])) for r in range(2)] + [("single input", eq(o[1], ys[0][0]))]
                if np.shape(o[0]) != (2, sizes[-1]) or np.shape(o[1]) != (sizes[-1],):
                    return [("shape", FALSE)]
                return [("row %d" % r, eqs(o[0][r], A(*ys[r]))) for r in range(2)] + [("single input", eqs(o[1], A(*ys[0])))]
            R.append(Contract("mlp%s%s" % (list(sizes), ",tanh" if default else ""), F + "MLP", X, ufs={} if default else {"f": (((),), ())}, run=run, ensures=ens, n=3, scale=2.0 if L < 6 else 1.0,
                concrete={"f": gentle} if L > 4 and not default else None))

    # the constructor: parameters of the requested sizes, usable with the returned model, reproducible
    for sizes in ((2, 3, 1), (3, 4), (1, 5, 4, 2)):
        def run(m, v, sizes=sizes):
            key = jax.random.PRNGKey(3)
            act = lambda z: jnp.vectorize(v.f)(z)
            model, p = m.model.mlp(key, list(sizes), act)
            model2, p2 = m.model.mlp(key, list(sizes), act)
            ls = p["params"]
            names = ["layers_%d" % i for i in range(len(sizes) - 2)] + ["output_layer"]
            if sorted(ls) != sorted(names):
                return jnp.zeros(()), [], [], [], []
            direct = m.model.MLP(list(sizes[1:]), act)
            return model.apply(p, v.x), [ls[k]["kernel"] for k in names], [ls[k]["bias"] for k in names], [p2["params"][k]["kernel"] for k in names], direct.apply(p, v.x)

        def ens(v, o, sizes=sizes):
            L = len(sizes) - 1
            if len(o[1]) != L:
                return [("one kernel and bias per layer", FALSE)]
            sh = all(np.shape(o[1][i]) == (sizes[i], sizes[i + 1]) and np.shape(o[2][i]) == (sizes[i + 1],) for i in range(L))
            return [("sizes of the layers", TRUE if sh else FALSE), ("reproducible", and_(*[eqs(a, b) for a, b in zip(o[1], o[3])])),
                    ("the returned model evaluates the returned parameters", eqs(o[0], o[4])),
                    ("output shape", TRUE if np.shape(o[0]) == (() if sizes[-1] == 1 else (sizes[-1],)) else FALSE)]
        R.append(Contract("mlp.init%s" % list(sizes), [F + "mlp", F + "MLP"], {"x": (sizes[0],)}, ufs={"f": (((),), ())}, run=run, ensures=ens, n=2))
    return R
