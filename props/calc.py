"""C15 differential operators, C16 Hessian-vector products (magpi.calc)."""
import jax
import jax.numpy as jnp

from .lib import *

F = "magpi.calc."


def contracts(prop):
    return {"C15": c15, "C16": c16}[prop]()


def D(u, args, *ds, out=()):
    """partial derivative of component out, ds = (arg, flat index) pairs"""
    return u.term(*args, out=out, d=tuple(ds))


def c15():
    R = []
    # -- derivative ---------------------------------------------------------------
    def run(m, v):
        d = m.calc.derivative
        f = lambda x, time: v.f(x, time)
        return (d(f)(v.x, v.t), d(f, 1)(v.x, v.t), d("x")(f)(v.x, v.t), d("time")(f)(v.x, v.t), d(["x", "time"])(f)(v.x, v.t),
                d(["time", "time", "x"])(f)(v.x, v.t), d([0, 1])(f)(v.x, v.t), d(1)(f)(v.x, v.t), m.calc.value_and_derivative(f, 1)(v.x, v.t),
                m.calc.value_and_derivative(f, "x")(v.x, v.t), d(d(f, 1), 0)(v.x, v.t))

    def ens(v, o):
        a = (v.x, v.t)
        dx, dt, dxt = D(v.f, a, (0, 0)), D(v.f, a, (1, 0)), D(v.f, a, (0, 0), (1, 0))
        return [("first argument by default", eq(o[0], dx)), ("by position", eq(o[1], dt)), ("by name", eq(o[2], dx)), ("by long name", eq(o[3], dt)),
                ("mixed by name", eq(o[4], dxt)), ("third order", eq(o[5], D(v.f, a, (0, 0), (1, 0), (1, 0)))), ("mixed by position", eq(o[6], dxt)),
                ("single position", eq(o[7], dt)), ("value and derivative", and_(eq(o[8][0], v.f.term(*a)), eq(o[8][1], dt))),
                ("value and derivative by name", and_(eq(o[9][0], v.f.term(*a)), eq(o[9][1], dx))), ("nested", eq(o[10], dxt))]
    R.append(Contract("derivative.scalar", [F + "derivative", F + "value_and_derivative"], {"x": (), "t": ()}, ufs={"f": (((), ()), ())}, run=run, ensures=ens, n=3))

    def run(m, v):
        d = m.calc.derivative
        f = lambda x, y: v.f(x, y)
        return [d([k], argnums=[1])(f)(v.x, v.y) for k in range(3)] + [d(k, argnums=0)(f)(v.x, v.y) for k in range(2)] + [
            d([0, 2], argnums=[0, 1])(f)(v.x, v.y), d([1, 1], argnums=[1, 1])(f)(v.x, v.y), d([1, 0], argnums=1)(f)(v.x, v.y),
            m.calc.value_and_derivative(f, 2, 1)(v.x, v.y)]

    def ens(v, o):
        a = (v.x, v.y)
        return [("component %d of the second argument" % k, eq(o[k], D(v.f, a, (1, k)))) for k in range(3)] + [
            ("component %d of the first argument" % k, eq(o[3 + k], D(v.f, a, (0, k)))) for k in range(2)] + [
            ("mixed", eq(o[5], D(v.f, a, (0, 0), (1, 2)))), ("second", eq(o[6], D(v.f, a, (1, 1), (1, 1)))), ("one argnum for all", eq(o[7], D(v.f, a, (1, 0), (1, 1)))),
            ("value", eq(o[8][0], v.f.term(*a))), ("derivative", eq(o[8][1], D(v.f, a, (1, 2))))]
    R.append(Contract("derivative.vector", [F + "derivative", F + "value_and_derivative"], {"x": (2,), "y": (3,)}, ufs={"f": (((2,), (3,)), ())}, run=run, ensures=ens, n=3))

    R.append(Contract("derivative.kwargs", [F + "derivative"], {"x": (), "k": ()}, ufs={"f": (((), ()), (2,))}, n=3,
        run=lambda m, v: (m.calc.derivative(lambda x, *, k: v.f(x, k))(v.x, k=v.k), m.calc.derivative("x")(lambda x, *, k: v.f(x, k))(v.x, k=v.k)),
        ensures=lambda v, o: [("keyword arguments are not differentiated", and_(*[eq(o[i][j], D(v.f, (v.x, v.k), (0, 0), out=(j,))) for i in range(2) for j in range(2)]))]))
    # the differentiated argument may itself be passed by keyword, or counted from the end
    def run(m, v):
        d = m.calc.derivative
        f = lambda x, time: v.f(x, time)
        fk = lambda x, *, time: v.f(x, time)
        return (d("time")(f)(v.x, time=v.t), d(f, 1)(v.x, time=v.t), d(fk, 1)(v.x, time=v.t), d("time")(fk)(v.x, time=v.t), d(f, -1)(v.x, v.t), d([-1])(f)(v.x, v.t),
                d("x")(f)(x=v.x, time=v.t), d(["time", "x"])(f)(v.x, time=v.t), d(["x", "time"])(f)(v.x, time=v.t), d(["time", "time"])(f)(v.x, time=v.t), d([0, -1])(f)(v.x, v.t),
                m.calc.value_and_derivative(f, "time")(v.x, time=v.t))

    def ens(v, o):
        a = (v.x, v.t)
        dx, dt, dxt = D(v.f, a, (0, 0)), D(v.f, a, (1, 0)), D(v.f, a, (0, 0), (1, 0))
        return [("by %s" % w, eq(o[k], dt)) for k, w in enumerate(("name", "position", "position, keyword-only", "name, keyword-only", "negative position", "negative positions"))] + [
            ("all keywords", eq(o[6], dx)), ("mixed, last first", eq(o[7], dxt)), ("mixed", eq(o[8], dxt)), ("second", eq(o[9], D(v.f, a, (1, 0), (1, 0)))), ("mixed, negative position", eq(o[10], dxt)),
            ("value and derivative", and_(eq(o[11][0], v.f.term(*a)), eq(o[11][1], dt)))]
    R.append(Contract("derivative.passed by keyword", [F + "derivative", F + "value_and_derivative"], {"x": (), "t": ()}, ufs={"f": (((), ()), ())}, run=run, ensures=ens, n=3))
    R.append(Contract("derivative.vector keyword", [F + "derivative", F + "value_and_derivative"], {"x": (2,), "t": ()}, ufs={"f": (((2,), ()), (2,))}, n=3,
        run=lambda m, v: (m.calc.derivative("time")(lambda x, time: v.f(x, time))(v.x, time=v.t), m.calc.derivative([1], argnums=[0])(lambda x, time: v.f(x, time))(v.x, time=v.t), m.calc.derivative([-1], argnums=[-2])(lambda x, time: v.f(x, time))(v.x, v.t)),
        ensures=lambda v, o: [("every component", and_(*[eq(o[0][i], D(v.f, (v.x, v.t), (1, 0), out=(i,))) for i in range(2)])),
                              ("component of an argument next to a keyword", and_(*[eq(o[k][i], D(v.f, (v.x, v.t), (0, 1), out=(i,))) for i in range(2) for k in (1, 2)]))]))

    def run(m, v):
        r = []
        for w, kw in ((2, {}), (-3, {}), ("missing", {}), (1, {"time": 1})):
            try:
                m.calc.derivative(w)(lambda x, time: v.f(x, time))(v.x, **(kw or {})) if kw else m.calc.derivative(w)(lambda x, time: v.f(x, time))(v.x, v.t)
                r.append(0.0)
            except (AssertionError, IndexError, TypeError, ValueError, KeyError):
                r.append(1.0)
        return [v.x * 0 + t for t in r]
    R.append(Contract("derivative.no such argument", [F + "derivative", F + "value_and_derivative"], {"x": (), "t": ()}, ufs={"f": (((), ()), ())}, run=run, n=2,
        ensures=lambda v, o: [("an argument that does not exist, or is not differentiable, is rejected", and_(*[eq(t, 1) for t in o]))]))
    # -- value_and_jac ------------------------------------------------------------
    for nm in ("value_and_jacfwd", "value_and_jacrev"):
        def run(m, v, nm=nm):
            J = getattr(m.calc, nm)
            f = lambda x, y: v.f(x, y)
            fa = lambda x, y: (v.f(x, y), v.g(x))
            y, j = J(f)(v.x, v.y)
            y1, j1 = J(f, 1)(v.x, v.y)
            y2, j2 = J(f, (0, 1))(v.x, v.y)
            (y3, a3), j3 = J(fa, 0, has_aux=True)(v.x, v.y)
            y4, j4 = J(lambda x, *, y: v.f(x, y))(v.x, y=v.y)
            y5, j5 = J(f, -1)(v.x, v.y)
            y6, j6 = J(lambda p: {"u": v.f(p["x"], p["y"]), "v": v.g(p["x"])})({"x": v.x, "y": v.y})
            return y, j, y1, j1, y2, j2[0], j2[1], y3, a3, j3, (y4, j4, y5, j5, y6, j6)

        def ens(v, o):
            a = (v.x, v.y)
            fx = v.f.arr(*a)
            J0 = np.array([[D(v.f, a, (0, k), out=(i,)) for k in range(2)] for i in range(2)], dtype=object)
            J1 = np.array([[D(v.f, a, (1, k), out=(i,)) for k in range(3)] for i in range(2)], dtype=object)
            return [("value", and_(*[eqs(o[i], fx) for i in (0, 2, 4, 7)])), ("jacobian, first argument", eqs(o[1], J0)), ("jacobian, second argument", eqs(o[3], J1)),
                    ("both", and_(eqs(o[5], J0), eqs(o[6], J1))), ("auxiliary output", eq(o[8], v.g.term(v.x))), ("jacobian with aux", eqs(o[9], J0)),
                    ("keyword", and_(eqs(o[10][0], fx), eqs(o[10][1], J0))), ("last argument", and_(eqs(o[10][2], fx), eqs(o[10][3], J1))),
                    ("structured value", and_(eqs(o[10][4]["u"], fx), eq(o[10][4]["v"], v.g.term(v.x)))),
                    ("structured jacobian", and_(eqs(o[10][5]["u"]["x"], J0), eqs(o[10][5]["u"]["y"], J1), *[eq(o[10][5]["v"]["x"][k], D(v.g, (v.x,), (0, k))) for k in range(2)], *[eq(t, 0) for t in o[10][5]["v"]["y"]]))]
        R.append(Contract(nm, F + nm, {"x": (2,), "y": (3,)}, ufs={"f": (((2,), (3,)), (2,)), "g": (((2,),), ())}, run=run, ensures=ens, n=3))
    # -- laplace ---------------------------------------------------------------
    for d in (0, 1, 2, 3, 4):
        shp = (d,) if d else ()
        for out in ((), (2,)):
            def ens(v, o, out=out, d=d):
                a = (v.x, v.k)
                sp = lambda c: sum([D(v.f, a, (0, i), (0, i), out=c) for i in range(max(d, 1))], ZERO)
                if out == ():
                    return [("sum of the pure second derivatives", eq(o, sp(())))] if np.shape(o) == () else [("shape", FALSE)]
                if np.shape(o) != out:
                    return [("shape", FALSE)]
                return [("component %d" % c, eq(o[c], sp((c,)))) for c in range(out[0])]
            if d == 0 and out:
                continue
            R.append(Contract("laplace[%s->%s]" % (shp, out), [F + "laplace", F + "hessian_diag", F + "hvp"], {"x": shp, "k": ()}, ufs={"f": ((shp, ()), out)}, n=2,
                run=lambda m, v: m.calc.laplace(lambda x, k: v.f(x, k))(v.x, v.k), ensures=ens))
    def run_many(m, v):
        C, (a, k) = m.calc, extra(v)
        o, s = open_(v, v.f), shut(v, v.f)
        O, S = open_(v, v.g), shut(v, v.g)
        op = lambda f: (lambda x, a, b, c, d, e, h: f(x, a, b, c, d, p=e, q=h))
        six = a + (v.k1, v.k2)
        return [(C.derivative(o)(v.x, *a, **k), C.derivative(s)(v.x)), (C.derivative([0, 0], argnums=[0, 0])(O)(v.y, *a, **k), C.derivative([0, 0], argnums=[0, 0])(S)(v.y)),
                (C.value_and_derivative(o, 0)(v.x, *a, **k), C.value_and_derivative(s, 0)(v.x)),
                (C.value_and_jacfwd(O)(v.y, *a, **k), C.value_and_jacfwd(S)(v.y)), (C.value_and_jacrev(O)(v.y, *a, **k), C.value_and_jacrev(S)(v.y)),
                (C.laplace(O)(v.y, *a, **k), C.laplace(S)(v.y)), (C.divergence(O)(v.y, *a, **k), C.divergence(S)(v.y)), (C.value_and_divergence(O)(v.y, *a, **k), C.value_and_divergence(S)(v.y)),
                (C.curl(op(O))(v.y, *six), C.curl(S)(v.y)), (C.curl(op(open_(v, v.h)))(v.z, *six), C.curl(shut(v, v.h))(v.z))]
    R.append(Contract("operators.many arguments", [F + t for t in ("derivative", "value_and_derivative", "value_and_jacfwd", "value_and_jacrev", "laplace", "divergence", "value_and_divergence", "curl", "curl2d", "curl3d")],
        dict(MANY, x=(), y=(2,), z=(3,)), ufs=dict(MANYF, f=(((), ()), ()), g=(((2,), ()), (2,)), h=(((3,), ()), (3,))), n=2, run=run_many,
        ensures=lambda v, o: passes(v, o, ("derivative", "second derivative", "value_and_derivative", "value_and_jacfwd", "value_and_jacrev", "laplace", "divergence", "value_and_divergence", "curl in 2d", "curl in 3d"))))
    R.append(Contract("laplace.kwargs", F + "laplace", {"x": (2,), "k": ()}, ufs={"f": (((2,), ()), ())}, n=2,
        run=lambda m, v: m.calc.laplace(lambda x, *, k: v.f(x, k))(v.x, k=v.k),
        ensures=lambda v, o: [("keyword", eq(o, D(v.f, (v.x, v.k), (0, 0), (0, 0)) + D(v.f, (v.x, v.k), (0, 1), (0, 1))))]))
    for d in (1, 3):
        R.append(Contract("hessian_diag[%d]" % d, F + "hessian_diag", {"x": (d,)}, ufs={"f": (((d,),), ())}, n=2,
            run=lambda m, v: m.calc.hessian_diag(v.f, v.x),
            ensures=lambda v, o, d=d: [("entry %d" % i, eq(o[i], D(v.f, (v.x,), (0, i), (0, i)))) for i in range(d)]))
    # structured outputs: one result per leaf
    def tree(v):
        return lambda x, k: {"a": v.f(x, k), "b": (v.g(x, k), v.h(x, k))}
    U = lambda d, so: {"f": (((d,), ()), so[0]), "g": (((d,), ()), so[1]), "h": (((d,), ()), so[2])}
    for d in (1, 2, 3):
        def ens(v, o, d=d):
            a = (v.x, v.k)
            sp = lambda u, c: sum([D(u, a, (0, i), (0, i), out=c) for i in range(d)], ZERO)
            leaf = lambda t, u, so: and_(*[eq(np.asarray(t, dtype=object)[c], sp(u, c)) for c in np.ndindex(*so)]) if np.shape(t) == so else FALSE
            return [("scalar leaf", leaf(o[0]["a"], v.f, ())), ("vector leaf", leaf(o[0]["b"][0], v.g, (2,))), ("matrix leaf", leaf(o[0]["b"][1], v.h, (2, 2)))] + [
                ("diagonal, scalar leaf", and_(*[eq(o[1]["a"][i], D(v.f, a, (0, i), (0, i))) for i in range(d)])),
                ("diagonal, vector leaf", and_(*[eq(o[1]["b"][0][i, c], D(v.g, a, (0, i), (0, i), out=(c,))) for i in range(d) for c in range(2)]))]
        R.append(Contract("laplace.pytree[%d]" % d, [F + "laplace", F + "hessian_diag", F + "hvp"], {"x": (d,), "k": ()}, ufs=U(d, ((), (2,), (2, 2))), n=2,
            run=lambda m, v: (m.calc.laplace(tree(v))(v.x, v.k), m.calc.hessian_diag(lambda x: tree(v)(x, v.k), v.x)), ensures=ens))

        def ens(v, o, d=d):
            a = (v.x, v.k)
            dv = lambda u, c=(): sum([D(u, a, (0, i), out=c + (i,)) for i in range(d)], ZERO)
            E = [("rows %d" % q, and_(*[eq(o[q]["b"][1][r], dv(v.h, (r,))) for r in range(2)]) if np.shape(o[q]["b"][1]) == (2,) else FALSE) for q in range(3)]
            E += [("leaf a %d" % q, eq(o[q]["a"], dv(v.f))) for q in range(3)] + [("leaf b %d" % q, eq(o[q]["b"][0], dv(v.g))) for q in range(3)]
            return E + [("values", and_(eqs(o[3]["a"], v.f.arr(*a)), eqs(o[3]["b"][0], v.g.arr(*a)), *[eq(o[3]["b"][1][c], v.h.term(*a, out=c)) for c in np.ndindex(2, d)]))]
        R.append(Contract("divergence.pytree[%d]" % d, [F + "divergence", F + "value_and_divergence"], {"x": (d,), "k": ()}, ufs=U(d, ((d,), (d,), (2, d))), n=2,
            run=lambda m, v: (lambda vd: (m.calc.divergence(tree(v))(v.x, v.k), vd[1], m.calc.divergence(lambda k, x: tree(v)(x, k), -1)(v.k, v.x), vd[0]))(m.calc.value_and_divergence(tree(v))(v.x, v.k)), ensures=ens))
    for d in (4, 5, 6):
        R.append(Contract("divergence[%d]" % d, [F + "divergence", F + "value_and_divergence"], {"x": (d,), "k": ()}, ufs={"f": (((d,), ()), (d,))}, n=2,
            run=lambda m, v: m.calc.divergence(lambda x, k: v.f(x, k))(v.x, v.k),
            ensures=lambda v, o, d=d: [("trace of the Jacobian", eq(o, sum([D(v.f, (v.x, v.k), (0, i), out=(i,)) for i in range(d)], ZERO)))]))
    R.append(Contract("divergence.two arguments", [F + "divergence", F + "value_and_divergence"], {"x": (2,), "y": (2,)}, ufs={"f": (((2,), (2,)), (2,))}, n=2,
        run=lambda m, v: m.calc.divergence(lambda x, y: v.f(x, y), (0, 1))(v.x, v.y),
        ensures=lambda v, o: [("wrt argument %d" % q, eq(o[q], sum([D(v.f, (v.x, v.y), (q, i), out=(i,)) for i in range(2)], ZERO))) for q in range(2)]))
    # -- divergence ----------------------------------------------------------------
    for d in (1, 2, 3):
        R.append(Contract("divergence[%d]" % d, [F + "divergence", F + "value_and_divergence"], {"x": (d,), "k": ()}, ufs={"f": (((d,), ()), (d,))}, n=2,
            run=lambda m, v: (m.calc.divergence(lambda x, k: v.f(x, k))(v.x, v.k), m.calc.value_and_divergence(lambda x, k: v.f(x, k))(v.x, v.k),
                              m.calc.divergence(lambda k, x: v.f(x, k), 1)(v.k, v.x), m.calc.divergence(lambda x, *, k: v.f(x, k))(v.x, k=v.k)),
            ensures=lambda v, o, d=d: (lambda sp: [("trace of the Jacobian", eq(o[0], sp)), ("value", eqs(o[1][0], v.f.arr(v.x, v.k))), ("divergence", eq(o[1][1], sp)),
                                                   ("argnums", eq(o[2], sp)), ("keyword", eq(o[3], sp))])(sum([D(v.f, (v.x, v.k), (0, i), out=(i,)) for i in range(d)], ZERO))))
    R.append(Contract("divergence.tensor", F + "divergence", {"x": (3,)}, ufs={"f": (((3,),), (2, 3))}, n=2,
        run=lambda m, v: m.calc.divergence(v.f)(v.x) if False else m.calc.divergence(lambda x: v.f(x))(v.x),
        ensures=lambda v, o: [("row %d" % k, eq(o[k], sum([D(v.f, (v.x,), (0, i), out=(k, i)) for i in range(3)], ZERO))) for k in range(2)] if np.shape(o) == (2,) else [("shape", FALSE)]))
    # -- curl ----------------------------------------------------------------------
    def c3(v, f, c=()):
        d = lambda i, j: D(v.f, (v.x, v.k), (0, j), out=c + (i,))
        return A(d(2, 1) - d(1, 2), d(0, 2) - d(2, 0), d(1, 0) - d(0, 1))
    R.append(Contract("curl[3d]", [F + "curl", F + "curl3d"], {"x": (3,), "k": ()}, ufs={"f": (((3,), ()), (3,))}, n=2,
        run=lambda m, v: (m.calc.curl(lambda x, k: v.f(x, k))(v.x, v.k), m.calc.curl3d(lambda x, k: v.f(x, k))(v.x, v.k)),
        ensures=lambda v, o: [("curl", eqs(o[0], c3(v, v.f))), ("curl3d", eqs(o[1], c3(v, v.f)))]))
    R.append(Contract("curl[3d,stacked]", [F + "curl", F + "curl3d"], {"x": (3,), "k": ()}, ufs={"f": (((3,), ()), (2, 3))}, n=2,
        run=lambda m, v: m.calc.curl(lambda x, k: v.f(x, k))(v.x, v.k),
        ensures=lambda v, o: [("row %d" % r, eqs(o[r], c3(v, v.f, (r,)))) for r in range(2)]))
    R.append(Contract("curl[2d]", [F + "curl", F + "curl2d"], {"x": (2,), "k": ()}, ufs={"f": (((2,), ()), (2,))}, n=2,
        run=lambda m, v: (m.calc.curl(lambda x, k: v.f(x, k))(v.x, v.k), m.calc.curl2d(lambda x, k: v.f(x, k))(v.x, v.k)),
        ensures=lambda v, o: (lambda sp: [("curl", eq(o[0], sp)), ("curl2d", eq(o[1], sp))])(D(v.f, (v.x, v.k), (0, 0), out=(1,)) - D(v.f, (v.x, v.k), (0, 1), out=(0,)))))
    for d in (2, 3):
        def ens(v, o, d=d):
            a = (v.x, v.k, v.t)
            def c(u, p=()):
                e = lambda i, j: D(u, a, (0, j), out=p + (i,))
                return A(e(2, 1) - e(1, 2), e(0, 2) - e(2, 0), e(1, 0) - e(0, 1)) if d == 3 else e(1, 0) - e(0, 1)
            same = (lambda x, y: eqs(x, y)) if d == 3 else eq
            return [("first leaf", same(o["a"], c(v.f))), ("second leaf", and_(*[same(o["b"][r], c(v.g, (r,))) for r in range(2)]) if np.shape(o["b"])[0] == 2 else FALSE)]
        R.append(Contract("curl.pytree[%d]" % d, [F + "curl", F + "curl%dd" % d], {"x": (d,), "k": (), "t": ()}, ufs={"f": (((d,), (), ()), (d,)), "g": (((d,), (), ()), (2, d))}, n=2,
            run=lambda m, v: m.calc.curl(lambda x, k, t: {"a": v.f(x, k, t), "b": v.g(x, k, t)})(v.x, v.k, v.t), ensures=ens))

    def run(m, v):
        r = []
        for f, x in ((lambda x: v.f(x), v.x[:1]), (lambda x: jnp.concatenate([x, x]), v.x[:2]), (lambda x: x[:2], v.x[:3]), (lambda x: x, v.x)):
            try:
                m.calc.curl(f)(x)
                r.append(0.0)
            except (AssertionError, ValueError):
                r.append(1.0)
        return [v.x[0] * 0 + t for t in r]
    R.append(Contract("curl.rejects", [F + "curl", F + "curl2d", F + "curl3d"], {"x": (4,)}, ufs={"f": (((1,),), (1,))}, n=2, run=run,
        ensures=lambda v, o: [("fields that are not two or three dimensional are rejected", and_(*[eq(t, 1) for t in o]))]))
    R.append(Contract("curl.grad", [F + "curl"], {"x": (3,)}, ufs={"f": (((3,),), ())}, n=2,
        run=lambda m, v: m.calc.curl(lambda x: jax.grad(v.f)(x))(v.x), ensures=lambda v, o: [("curl of a gradient vanishes", eqs(o, A(0, 0, 0)))]))
    R.append(Contract("div.curl", [F + "curl", F + "divergence"], {"x": (3,)}, ufs={"f": (((3,),), (3,))}, n=2,
        run=lambda m, v: m.calc.divergence(m.calc.curl(lambda x: v.f(x)))(v.x), ensures=lambda v, o: [("divergence of a curl vanishes", eq(o, 0))]))
    R.append(Contract("div.grad", [F + "laplace", F + "divergence"], {"x": (3,)}, ufs={"f": (((3,),), ())}, n=2,
        run=lambda m, v: (m.calc.divergence(lambda x: jax.grad(v.f)(x))(v.x), m.calc.laplace(lambda x: v.f(x))(v.x)),
        ensures=lambda v, o: [("divergence of the gradient is the Laplacian", eq(o[0], o[1]))]))

    # -- flax modules: operator(module)(x, params) --------------------------------
    def run(m, v):
        import flax.linen as nn

        class M(nn.Module):
            @nn.compact
            def __call__(self, x, k):
                w = self.param("w", lambda *_: None)
                return v.f(x * w, k)

        class V(nn.Module):
            @nn.compact
            def __call__(self, x):
                w = self.param("w", lambda *_: None)
                return v.g(x * w)
        p = {"params": {"w": v.w}}
        return (m.calc.laplace(M())(v.x, p, v.k), m.calc.divergence(V())(v.x, p), m.calc.curl(V())(v.x, p), m.calc.value_and_divergence(V())(v.x, p)[0])

    def ens(v, o):
        a, b = (v.x * v.w, v.k), (v.x * v.w,)
        d = lambda i, j: D(v.g, b, (0, j), out=(i,)) * v.w
        return [("laplacian of a module", eq(o[0], v.w ** 2 * sum([D(v.f, a, (0, i), (0, i)) for i in range(3)], ZERO))),
                ("divergence of a module", eq(o[1], d(0, 0) + d(1, 1) + d(2, 2))),
                ("curl of a module", eqs(o[2], A(d(2, 1) - d(1, 2), d(0, 2) - d(2, 0), d(1, 0) - d(0, 1)))),
                ("value", eqs(o[3], v.g.arr(*b)))]
    R.append(Contract("operators.module", [F + "apply_to_module", F + "laplace", F + "divergence", F + "curl"], {"x": (3,), "w": (), "k": ()},
        ufs={"f": (((3,), ()), ()), "g": (((3,),), (3,))}, run=run, ensures=ens, n=2))
    return R


def H(u, args, a, b, n, i):
    return None


def hess(u, x, extra=(), out=()):
    n = len(x)
    M = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            M[i, j] = u.term(x, *extra, out=out, d=((0, i), (0, j)))
    return M


def gradt(u, x, extra=()):
    return A(*[u.term(x, *extra, d=((0, i),)) for i in range(len(x))])


def c16():
    R = []
    for n in (1, 2, 3, 6):
        X = {"x": (n,), "s": (n,), "k": ()}
        U = {"f": (((n,), ()), ()), "a": (((n,),), ())}

        def run(m, v):
            f = lambda x, k: v.f(x, k)
            fk = lambda x, *, k: v.f(x, k)
            vg = lambda x, k: jax.value_and_grad(f)(x, k)
            fa = lambda x, k: (v.f(x, k), v.a(x))
            C = m.calc
            h = [C.hvp(lambda x: f(x, v.k), [v.x], [v.s]),
                 C.hvp_forward_over_reverse(f, [v.x], [v.s], v.k),
                 C.hvp_forward_over_reverse(fk, [v.x], [v.s], k=v.k),
                 C.hvp_forward_over_reverse(vg, [v.x], [v.s], v.k, value_and_grad=True),
                 C.hvp_forward_over_reverse(fa, [v.x], [v.s], v.k, has_aux=True),
                 C.hvp_reverse_over_reverse(f, [v.x], [v.s], v.k),
                 C.hvp_reverse_over_reverse(vg, [v.x], [v.s], v.k, value_and_grad=True),
                 C.hvp_reverse_over_reverse(fa, [v.x], [v.s], v.k, has_aux=True),
                 C.value_grad_hvp(f, v.x, v.k)[2](v.s),
                 C.value_grad_hvp(fk, v.x, k=v.k)[2](v.s),
                 C.value_grad_hvp(vg, v.x, v.k, value_and_grad=True)[2](v.s),
                 C.value_grad_hvp(fa, v.x, v.k, has_aux=True)[2](v.s)]
            vals = [C.value_grad_hvp(f, v.x, v.k)[:2], C.value_grad_hvp(vg, v.x, v.k, value_and_grad=True)[:2], C.value_grad_hvp(fa, v.x, v.k, has_aux=True)[:2]]
            aux = C.value_grad_hvp(fa, v.x, v.k, has_aux=True)[3]
            return h, vals, aux

        NM = ["hvp", "forward over reverse", "fwd-rev, keyword", "fwd-rev, value_and_grad", "fwd-rev, aux", "reverse over reverse", "rev-rev, value_and_grad", "rev-rev, aux",
              "value_grad_hvp", "value_grad_hvp, keyword", "value_grad_hvp, value_and_grad", "value_grad_hvp, aux"]

        def ens(v, o):
            Hs = matvec(hess(v.f, v.x, (v.k,)), v.s)
            g, y = gradt(v.f, v.x, (v.k,)), v.f.term(v.x, v.k)
            return [(nm + " equals H s", eqs(h, Hs)) for nm, h in zip(NM, o[0])] + [
                ("value %d" % i, eq(p[0], y)) for i, p in enumerate(o[1])] + [("gradient %d" % i, eqs(p[1], g)) for i, p in enumerate(o[1])] + [
                ("aux", eq(o[2], v.a.term(v.x)))]
        R.append(Contract("hvp[%d]" % n, [F + k for k in ("hvp", "hvp_forward_over_reverse", "hvp_reverse_over_reverse", "value_grad_hvp")], X, ufs=U, run=run, ensures=ens, n=2))

        R.append(Contract("hvp.damped[%d]" % n, F + "hvp_forward_over_reverse", dict(X, alpha=()), ufs={"f": (((n,), ()), ())}, n=2,
            run=lambda m, v: m.calc.hvp_forward_over_reverse(lambda x, k: v.f(x, k), [v.x], [v.s], v.k, alpha=v.alpha),
            ensures=lambda v, o: [("H s + alpha s", eqs(o, matvec(hess(v.f, v.x, (v.k,)), v.s) + v.alpha * v.s))]))
        R.append(Contract("hvp.linear[%d]" % n, F + "value_grad_hvp", dict(X, r=(n,), c=()), ufs={"f": (((n,), ()), ())}, n=2,
            run=lambda m, v: (lambda h: (h(v.s), h(v.r), h(v.s + v.c * v.r)))(m.calc.value_grad_hvp(lambda x, k: v.f(x, k), v.x, v.k)[2]),
            ensures=lambda v, o: [("linear", eqs(o[2], o[0] + v.c * o[1])), ("symmetric", eq(dot(v.r, o[0]), dot(v.s, o[1])))]))

    # structured parameters: every container, all variants, value-and-grad and auxiliary forms
    packs = {
        "dict": (lambda a, b: {"a": a, "b": b}, lambda t: (t["a"], t["b"])),
        "tuple": (lambda a, b: (a, b), lambda t: (t[0], t[1])),
        "list": (lambda a, b: [a, b], lambda t: (t[0], t[1])),
        "nested": (lambda a, b: {"w": [(a,), {"z": b}]}, lambda t: (t["w"][0][0], t["w"][1]["z"])),
        "flax-like": (lambda a, b: {"params": {"Dense_0": {"kernel": a, "bias": b}}}, lambda t: (t["params"]["Dense_0"]["kernel"], t["params"]["Dense_0"]["bias"])),
    }
    for nm, (pack, unpack) in packs.items():
        sx = (2, 2) if nm == "flax-like" else (2,)

        def run(m, v, pack=pack, unpack=unpack):
            f = lambda p, k: v.f(*unpack(p), k)
            fk = lambda p, *, k: v.f(*unpack(p), k)
            fa = lambda p, k: (f(p, k), {"aux": v.a(unpack(p)[1])})
            vg = lambda p, k: jax.value_and_grad(f)(p, k)
            va = lambda p, k: jax.value_and_grad(fa, has_aux=True)(p, k)
            P, S = pack(v.x, v.y), pack(v.s, v.r)
            C = m.calc
            h = []
            for g in (C.hvp_forward_over_reverse, C.hvp_reverse_over_reverse):
                h += [g(f, [P], [S], v.k), g(fk, [P], [S], k=v.k), g(vg, [P], [S], v.k, value_and_grad=True), g(fa, [P], [S], v.k, has_aux=True),
                      g(va, [P], [S], v.k, value_and_grad=True, has_aux=True)]
            h += [C.value_grad_hvp(f, P, v.k)[2](S), C.value_grad_hvp(fk, P, k=v.k)[2](S), C.value_grad_hvp(vg, P, v.k, value_and_grad=True)[2](S),
                  C.value_grad_hvp(fa, P, v.k, has_aux=True)[2](S), C.value_grad_hvp(va, P, v.k, value_and_grad=True, has_aux=True)[2](S)]
            d = [C.hvp_forward_over_reverse(f, [P], [S], v.k, alpha=v.c), C.hvp_forward_over_reverse(fa, [P], [S], v.k, alpha=v.c, has_aux=True)]
            r = [C.value_grad_hvp(f, P, v.k)[:2], C.value_grad_hvp(vg, P, v.k, value_and_grad=True)[:2]] + [
                (t[0], t[1], t[3]["aux"]) for t in (C.value_grad_hvp(fa, P, v.k, has_aux=True), C.value_grad_hvp(va, P, v.k, value_and_grad=True, has_aux=True))]
            return [unpack(t) for t in h], [unpack(t) for t in d], [(t[0],) + tuple(unpack(t[1])) + tuple(t[2:]) for t in r]

        def ens(v, o, sx=sx):
            x = (v.x, v.y, v.k)
            d = lambda *p: v.f.term(*x, d=p)
            n = int(np.prod(sx))
            s = list(np.asarray(v.s, dtype=object).reshape(-1))
            ha = A(*[sum([d((0, i), (0, j)) * s[j] for j in range(n)], ZERO) + d((0, i), (1, 0)) * v.r for i in range(n)])
            hb = sum([d((0, j), (1, 0)) * s[j] for j in range(n)], ZERO) + d((1, 0), (1, 0)) * v.r
            fl = lambda a: np.asarray(a, dtype=object).reshape(-1)
            W = ["forward over reverse", "reverse over reverse", "value_grad_hvp"]
            M = ["plain", "keyword", "value_and_grad", "aux", "value_and_grad, aux"]
            E = [("%s, %s" % (W[k // 5], M[k % 5]), and_(eqs(fl(o[0][k][0]), ha), eq(o[0][k][1], hb), TRUE if np.shape(o[0][k][0]) == sx else FALSE)) for k in range(15)]
            E += [("damped %d" % k, and_(eqs(fl(o[1][k][0]), ha + v.c * A(*s)), eq(o[1][k][1], hb + v.c * v.r))) for k in range(2)]
            for k, t in enumerate(o[2]):
                E.append(("value and gradient %d" % k, and_(eq(t[0], v.f.term(*x)), *[eq(fl(t[1])[i], d((0, i))) for i in range(n)], eq(t[2], d((1, 0))))))
                if k > 1:
                    E.append(("aux %d" % k, eq(t[3], v.a.term(v.y))))
            return E
        R.append(Contract("hvp.pytree[%s]" % nm, [F + "hvp_forward_over_reverse", F + "hvp_reverse_over_reverse", F + "value_grad_hvp"],
            {"x": sx, "y": (), "s": sx, "r": (), "c": (), "k": ()}, ufs={"f": ((sx, (), ()), ()), "a": (((),), ())}, run=run, ensures=ens, n=2))
    # a scalar variable, several variables
    def run_many(m, v):
        C, (a, k) = m.calc, extra(v)
        o, s = open_(v, v.f), shut(v, v.f)
        vg, vs = jax.value_and_grad(o), jax.value_and_grad(s)
        fr, rr, vh = C.hvp_forward_over_reverse, C.hvp_reverse_over_reverse, C.value_grad_hvp
        z = lambda r: (r[0], r[1], r[2](v.s))
        return [(fr(o, [v.x], [v.s], *a, **k), fr(s, [v.x], [v.s])), (fr(vg, [v.x], [v.s], *a, value_and_grad=True, **k), fr(vs, [v.x], [v.s], value_and_grad=True)),
                (fr(o, [v.x], [v.s], *a, alpha=0.5, **k), fr(s, [v.x], [v.s], alpha=0.5)),
                (rr(o, [v.x], [v.s], *a, **k), rr(s, [v.x], [v.s])), (rr(vg, [v.x], [v.s], *a, value_and_grad=True, **k), rr(vs, [v.x], [v.s], value_and_grad=True)),
                (z(vh(o, v.x, *a, **k)), z(vh(s, v.x))), (z(vh(vg, v.x, *a, value_and_grad=True, **k)), z(vh(vs, v.x, value_and_grad=True)))]
    R.append(Contract("hvp.many arguments", [F + t for t in ("hvp_forward_over_reverse", "hvp_reverse_over_reverse", "value_grad_hvp")], dict(MANY, x=(2,), s=(2,)),
        ufs=dict(MANYF, f=(((2,), ()), ())), n=2, run=run_many,
        ensures=lambda v, o: passes(v, o, ("forward over reverse", "forward over reverse, value_and_grad", "forward over reverse, damped", "reverse over reverse", "reverse over reverse, value_and_grad", "value_grad_hvp", "value_grad_hvp, value_and_grad"))))
    R.append(Contract("hvp.scalar", [F + "hvp", F + "hvp_forward_over_reverse", F + "hvp_reverse_over_reverse", F + "value_grad_hvp"], {"x": (), "s": (), "c": ()}, ufs={"f": (((),), ())}, n=2,
        run=lambda m, v: (m.calc.hvp(v.f, [v.x], [v.s]), m.calc.hvp_forward_over_reverse(v.f, [v.x], [v.s]), m.calc.hvp_reverse_over_reverse(v.f, [v.x], [v.s]), m.calc.value_grad_hvp(v.f, v.x)[2](v.s),
                          m.calc.hvp_forward_over_reverse(v.f, [v.x], [v.s], alpha=v.c)),
        ensures=lambda v, o: [("variant %d" % k, eq(o[k], v.f.term(v.x, d=((0, 0), (0, 0))) * v.s + (v.c * v.s if k == 4 else ZERO))) for k in range(5)]))
    R.append(Contract("hvp.primals", [F + "hvp", F + "hvp_forward_over_reverse"], {"x": (2,), "y": (), "s": (2,), "r": ()}, ufs={"f": (((2,), ()), ())}, n=2,
        run=lambda m, v: (m.calc.hvp(v.f, [v.x, v.y], [v.s, v.r]), m.calc.hvp_forward_over_reverse(v.f, [v.x, v.y], [v.s, v.r])),
        ensures=lambda v, o: [("derivative of the gradient along both tangents, variant %d" % k, and_(*[
            eq(o[k][i], sum([v.f.term(v.x, v.y, d=((0, i), (0, j))) * v.s[j] for j in range(2)], ZERO) + v.f.term(v.x, v.y, d=((0, i), (1, 0))) * v.r) for i in range(2)])) for k in range(2)]))
    return R
