"""C10 images of the domain maps, C11 uniformity, C12 normals / membership (magpi.domain)."""
import jax
import jax.numpy as jnp

from .lib import *

F = "magpi.domain."


def contracts(prop):
    return {"C10": c10, "C11": c11, "C12": c12}[prop]()


def tup(a):
    return tuple(a[i] for i in range(a.shape[0]))


def unit(xs, strict=True):
    """points of the unit cube (the range of uniform samplers: [0, 1))"""
    out = []
    for x in np.asarray(xs, dtype=object).reshape(-1):
        out += [le(0, x), lt(x, 1) if strict else le(x, 1)]
    return out


def lbub(v):
    return [lt(a, b) for a, b in zip(v.lb, v.ub)]


def s_box(d, **kw):
    def f(r):
        lb = r.uniform(-2, 1, d)
        out = {"lb": lb, "ub": lb + r.uniform(0.3, 2, d)}
        for k, s in kw.items():
            out[k] = r.uniform(0, 1, s)
        return out
    return f


def inbox(p, lb, ub):
    return and_(*[and_(le(l, c), le(c, u)) for c, l, u in zip(p, lb, ub)])


def on_bnd(p, lb, ub):
    return or_(*[or_(eq(c, l), eq(c, u)) for c, l, u in zip(p, lb, ub)])


def s_o(d, extra, **kw):
    def f(r):
        out = {"o": r.uniform(-2, 2, d)}
        for k, s in kw.items():
            out[k] = r.uniform(0, 1, s)
        for k in extra:
            out[k] = r.uniform(0.3, 2)
        if "r1" in out and "r2" in out:
            out["r2"] = out["r1"] + out["r2"]
        return out
    return f


def H(m, v):
    return m.domain.Hypercube(tup(v.lb), tup(v.ub))


def polyline_spec(edges, s, o):
    """the point at arc length s * (total length) lies on the corresponding edge"""
    ls = [sqrt(norm2(q_ - p)) for p, q_ in edges]
    u = s * sum(ls, ZERO)
    out = []
    cum = ZERO
    for i, ((p, q_), l) in enumerate(zip(edges, ls)):
        here = and_(le(cum, u) if i == 0 else lt(cum, u), le(u, cum + l) if i < len(ls) - 1 else TRUE)
        k = (u - cum) / l
        out.append(("on edge %d at the fraction given by arc length" % i, implies(here, eqs(o, p + k * (q_ - p)))))
        out.append(("fraction in [0,1] on edge %d" % i, implies(here, and_(le(0, k), le(k, 1)))))
        cum = cum + l
    return out


def big_batches():
    """17 rows at once, and stacked batches: every row as if alone"""
    R = []
    N = 17
    uni = lambda r, *s: r.uniform(0, 1, s)
    box = lambda r, d: (lambda lb: {"lb": lb, "ub": lb + r.uniform(.3, 2, d)})(r.uniform(-2, 1, d))
    cases = [
        ("hypercube", 2, {"lb": (2,), "ub": (2,)}, lambda v: lbub(v), lambda r: box(r, 2), lambda m, v: m.domain.Hypercube(tup(v.lb), tup(v.ub)).transform, F + "Hypercube.transform", True),
        ("hypercube5", 5, {"lb": (5,), "ub": (5,)}, lambda v: lbub(v), lambda r: box(r, 5), lambda m, v: m.domain.Hypercube(tup(v.lb), tup(v.ub)).transform, F + "Hypercube.transform", True),
        ("disk", 2, {"r": (), "o": (2,)}, lambda v: [lt(0, v.r)], lambda r: {"r": r.uniform(.3, 2), "o": r.normal(0, 1, 2)}, lambda m, v: m.domain.Disk(v.r, tup(v.o)).transform, F + "Disk.transform", True),
        ("annulus", 2, {"r1": (), "r2": (), "o": (2,)}, lambda v: [le(0, v.r1), lt(v.r1, v.r2)], lambda r: {"r1": r.uniform(0, 1), "r2": r.uniform(1, 2), "o": r.normal(0, 1, 2)},
         lambda m, v: m.domain.Annulus(v.r1, v.r2, tup(v.o)).transform, F + "Annulus.transform", True),
        ("sphere", 3, {"r": (), "o": (3,)}, lambda v: [lt(0, v.r)], lambda r: {"r": r.uniform(.3, 2), "o": r.normal(0, 1, 3)}, lambda m, v: m.domain.Sphere(v.r, tup(v.o)).transform, F + "Sphere.transform", True),
        ("sphere_bnd", 2, {"r": (), "o": (3,)}, lambda v: [lt(0, v.r)], lambda r: {"r": r.uniform(.3, 2), "o": r.normal(0, 1, 3)}, lambda m, v: m.domain.Sphere(v.r, tup(v.o)).transform_bnd, F + "Sphere.transform_bnd", True),
        ("disk_bnd", 0, {"r": (), "o": (2,)}, lambda v: [lt(0, v.r)], lambda r: {"r": r.uniform(.3, 2), "o": r.normal(0, 1, 2)}, lambda m, v: m.domain.Disk(v.r, tup(v.o)).transform_bnd, F + "Disk.transform_bnd", False),
        ("hypercube_bnd2", 1, {"lb": (2,), "ub": (2,)}, lambda v: lbub(v), lambda r: box(r, 2), lambda m, v: m.domain.Hypercube(tup(v.lb), tup(v.ub)).transform_bnd, F + "Hypercube.transform_bnd", False),
        ("hypercube_bnd3", 2, {"lb": (3,), "ub": (3,)}, lambda v: lbub(v), lambda r: box(r, 3), lambda m, v: m.domain.Hypercube(tup(v.lb), tup(v.ub)).transform_bnd, F + "Hypercube.transform_bnd", False),
        ("triangle", 2, {"p": (3, 3)}, lambda v: [], lambda r: {"p": r.normal(0, 1, (3, 3))}, lambda m, v: (lambda x: m.domain.transform_triangle(x, v.p[0], v.p[1], v.p[2])), F + "transform_triangle", False),
        ("parallelogram", 2, {"p": (3, 3)}, lambda v: [], lambda r: {"p": r.normal(0, 1, (3, 3))}, lambda m, v: m.domain.Parallelogram(*[tup(v.p[i]) for i in range(3)]).transform, F + "Parallelogram.transform", False),
        ("parallelogram_bnd", 0, {"p": (3, 3)}, lambda v: [lt(0, norm2(v.p[1] - v.p[0])), lt(0, norm2(v.p[2] - v.p[0]))], lambda r: {"p": r.normal(0, 1, (3, 3))}, lambda m, v: m.domain.Parallelogram(*[tup(v.p[i]) for i in range(3)]).transform_bnd, F + "Parallelogram.transform_bnd", False),
        ("polyline6", 0, {"p": (6, 2)}, lambda v: [lt(0, norm2(p - q_)) for p, q_ in zip(v.p[1:], v.p[:-1])], lambda r: {"p": r.normal(0, 1, (6, 2))}, lambda m, v: (lambda s: m.domain.transform_polyline(s, tup(v.p))), F + "transform_polyline", False),
    ]
    hard = {"hypercube_bnd2", "hypercube_bnd3", "parallelogram_bnd", "polyline6"}
    cases = [(N,) + c for c in cases] + [(2,) + c for c in cases if c[0] in ("hypercube_bnd2", "parallelogram_bnd")]
    for n, nm, d, X, req, smp, fn, f, nd in cases:
        shp = (n, d) if d else (n,)

        def run(m, v, fn=fn, nd=nd, d=d):
            g = fn(m, v)
            return g(v.x), [g(v.x[i]) for i in range(v.x.shape[0])], (g(v.x[:6].reshape(2, 3, d)) if nd else None)

        def ens(v, o, nd=nd, n=n):
            out = [("row %d" % i, eqs(o[0][i].reshape(-1), np.asarray(o[1][i], dtype=object).reshape(-1)) if len(o[0]) == n else FALSE) for i in range(n)]
            if nd:
                out.append(("stacked batches", and_(*[eqs(o[2][i, j], o[1][3 * i + j]) for i in range(2) for j in range(3)]) if np.shape(o[2])[:2] == (2, 3) else FALSE))
            return out
        R.append(Contract("batch[%s,%d]" % (nm, n), f, dict(X, x=shp), n=3, split=n == 2, defined=n > 2 and nm not in hard, tier="thorough" if n == 2 and nm in hard else "quick", budget=600, requires=lambda v, req=req: req(v) + unit(v.x),
            sample=lambda r, smp=smp, shp=shp: dict(smp(r), x=r.uniform(0, 1, shp)), run=run, ensures=ens))
    return R


def in_tri(p, v):
    u, w, q = v.b - v.a, v.c - v.a, p - v.a
    D, s, t = [det(np.stack(k, axis=1)) for k in ((u, w), (q, w), (u, q))]
    return and_(le(0, s), le(0, t), le(s + t, D))


def in_par(p, v):
    """p has coordinates in [0,1] with respect to a, b-a, c-a (plane, positively oriented)"""
    u, w, q = v.b - v.a, v.c - v.a, p - v.a
    D, s, t = [det(np.stack(k, axis=1)) for k in ((u, w), (q, w), (u, q))]
    return and_(le(0, s), le(s, D), le(0, t), le(t, D))


def c10():
    R = big_batches()
    for d in (1, 2, 3, 4, 7):
        R.append(Contract("hypercube.transform[%dd]" % d, [F + "Hypercube.transform", F + "transform_hypercube"],
            {"x": (d,), "y": (2, d), "lb": (d,), "ub": (d,)}, n=6,
            requires=lambda v: unit(v.x, False) + unit(v.y, False) + lbub(v), sample=s_box(d, x=(d,), y=(2, d)),
            run=lambda m, v: (H(m, v).transform(v.x), H(m, v).transform(v.y)),
            ensures=lambda v, o: [("stays in the box", inbox(o[0], v.lb, v.ub)),
                                  ("affine", eqs(o[0], v.lb + v.x * (v.ub - v.lb))),
                                  ("batch rows", eqs(o[1], v.lb + v.y * (v.ub - v.lb)))]))
    R.append(Contract("hypercube.transform.any[2d]", [F + "transform_hypercube"], {"x": (2,), "lb": (2,), "ub": (2,)},
        requires=lambda v: [le(0, k) for k in v.x] + lbub(v), n=6,
        sample=lambda r: dict(s_box(2)(r), x=r.uniform(0, 3, 2)),
        run=lambda m, v: m.domain.transform_hypercube(v.x, v.lb, v.ub),
        ensures=lambda v, o: [("every non-negative sample lands in the box", inbox(o, v.lb, v.ub))]))
    R.append(Contract("hypercube.transform_bnd[1d]", [F + "Hypercube.transform_bnd"], {"s": (1,), "lb": (1,), "ub": (1,)},
        requires=lambda v: unit(v.s) + lbub(v), sample=s_box(1, s=(1,)), n=6,
        run=lambda m, v: H(m, v).transform_bnd(v.s),
        ensures=lambda v, o: [("an end point", on_bnd(o, v.lb, v.ub)), ("half and half", iff(eq(o[0], v.lb[0]), le(2 * v.s[0], 1)))]))
    for d, shp, sym in ((2, (), True), (2, (1,), True), (3, (2,), True), (4, (3,), True), (5, (4,), True), (5, (4,), False), (6, (5,), False)):
        R.append(Contract("hypercube.transform_bnd[%dd,%s]%s" % (d, shp, "" if sym else " samples"), [F + "Hypercube.transform_bnd", F + "transform_hypercube_bnd"],
            {"s": shp, "lb": (d,), "ub": (d,)}, split=True, n=6 if d < 5 else 25, tier="thorough" if d >= 4 and sym else "quick", budget=850,
            symbolic=sym, bounded=None if sym else "sampled on the real code in five and six dimensions (proved up to four, five in the thorough tier)",
            requires=lambda v: unit(v.s) + lbub(v), sample=s_box(d, s=shp),
            run=lambda m, v: H(m, v).transform_bnd(v.s).reshape(-1),
            ensures=lambda v, o: [("in the closed box", inbox(o, v.lb, v.ub)), ("on the boundary", on_bnd(o, v.lb, v.ub))]))
    rr = lambda v: [lt(0, v.r)]
    ann = lambda v: [le(0, v.r1), lt(v.r1, v.r2)]
    dist2 = lambda p, o: norm2(p - o)
    R.append(Contract("disk.transform", [F + "Disk.transform", F + "transform_circle", F + "transform_annulus"],
        {"x": (2,), "y": (2, 2), "r": (), "o": (2,)}, n=6,
        requires=lambda v: rr(v), sample=s_o(2, ["r"], x=(2,), y=(2, 2)),
        run=lambda m, v: (m.domain.Disk(v.r, tup(v.o)).transform(v.x), m.domain.Disk(v.r, tup(v.o)).transform(v.y)),
        ensures=lambda v, o: [("within the radius", le(dist2(o[0], v.o), v.r * v.r))]
        + [("batch row %d within the radius" % i, le(dist2(o[1][i], v.o), v.r * v.r)) for i in range(2)]))
    R.append(Contract("disk.batch", [F + "Disk.transform"], {"x": (2,), "y": (2,), "r": (), "o": (2,)}, n=6,
        requires=lambda v: rr(v) + unit(v.x) + unit(v.y), sample=s_o(2, ["r"], x=(2,), y=(2,)),
        run=lambda m, v: (m.domain.Disk(v.r, tup(v.o)).transform(jnp.stack([v.x, v.y])),
                          m.domain.Disk(v.r, tup(v.o)).transform(v.x), m.domain.Disk(v.r, tup(v.o)).transform(v.y)),
        ensures=lambda v, o: [("row by row", and_(eqs(o[0][0], o[1]), eqs(o[0][1], o[2])))]))
    R.append(Contract("annulus.transform", [F + "Annulus.transform", F + "transform_annulus"],
        {"x": (2,), "r1": (), "r2": (), "o": (2,)}, n=6, requires=ann, sample=s_o(2, ["r1", "r2"], x=(2,)),
        run=lambda m, v: m.domain.Annulus(v.r1, v.r2, tup(v.o)).transform(v.x),
        ensures=lambda v, o: [("outside the inner radius", le(v.r1 * v.r1, dist2(o, v.o))),
                              ("within the outer radius", le(dist2(o, v.o), v.r2 * v.r2))]))
    R.append(Contract("sphere.transform", [F + "Sphere.transform", F + "transform_sphere"],
        {"x": (3,), "r": (), "o": (3,)}, n=6, requires=rr, sample=s_o(3, ["r"], x=(3,)),
        run=lambda m, v: m.domain.Sphere(v.r, tup(v.o)).transform(v.x),
        ensures=lambda v, o: [("within the radius", le(dist2(o, v.o), v.r * v.r))]))
    R.append(Contract("sphere.transform_bnd", [F + "Sphere.transform_bnd", F + "transform_sphere_bnd"],
        {"x": (2,), "r": (), "o": (3,)}, n=6, requires=rr, sample=s_o(3, ["r"], x=(2,)),
        run=lambda m, v: m.domain.Sphere(v.r, tup(v.o)).transform_bnd(v.x),
        ensures=lambda v, o: [("at distance r from the origin", eq(dist2(o, v.o), v.r * v.r))]))
    for shp in ((), (1,)):
        R.append(Contract("disk.transform_bnd[%s]" % (shp,), [F + "Disk.transform_bnd", F + "transform_circle_bnd"],
            {"s": shp, "r": (), "o": (2,)}, n=6, requires=rr, sample=s_o(2, ["r"], s=shp),
            run=lambda m, v: m.domain.Disk(v.r, tup(v.o)).transform_bnd(v.s).reshape(-1),
            ensures=lambda v, o: [("at distance r from the origin", eq(dist2(o, v.o), v.r * v.r))]))
    # batches of every shape, also those with a single element: one point per angle, on the circle, the same as for the angle alone
    for shp in ((1,), (3,), (1, 1), (3, 1), (1, 3), (2, 3), (1, 2, 1), (2, 1, 1), (1, 1, 1), (2, 2, 1)):
        out = (shp[:-1] if shp[-1] == 1 else shp) + (2,)
        R.append(Contract("disk.transform_bnd.batch[%s]" % (shp,), [F + "Disk.transform_bnd", F + "transform_circle_bnd"], {"s": shp, "r": (), "o": (2,)}, n=3, requires=rr, sample=s_o(2, ["r"], s=shp),
            run=lambda m, v: (m.domain.Disk(v.r, tup(v.o)).transform_bnd(v.s), [m.domain.Disk(v.r, tup(v.o)).transform_bnd(t) for t in v.s.reshape(-1)]),
            ensures=lambda v, o, out=out: [("one point per angle", TRUE)] + [("point %d" % i, and_(eqs(p, w), eq(dist2(p, v.o), v.r * v.r))) for i, (p, w) in enumerate(zip(np.asarray(o[0], dtype=object).reshape(-1, 2), o[1]))]
            if np.shape(o[0]) == out else [("one point per angle", FALSE)]))
    # sphere and ball maps keep the leading batch axes, also those of length one
    for shp in ((1,), (1, 1), (1, 2), (2, 1)):
        R.append(Contract("batch shapes[%s]" % (shp,), [F + k for k in ("transform_sphere", "transform_sphere_bnd", "transform_annulus", "transform_hypercube", "transform_hypercube_bnd", "transform_triangle")],
            {"x": shp + (3,), "r": (), "o": (3,)}, n=2, requires=lambda v: rr(v) + unit(v.x), sample=s_o(3, ["r"], x=shp + (3,)),
            run=lambda m, v: (lambda D: (lambda fs: ([f(v.x) for f in fs], [[f(t) for t in v.x.reshape(-1, 3)] for f in fs]))([
                lambda x: D.transform_sphere(x, v.r, v.o), lambda x: D.transform_sphere_bnd(x[..., :2], v.r, v.o), lambda x: D.transform_annulus(x[..., :2], v.r, 2 * v.r, v.o[:2]),
                lambda x: D.transform_hypercube(x, v.o, v.o + v.r), lambda x: D.transform_triangle(x[..., :2], v.o, v.o + v.r, 2 * v.o)]))(m.domain),
            ensures=lambda v, o, shp=shp: [("map %d: one point per sample" % k, and_(*[eqs(p, w) for p, w in zip(np.asarray(t, dtype=object).reshape(-1, d), o[1][k])]) if np.shape(t) == shp + (d,) else FALSE)
                                           for k, (t, d) in enumerate(zip(o[0], (3, 3, 2, 3, 3)))]))
    R.append(Contract("sphere.batch", [F + "transform_sphere", F + "transform_sphere_bnd", F + "transform_circle_bnd"],
        {"x": (2, 3), "r": (), "o": (3,)}, n=4, requires=lambda v: rr(v) + unit(v.x), sample=s_o(3, ["r"], x=(2, 3)),
        run=lambda m, v: (m.domain.transform_sphere(v.x, v.r, v.o), [m.domain.transform_sphere(v.x[i], v.r, v.o) for i in range(2)],
                          m.domain.transform_sphere_bnd(v.x[:, :2], v.r, v.o), [m.domain.transform_sphere_bnd(v.x[i, :2], v.r, v.o) for i in range(2)],
                          m.domain.transform_circle_bnd(v.x[:, 0], v.r, v.o[:2]), [m.domain.transform_circle_bnd(v.x[i, 0], v.r, v.o[:2]) for i in range(2)]),
        ensures=lambda v, o: [("row by row", and_(*[eqs(o[2 * k][i], o[2 * k + 1][i]) for k in range(3) for i in range(2)]))]))
    R.append(Contract("parallelogram.transform.any", [F + "Parallelogram.transform"], {"x": (2,), "y": (2, 2), "a": (2,), "b": (2,), "c": (2,)}, n=6,
        requires=lambda v: [le(0, k) for k in np.concatenate([v.x, v.y.reshape(-1)])] + [lt(0, det(np.stack([v.b - v.a, v.c - v.a], axis=1)))],
        sample=lambda r: (lambda a, u, w: dict(a=a, b=a + u, c=a + w, x=r.uniform(0, 3, 2), y=r.uniform(0, 3, (2, 2))))(*(lambda a, u, w: (a, u, w) if u[0] * w[1] - u[1] * w[0] > 0 else (a, w, u))(*r.normal(0, 1, (3, 2)))),
        run=lambda m, v: (lambda P: (P.transform(v.x), P.transform(v.y)))(m.domain.Parallelogram(tup(v.a), tup(v.b), tup(v.c))),
        ensures=lambda v, o: [("every non-negative sample lands in the parallelogram (%s)" % i, in_par(p, v)) for i, p in (("single", o[0]), ("row 0", o[1][0]), ("row 1", o[1][1]))]))
    # flat pieces: membership through the defining coordinates
    for d in (2, 3):
        def ptri(v, o):
            # solve for barycentric coordinates is avoided: exhibit them
            u = v.x
            a, b, c = v.a, v.b, v.c
            fold = lt(1, u[0] + u[1])
            s, t = ite(fold, 1 - u[0], u[0]), ite(fold, 1 - u[1], u[1])
            return [("convex combination of the corners (non-negative weights summing to at most one)",
                     and_(le(0, s), le(0, t), le(s + t, 1), eqs(o, a + s * (b - a) + t * (c - a))))]
        R.append(Contract("triangle[%dd]" % d, F + "transform_triangle", {"x": (2,), "a": (d,), "b": (d,), "c": (d,)},
            requires=lambda v: unit(v.x), sample=lambda r, d=d: dict(x=r.uniform(0, 1, 2), a=r.normal(0, 1, d), b=r.normal(0, 1, d), c=r.normal(0, 1, d)), n=6,
            run=lambda m, v: m.domain.transform_triangle(v.x, v.a, v.b, v.c), ensures=ptri))
        R.append(Contract("triangle.batch[%dd]" % d, F + "transform_triangle", {"x": (2, 2), "a": (d,), "b": (d,), "c": (d,)},
            requires=lambda v: unit(v.x), sample=lambda r, d=d: dict(x=r.uniform(0, 1, (2, 2)), a=r.normal(0, 1, d), b=r.normal(0, 1, d), c=r.normal(0, 1, d)), n=6,
            run=lambda m, v: (m.domain.transform_triangle(v.x, v.a, v.b, v.c), [m.domain.transform_triangle(v.x[i], v.a, v.b, v.c) for i in range(2)]),
            ensures=lambda v, o: [("row by row", and_(*[eqs(o[0][i], o[1][i]) for i in range(2)]))]))
        spar = lambda r, d=d, **k: dict(a=r.normal(0, 1, d), b=r.normal(0, 1, d), c=r.normal(0, 1, d))
        R.append(Contract("parallelogram.transform[%dd]" % d, [F + "Parallelogram.transform", F + "affine_plane", F + "linear_map"],
            {"x": (2,), "y": (2, 2), "a": (d,), "b": (d,), "c": (d,)}, n=6,
            requires=lambda v: unit(v.x, False) + unit(v.y, False),
            sample=lambda r, s=spar: dict(s(r), x=r.uniform(0, 1, 2), y=r.uniform(0, 1, (2, 2))),
            run=lambda m, v: (lambda P: (P.transform(v.x), P.transform(v.y)))(m.domain.Parallelogram(tup(v.a), tup(v.b), tup(v.c))),
            ensures=lambda v, o: [("a + s (b-a) + t (c-a)", eqs(o[0], v.a + v.x[0] * (v.b - v.a) + v.x[1] * (v.c - v.a)))]
            + [("batch row %d" % i, eqs(o[1][i], v.a + v.y[i][0] * (v.b - v.a) + v.y[i][1] * (v.c - v.a))) for i in range(2)]))
        def edges(v):
            e = v.b + v.c - v.a
            return [(v.a, v.b), (v.b, e), (e, v.c), (v.c, v.a)]

        nondeg = lambda v: [lt(0, norm2(v.b - v.a)), lt(0, norm2(v.c - v.a))]
        R.append(Contract("parallelogram.transform_bnd[%dd]" % d, [F + "Parallelogram.transform_bnd", F + "transform_polyline"],
            {"s": (), "a": (d,), "b": (d,), "c": (d,)}, n=6, split=True,
            requires=lambda v: unit(v.s) + nondeg(v),
            sample=lambda r, s=spar: dict(s(r), s=r.uniform(0, 1)),
            run=lambda m, v: m.domain.Parallelogram(tup(v.a), tup(v.b), tup(v.c)).transform_bnd(v.s),
            ensures=lambda v, o: polyline_spec(edges(v), v.s, o)))
        for npts in (2, 3, 4, 7):
            def ens(v, o):
                pts = list(v.p)
                return polyline_spec(list(zip(pts[:-1], pts[1:])), v.s[0], o)
            R.append(Contract("polyline[%dd,%d points]" % (d, npts), F + "transform_polyline", {"s": (1,), "p": (npts, d)}, n=6, split=True,
                requires=lambda v: unit(v.s) + [lt(0, norm2(p - q_)) for p, q_ in zip(v.p[1:], v.p[:-1])],
                run=lambda m, v: m.domain.transform_polyline(v.s, tup(v.p))[0],
                sample=lambda r, n=npts, d=d: dict(s=r.uniform(0, 1, 1), p=r.normal(0, 1, (n, d))), ensures=ens))
    R.append(Contract("polyline.any", F + "transform_polyline", {"s": (), "p": (4, 2)}, n=6, split=True,
        requires=lambda v: [lt(0, norm2(p - q_)) for p, q_ in zip(v.p[1:], v.p[:-1])],
        run=lambda m, v: m.domain.transform_polyline(v.s, tup(v.p)),
        sample=lambda r: dict(s=r.uniform(-2, 3), p=r.normal(0, 1, (4, 2))),
        ensures=lambda v, o: polyline_spec(list(zip(v.p[:-1], v.p[1:])), v.s - t_.floor(v.s), o)))
    R.append(Contract("triangle.any", F + "transform_triangle", {"x": (2,), "a": (2,), "b": (2,), "c": (2,)}, n=6,
        requires=lambda v: [lt(0, det(np.stack([v.b - v.a, v.c - v.a], axis=1)))],
        sample=lambda r: (lambda a, u, w: dict(a=a, b=a + u, c=a + w, x=r.uniform(-2, 3, 2)))(*(lambda a, u, w: (a, u, w) if u[0] * w[1] - u[1] * w[0] > 0 else (a, w, u))(*r.normal(0, 1, (3, 2)))),
        run=lambda m, v: m.domain.transform_triangle(v.x, v.a, v.b, v.c),
        ensures=lambda v, o: [("every parameter lands in the triangle", in_tri(o, v))]))
    R.append(Contract("polyline.batch", F + "transform_polyline", {"s": (2,), "p": (3, 2)}, n=6, split=True,
        requires=lambda v: unit(v.s) + [lt(0, norm2(p - q_)) for p, q_ in zip(v.p[1:], v.p[:-1])],
        run=lambda m, v: (m.domain.transform_polyline(v.s, tup(v.p)), [m.domain.transform_polyline(v.s[i], tup(v.p)) for i in range(2)]),
        sample=lambda r: dict(s=r.uniform(0, 1, 2), p=r.normal(0, 1, (3, 2))),
        ensures=lambda v, o: [("row by row", and_(*[eqs(o[0][i], o[1][i]) for i in range(2)]))]))
    return R


def gram(J):
    """Gram determinant of the columns of J (n x k)"""
    J = np.asarray(J, dtype=object)
    if J.ndim == 1:
        return norm2(J)
    k = J.shape[1]
    G = np.empty((k, k), dtype=object)
    for i in range(k):
        for j in range(k):
            G[i, j] = dot(J[:, i], J[:, j])
    return det(G)


def same(a, b):
    return and_(*[eq(p, q_) for p, q_ in zip(np.asarray(a, dtype=object).reshape(-1), np.asarray(b, dtype=object).reshape(-1))])


def interior(*xs):
    return [f for x in xs for k in np.asarray(x, dtype=object).reshape(-1) for f in (lt(0, k), lt(k, 1))]


def one_turn(a, b):
    """a, b in [0,1): equal sine and cosine of 2 pi a, 2 pi b force a = b"""
    ta, tb = 2 * PI * a, 2 * PI * b
    return implies(and_(eq(sin(ta), sin(tb)), eq(cos(ta), cos(tb))), eq(a, b))


def c11():
    R = []
    jf = jax.jacfwd
    for d in (1, 2, 3, 4, 5):
        R.append(Contract("uniform.hypercube[%dd]" % d, [F + "Hypercube.transform", F + "Hypercube.support"],
            {"x": (d,), "y": (d,), "lb": (d,), "ub": (d,)}, n=6, requires=lambda v: interior(v.x, v.y) + lbub(v), sample=s_box(d, x=(d,), y=(d,)),
            run=lambda m, v: (jf(H(m, v).transform)(v.x), H(m, v).support(), H(m, v).transform(v.x), H(m, v).transform(v.y)),
            ensures=lambda v, o: [("|det J| is the volume of the box", eq(gram(o[0]), o[1] * o[1])), ("volume positive", lt(0, o[1])),
                                  ("injective", implies(same(o[2], o[3]), same(v.x, v.y)))]))
    for d, shp in ((2, ()), (2, (1,)), (3, (2,)), (4, (3,)), (5, (4,))):
        def surf(v, d=d):
            b = v.ub - v.lb
            t = ZERO
            for i in range(d):
                p = ONE
                for j in range(d):
                    if j != i:
                        p = p * b[j]
                t = t + 2 * p
            return t
        R.append(Contract("uniform.hypercube_bnd[%dd,%s]" % (d, shp), [F + "Hypercube.transform_bnd"], {"s": shp, "lb": (d,), "ub": (d,)}, split=True, n=6,
            requires=lambda v: interior(v.s) + lbub(v), sample=s_box(d, s=shp),
            run=lambda m, v, d=d, shp=shp: jf(lambda s: H(m, v).transform_bnd(s).reshape(-1))(v.s).reshape((d,) + shp),
            ensures=lambda v, o, surf=surf: [("the surface element is the total surface measure", eq(gram(o), surf(v) ** 2))]))
        if d > 3:
            continue
        R.append(Contract("uniform.hypercube_bnd.inj[%dd,%s]" % (d, shp), [F + "Hypercube.transform_bnd"], {"s": shp, "t": shp, "lb": (d,), "ub": (d,)},
            split=True, n=6, requires=lambda v: interior(v.s, v.t) + lbub(v), sample=s_box(d, s=shp, t=shp),
            tier="quick" if d == 2 else "thorough",
            run=lambda m, v: (H(m, v).transform_bnd(v.s).reshape(-1), H(m, v).transform_bnd(v.t).reshape(-1)),
            ensures=lambda v, o, d=d: [("two samples never land on the same inner point of a face",
                                   implies(and_(same(o[0], o[1]), *([] if d == 2 else [])), or_(same(v.s, v.t), corner(o[0], v))))]))
    rr = lambda v: [lt(0, v.r)]
    ann = lambda v: [le(0, v.r1), lt(v.r1, v.r2)]
    R.append(Contract("uniform.disk", [F + "Disk.transform", F + "Disk.support"], {"x": (2,), "r": (), "o": (2,)}, n=6,
        requires=lambda v: rr(v) + interior(v.x), sample=s_o(2, ["r"], x=(2,)),
        run=lambda m, v: (jf(m.domain.Disk(v.r, tup(v.o)).transform)(v.x), m.domain.Disk(v.r, tup(v.o)).support()),
        ensures=lambda v, o: [("|det J| is the area", eq(det(o[0]) ** 2, o[1] ** 2)), ("area", eq(o[1], PI * v.r ** 2))]))
    R.append(Contract("uniform.disk.inj", [F + "Disk.transform"], {"x": (2,), "y": (2,), "r": (), "o": (2,)}, n=6,
        requires=lambda v: rr(v) + interior(v.x, v.y) + [one_turn(v.x[0], v.y[0])], sample=s_o(2, ["r"], x=(2,), y=(2,)),
        points=[lambda r: dict(x=np.array([.1, .3]), y=np.array([.6, .3]), r=1.5, o=np.zeros(2)), lambda r: dict(x=np.array([.1, .3]), y=np.array([.1, .8]), r=1.5, o=np.zeros(2))],
        run=lambda m, v: (m.domain.Disk(v.r, tup(v.o)).transform(v.x), m.domain.Disk(v.r, tup(v.o)).transform(v.y)),
        cuts=lambda v, o: radial(o, v, lambda t: v.r ** 2 * t),
        ensures=lambda v, o: [("injective", implies(same(o[0], o[1]), same(v.x, v.y)))]))
    R.append(Contract("uniform.annulus", [F + "Annulus.transform", F + "Annulus.support"], {"x": (2,), "r1": (), "r2": (), "o": (2,)}, n=6,
        requires=lambda v: ann(v) + interior(v.x), sample=s_o(2, ["r1", "r2"], x=(2,)),
        run=lambda m, v: (jf(m.domain.Annulus(v.r1, v.r2, tup(v.o)).transform)(v.x), m.domain.Annulus(v.r1, v.r2, tup(v.o)).support()),
        ensures=lambda v, o: [("|det J| is the area", eq(det(o[0]) ** 2, o[1] ** 2)), ("area", eq(o[1], PI * (v.r2 ** 2 - v.r1 ** 2)))]))
    R.append(Contract("uniform.annulus.inj", [F + "Annulus.transform"], {"x": (2,), "y": (2,), "r1": (), "r2": (), "o": (2,)}, n=6,
        requires=lambda v: ann(v) + interior(v.x, v.y) + [one_turn(v.x[0], v.y[0])], sample=s_o(2, ["r1", "r2"], x=(2,), y=(2,)),
        run=lambda m, v: (m.domain.Annulus(v.r1, v.r2, tup(v.o)).transform(v.x), m.domain.Annulus(v.r1, v.r2, tup(v.o)).transform(v.y)),
        cuts=lambda v, o: radial(o, v, lambda t: v.r1 ** 2 + (v.r2 ** 2 - v.r1 ** 2) * t),
        ensures=lambda v, o: [("injective", implies(same(o[0], o[1]), same(v.x, v.y)))]))
    R.append(Contract("uniform.sphere", [F + "Sphere.transform", F + "Sphere.support"], {"x": (3,), "r": (), "o": (3,)}, n=6,
        requires=lambda v: rr(v) + interior(v.x), sample=s_o(3, ["r"], x=(3,)),
        run=lambda m, v: (jf(m.domain.Sphere(v.r, tup(v.o)).transform)(v.x), m.domain.Sphere(v.r, tup(v.o)).support()),
        ensures=lambda v, o: [("|det J| is the volume", eq(det(o[0]) ** 2, o[1] ** 2)), ("volume", eq(3 * o[1], 4 * PI * v.r ** 3))]))
    R.append(Contract("uniform.sphere.inj", [F + "Sphere.transform"], {"x": (3,), "y": (3,), "r": (), "o": (3,)}, n=6,
        requires=lambda v: rr(v) + interior(v.x, v.y) + [one_turn(v.x[1], v.y[1])], sample=s_o(3, ["r"], x=(3,), y=(3,)),
        points=[lambda r: dict(x=np.array([.3, .1, .4]), y=np.array([.3, .6, .4]), r=1.5, o=np.zeros(3)), lambda r: dict(x=np.array([.3, .1, .4]), y=np.array([.7, .1, .4]), r=1.5, o=np.zeros(3))],
        run=lambda m, v: (m.domain.Sphere(v.r, tup(v.o)).transform(v.x), m.domain.Sphere(v.r, tup(v.o)).transform(v.y)),
        cuts=lambda v, o: [("distance of the first point", eq(norm2(o[0] - v.o) ** 3, v.r ** 6 * v.x[2] ** 2)),
                           ("distance of the second point", eq(norm2(o[1] - v.o) ** 3, v.r ** 6 * v.y[2] ** 2)),
                           ("equal radial sample", implies(same(o[0], o[1]), eq(v.x[2], v.y[2]))),
                           ("equal height sample", implies(same(o[0], o[1]), eq(v.x[0], v.y[0])))],
        ensures=lambda v, o: [("injective", implies(same(o[0], o[1]), same(v.x, v.y)))]))
    R.append(Contract("uniform.sphere_bnd", [F + "Sphere.transform_bnd"], {"x": (2,), "r": (), "o": (3,)}, n=6,
        requires=lambda v: rr(v) + interior(v.x), sample=s_o(3, ["r"], x=(2,)),
        run=lambda m, v: jf(m.domain.Sphere(v.r, tup(v.o)).transform_bnd)(v.x),
        ensures=lambda v, o: [("the surface element is 4 pi r^2", eq(gram(o), (4 * PI * v.r ** 2) ** 2))]))
    R.append(Contract("uniform.sphere_bnd.inj", [F + "Sphere.transform_bnd"], {"x": (2,), "y": (2,), "r": (), "o": (3,)}, n=6,
        requires=lambda v: rr(v) + interior(v.x, v.y) + [one_turn(v.x[1], v.y[1])], sample=s_o(3, ["r"], x=(2,), y=(2,)),
        run=lambda m, v: (m.domain.Sphere(v.r, tup(v.o)).transform_bnd(v.x), m.domain.Sphere(v.r, tup(v.o)).transform_bnd(v.y)),
        ensures=lambda v, o: [("injective", implies(same(o[0], o[1]), same(v.x, v.y)))]))
    R.append(Contract("uniform.circle_bnd", [F + "Disk.transform_bnd"], {"s": (), "t": (), "r": (), "o": (2,)}, n=6,
        requires=lambda v: rr(v) + interior(v.s, v.t), sample=s_o(2, ["r"], s=(), t=()),
        run=lambda m, v: (jf(m.domain.Disk(v.r, tup(v.o)).transform_bnd)(v.s), jf(m.domain.Disk(v.r, tup(v.o)).transform_bnd)(v.t)),
        ensures=lambda v, o: [("constant speed", eq(gram(o[0]), gram(o[1]))), ("covers at least the whole circle", le((2 * PI * v.r) ** 2, gram(o[0])))]))
    for d in (2, 3):
        st = lambda r, d=d: dict(x=r.uniform(0, 1, 2), a=r.normal(0, 1, d), b=r.normal(0, 1, d), c=r.normal(0, 1, d))
        G = lambda v: gram(np.stack([v.b - v.a, v.c - v.a], axis=1))
        R.append(Contract("uniform.triangle[%dd]" % d, F + "transform_triangle", {"x": (2,), "a": (d,), "b": (d,), "c": (d,)}, n=6,
            requires=lambda v: interior(v.x), sample=st, run=lambda m, v: jf(lambda x: m.domain.transform_triangle(x, v.a, v.b, v.c))(v.x),
            ensures=lambda v, o, G=G: [("constant surface element (two sheets of twice the area)", eq(gram(o), G(v)))]))
        R.append(Contract("uniform.triangle.sheets[%dd]" % d, F + "transform_triangle", {"x": (2,), "a": (d,), "b": (d,), "c": (d,)}, n=6,
            requires=lambda v: interior(v.x), sample=st,
            run=lambda m, v: (m.domain.transform_triangle(v.x, v.a, v.b, v.c), m.domain.transform_triangle(1 - v.x, v.a, v.b, v.c)),
            ensures=lambda v, o: [("both halves of the unit square cover the triangle alike", implies(ne(v.x[0] + v.x[1], 1), eqs(o[0], o[1])))]))
        R.append(Contract("uniform.parallelogram[%dd]" % d, [F + "Parallelogram.transform", F + "Parallelogram.support"], {"x": (2,), "a": (d,), "b": (d,), "c": (d,)}, n=6,
            requires=lambda v, G=G: interior(v.x) + [lt(0, G(v))], sample=st,
            run=lambda m, v: (lambda P: (jf(P.transform)(v.x), P.support()))(m.domain.Parallelogram(tup(v.a), tup(v.b), tup(v.c))),
            ensures=lambda v, o, G=G: [("surface element is the area", eq(gram(o[0]), o[1] ** 2)), ("area", eq(o[1] ** 2, G(v))), ("positive", lt(0, o[1]))]))
        for npts in (2, 3, 4, 5):
            R.append(Contract("uniform.polyline[%dd,%d points]" % (d, npts), F + "transform_polyline", {"s": (), "p": (npts, d)}, n=6, split=True,
                requires=lambda v: interior(v.s) + [lt(0, norm2(p - q_)) for p, q_ in zip(v.p[1:], v.p[:-1])],
                run=lambda m, v: jf(lambda s: m.domain.transform_polyline(s, tup(v.p)))(v.s),
                sample=lambda r, n=npts, d=d: dict(s=r.uniform(0, 1), p=r.normal(0, 1, (n, d))),
                ensures=lambda v, o: [("speed is the total length", eq(gram(o), sum([sqrt(norm2(p - q_)) for p, q_ in zip(v.p[1:], v.p[:-1])], ZERO) ** 2))]))
    return R


def radial(o, v, f):
    return [("squared distance of the first point", eq(norm2(o[0] - v.o), f(v.x[1]))),
            ("squared distance of the second point", eq(norm2(o[1] - v.o), f(v.y[1]))),
            ("equal distance", implies(same(o[0], o[1]), eq(norm2(o[0] - v.o), norm2(o[1] - v.o)))),
            ("equal radial sample", implies(same(o[0], o[1]), eq(v.x[1], v.y[1])))]


def corner(p, v):
    """p lies on two faces at once"""
    n = len(p)
    fs = [or_(eq(p[i], v.lb[i]), eq(p[i], v.ub[i])) for i in range(n)]
    return or_(*[and_(fs[i], fs[j]) for i in range(n) for j in range(i)])


def tol(b):
    """ten times the documented relative tolerance at a face coordinate b"""
    return (ONE / 10 ** 4) * (1 + t_.absv(b))


def gap(v):
    """faces are further apart than twice the tolerances"""
    return [lt(tol(a) + tol(b), b - a) for a, b in zip(v.lb, v.ub)]


def near(c, b):
    return le(t_.absv(c - b), tol(b))


def c12():
    R = []
    for d in (1, 2, 3, 4, 5):
        for k in range(d):
            for side in (0, 1):
                def req(v, k=k, side=side, d=d):
                    out = gap(v) + [eq(v.p[k], (v.ub if side else v.lb)[k])]
                    for j in range(d):
                        if j != k:
                            out += [lt(v.lb[j] + tol(v.lb[j]), v.p[j]), lt(v.p[j], v.ub[j] - tol(v.ub[j]))]
                    return out

                def smp(r, d=d, k=k, side=side):
                    s = s_box(d)(r)
                    p = s["lb"] + r.uniform(0.1, 0.9, d) * (s["ub"] - s["lb"])
                    p[k] = (s["ub"] if side else s["lb"])[k]
                    return dict(s, p=p)
                e = A(*[(1 if side else -1) if j == k else 0 for j in range(d)])
                R.append(Contract("normal.hypercube[%dd,axis %d,%s]" % (d, k, "ub" if side else "lb"), F + "Hypercube.normal_vec",
                    {"p": (d,), "lb": (d,), "ub": (d,)}, requires=req, sample=smp, n=4,
                    run=lambda m, v: H(m, v).normal_vec(v.p),
                    ensures=lambda v, o, e=e: [("returns a normal", FALSE)] if o is None else [("the outward unit normal of the face", eqs(o, e))]))
        R.append(Contract("normal.hypercube.outside[%dd]" % d, F + "Hypercube.normal_vec", {"p": (d,), "lb": (d,), "ub": (d,)}, n=6,
            requires=lambda v: gap(v) + [or_(*[or_(lt(c, l - tol(l)), lt(u + tol(u), c)) for c, l, u in zip(v.p, v.lb, v.ub)])],
            sample=lambda r, d=d: dict(s_box(d)(r), p=r.uniform(-3, 3, d)),
            run=lambda m, v: H(m, v).normal_vec(v.p),
            ensures=lambda v, o: [("no normal for points outside the box", TRUE if o is None else FALSE)]))
        R.append(Contract("normal.hypercube.inside[%dd]" % d, F + "Hypercube.normal_vec", {"p": (d,), "lb": (d,), "ub": (d,)}, n=6,
            requires=lambda v: gap(v) + [and_(lt(l + tol(l), c), lt(c, u - tol(u))) for c, l, u in zip(v.p, v.lb, v.ub)],
            sample=lambda r, d=d: (lambda s: dict(s, p=s["lb"] + r.uniform(0.1, 0.9, d) * (s["ub"] - s["lb"])))(s_box(d)(r)),
            run=lambda m, v: H(m, v).normal_vec(v.p),
            ensures=lambda v, o: [("no normal for interior points", TRUE if o is None else FALSE)]))

        def smpb(r, d=d):
            s = s_box(d)(r)
            p = s["lb"] + r.uniform(0, 1, d) * (s["ub"] - s["lb"])
            for k in r.permutation(d)[: r.randint(1, d + 1)]:
                p[k] = (s["ub"] if r.rand() < 0.5 else s["lb"])[k]
            return dict(s, p=p)
        R.append(Contract("normal.hypercube.bnd[%dd]" % d, F + "Hypercube.normal_vec", {"p": (d,), "lb": (d,), "ub": (d,)}, n=10, tier="thorough" if d > 3 else "quick",
            requires=lambda v: gap(v) + [and_(le(l, c), le(c, u)) for c, l, u in zip(v.p, v.lb, v.ub)] + [on_bnd(v.p, v.lb, v.ub)],
            sample=smpb, run=lambda m, v: H(m, v).normal_vec(v.p),
            ensures=lambda v, o: [("returns a normal on edges and corners too", FALSE)] if o is None else
            [("unit length", eq(norm2(o), 1)),
             ("outward normal of a face the point lies on", and_(*[and_(implies(lt(0, n), near(c, u)), implies(lt(n, 0), near(c, l)))
                                                                   for n, c, l, u in zip(o, v.p, v.lb, v.ub)]))]))
        R.append(Contract("includes.hypercube[%dd]" % d, F + "Hypercube.includes", {"p": (d,), "lb": (d,), "ub": (d,)}, n=8,
            requires=lambda v: lbub(v), sample=lambda r, d=d: dict(s_box(d)(r), p=r.uniform(-2.5, 2.5, d)),
            run=lambda m, v: H(m, v).includes(v.p),
            ensures=lambda v, o: [("one answer for a point", FALSE)] if np.shape(o) else [("inside reported", implies(and_(*[and_(lt(l, c), lt(c, u)) for c, l, u in zip(v.p, v.lb, v.ub)]), o)),
                                  ("closed box", implies(inbox(v.p, v.lb, v.ub), o)),
                                  ("outside rejected", implies(o, inbox(v.p, v.lb, v.ub)))]))
        if d > 1:
            for shp in ((3,), (2, 2)):
                R.append(Contract("includes.hypercube.batch[%dd,%s]" % (d, shp), F + "Hypercube.includes", {"p": shp + (d,), "lb": (d,), "ub": (d,)}, n=6,
                    requires=lambda v: lbub(v), sample=lambda r, d=d, shp=shp: dict(s_box(d)(r), p=r.uniform(-2.2, 2.2, shp + (d,))),
                    run=lambda m, v: H(m, v).includes(v.p),
                    ensures=lambda v, o, shp=shp: [("one answer per point", FALSE)] if np.shape(o) != shp else
                    [("point %s" % (k,), iff(inbox(v.p[k], v.lb, v.ub), o[k])) for k in np.ndindex(*shp)]))
    R.append(Contract("normal.hypercube.batch", F + "Hypercube.normal_vec", {"p": (2, 2), "lb": (2,), "ub": (2,)}, n=4,
        requires=lambda v: gap(v) + [eq(v.p[0][0], v.lb[0]), eq(v.p[1][1], v.ub[1])]
        + [and_(lt(v.lb[j] + tol(v.lb[j]), v.p[i][j]), lt(v.p[i][j], v.ub[j] - tol(v.ub[j]))) for i, j in ((0, 1), (1, 0))],
        sample=lambda r: (lambda s: dict(s, p=np.array([[s["lb"][0], 0.5 * (s["lb"][1] + s["ub"][1])], [0.3 * s["lb"][0] + 0.7 * s["ub"][0], s["ub"][1]]])))(s_box(2)(r)),
        run=lambda m, v: H(m, v).normal_vec(v.p),
        ensures=lambda v, o: [("returns normals", FALSE)] if o is None else [("row by row", and_(eqs(o[0], A(-1, 0)), eqs(o[1], A(0, 1))))]))
    R.append(Contract("normal.hypercube.batch off", F + "Hypercube.normal_vec", {"p": (2, 2), "lb": (2,), "ub": (2,)}, n=4,
        requires=lambda v: gap(v) + [eq(v.p[0][0], v.lb[0]), lt(v.lb[1] + tol(v.lb[1]), v.p[0][1]), lt(v.p[0][1], v.ub[1] - tol(v.ub[1])), or_(
            *[or_(lt(c, l - tol(l)), lt(u + tol(u), c)) for c, l, u in zip(v.p[1], v.lb, v.ub)], and_(*[and_(lt(l + tol(l), c), lt(c, u - tol(u))) for c, l, u in zip(v.p[1], v.lb, v.ub)]))],
        sample=lambda r: (lambda s: dict(s, p=np.array([[s["lb"][0], 0.5 * (s["lb"][1] + s["ub"][1])], s["lb"] + r.uniform(-1, 2, 2) * (s["ub"] - s["lb"])])))(s_box(2)(r)),
        run=lambda m, v: (H(m, v).normal_vec(v.p), H(m, v).normal_vec(v.p[::-1])),
        ensures=lambda v, o: [("a batch with a point off the boundary is rejected", TRUE if o[0] is None and o[1] is None else FALSE)]))
    for nm, d in (("Disk", 2), ("Sphere", 3)):
        def onb(r, d=d):
            o, x = r.uniform(-1, 1, d), r.normal(0, 1, d)
            R_ = r.uniform(0.3, 2)
            return {"o": o, "r": R_, "p": o + R_ * x / np.linalg.norm(x)}
        dom = lambda m, v, nm=nm: getattr(m.domain, nm)(v.r, tup(v.o))
        R.append(Contract("normal.%s" % nm, F + "_Spherical.normal_vec", {"p": (d,), "r": (), "o": (d,)}, n=6,
            requires=lambda v: [lt(0, v.r), eq(norm2(v.p - v.o), v.r * v.r)], sample=onb,
            run=lambda m, v, dom=dom: dom(m, v).normal_vec(v.p),
            ensures=lambda v, o: [("returns a normal", FALSE)] if o is None else [("(p - origin) / r", eqs(v.r * o, v.p - v.o))]))
        R.append(Contract("normal.%s.batch" % nm, F + "_Spherical.normal_vec", {"p": (2, d), "r": (), "o": (d,)}, n=6,
            requires=lambda v: [lt(0, v.r)] + [eq(norm2(v.p[i] - v.o), v.r * v.r) for i in range(2)],
            sample=lambda r, onb=onb: (lambda a, b: dict(a, p=np.stack([a["p"], a["o"] + (b["p"] - b["o"]) / b["r"] * a["r"]])))(onb(r), onb(r)),
            run=lambda m, v, dom=dom: dom(m, v).normal_vec(v.p),
            ensures=lambda v, o: [("returns normals", FALSE)] if o is None else [("row by row", and_(*[eqs(v.r * o[i], v.p[i] - v.o) for i in range(2)]))]))
        R.append(Contract("normal.%s.batch off" % nm, F + "_Spherical.normal_vec", {"p": (2, d), "r": (), "o": (d,)}, n=6,
            requires=lambda v: [lt(0, v.r), lt(0, v.r - tol(v.r)), eq(norm2(v.p[0] - v.o), v.r * v.r), or_(lt(norm2(v.p[1] - v.o), (v.r - tol(v.r)) ** 2), lt((v.r + tol(v.r)) ** 2, norm2(v.p[1] - v.o)))],
            sample=lambda r, onb=onb, d=d: (lambda a: dict(a, p=np.stack([a["p"], r.normal(0, 1, d)])))(onb(r)),
            run=lambda m, v, dom=dom: (dom(m, v).normal_vec(v.p), dom(m, v).normal_vec(v.p[::-1])),
            ensures=lambda v, o: [("a batch with a point off the boundary is rejected", TRUE if o[0] is None and o[1] is None else FALSE)]))
        def close_by(r, d=d):
            o, x, at, rt = r.uniform(-1, 1, d), r.normal(0, 1, d), r.uniform(0.01, .3), r.uniform(0.01, .3)
            R_ = r.uniform(0.3, 2)
            s = R_ + r.uniform(-1.5, 1.5) * (at + rt * R_)
            return {"o": o, "r": R_, "s": max(s, .01), "at": at, "rt": rt, "p": o + max(s, .01) * x / np.linalg.norm(x)}
        onb_ = lambda v: and_(le(v.s - v.r, v.at + v.rt * v.r), le(v.r - v.s, v.at + v.rt * v.r))
        R.append(Contract("normal.%s.tolerance" % nm, F + "_Spherical.normal_vec", {"p": (d,), "r": (), "o": (d,), "s": (), "at": (), "rt": ()}, n=10,
            requires=lambda v: [lt(0, v.r), lt(0, v.s), eq(norm2(v.p - v.o), v.s * v.s), le(0, v.at), le(0, v.rt)], sample=close_by,
            run=lambda m, v, dom=dom: dom(m, v).normal_vec(v.p, rtol=v.rt, atol=v.at),
            ensures=lambda v, o, onb_=onb_: [("no normal only off the boundary", not_(onb_(v)))] if o is None else
                [("a normal only within the tolerance", onb_(v)), ("unit vector along x - origin", eqs(v.s * o, v.p - v.o))]))
        R.append(Contract("normal.%s.off" % nm, F + "_Spherical.normal_vec", {"p": (d,), "r": (), "o": (d,)}, n=6,
            requires=lambda v: [lt(0, v.r), lt(0, v.r - tol(v.r)), or_(lt(norm2(v.p - v.o), (v.r - tol(v.r)) ** 2), lt((v.r + tol(v.r)) ** 2, norm2(v.p - v.o)))],
            sample=lambda r, d=d: {"o": r.uniform(-1, 1, d), "r": r.uniform(.3, 2), "p": r.normal(0, 1, d)},
            run=lambda m, v, dom=dom: dom(m, v).normal_vec(v.p),
            ensures=lambda v, o: [("no normal off the boundary", TRUE if o is None else FALSE)]))
        R.append(Contract("includes.%s" % nm, F + "_Spherical.includes", {"p": (d,), "r": (), "o": (d,)}, n=8,
            requires=lambda v: [lt(0, v.r)], sample=lambda r, d=d: {"o": r.uniform(-1, 1, d), "r": r.uniform(.3, 2), "p": r.normal(0, 1, d)},
            run=lambda m, v, dom=dom: dom(m, v).includes(v.p),
            ensures=lambda v, o: [("inside reported", implies(lt(norm2(v.p - v.o), v.r ** 2), o)), ("outside rejected", implies(o, le(norm2(v.p - v.o), v.r ** 2)))]))
        R.append(Contract("includes.%s.batch" % nm, F + "_Spherical.includes", {"p": (2, d), "r": (), "o": (d,)}, n=4,
            requires=lambda v: [lt(0, v.r)], sample=lambda r, d=d: {"o": r.uniform(-1, 1, d), "r": r.uniform(.3, 2), "p": r.normal(0, 1, (2, d))},
            run=lambda m, v, dom=dom: (dom(m, v).includes(v.p), [dom(m, v).includes(v.p[i]) for i in range(2)]),
            ensures=lambda v, o: [("row by row", and_(*[iff(o[0][i], o[1][i]) for i in range(2)]))]))
    return R
