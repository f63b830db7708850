"""C04-C07: R-functions and approximate distance functions."""
import jax
import jax.numpy as jnp
import numpy as np

from .lib import *

F = "magpi/r_fun.py:"


def contracts(prop):
    return {"C04": c04, "C05": c05, "C06": c06, "C07": c07}[prop]()


def sgn_is(val, pos, neg):
    """val > 0 iff pos, val < 0 iff neg"""
    return and_(iff(lt(0, val), pos), iff(lt(val, 0), neg))


def mn(a, b):
    return and_(lt(0, a), lt(0, b)), or_(lt(a, 0), lt(b, 0))


def mx(a, b):
    return or_(lt(0, a), lt(0, b)), and_(lt(a, 0), lt(b, 0))


GRID = [{"a": x, "b": y} for x in (-1.5, 0.0, 0.75) for y in (-2.0, 0.0, 1.25)]


def systems():
    """(name, constructor from (m, v), extra inputs, requires)"""
    S = []
    S.append(("RAlpha", lambda m, v: m.r_fun.RAlpha(v.al), {"al": ()}, lambda v: [lt(-1, v.al), le(v.al, 1)],
              [dict(g, al=al) for g in GRID for al in (-0.5, 0.0, 0.7, 1.0)]))
    for k in (0, 1, 2, 3, 4):
        S.append(("RAlphaM[m=%d]" % k, lambda m, v, k=k: m.r_fun.RAlphaM(k, v.al), {"al": ()},
                  lambda v: [lt(-1, v.al), le(v.al, 1)], [dict(g, al=al) for g in GRID for al in (-0.5, 0.0, 1.0)]))
    for p in (2, 4, 6, 8):
        S.append(("RP[p=%d]" % p, lambda m, v, p=p: m.r_fun.RP(p), {}, lambda v: [], GRID))
    for n in ("r0", "r1", "rp2", "rp4"):
        S.append((n, lambda m, v, n=n: getattr(m.r_fun, n), {}, lambda v: [], GRID))
    return S


def c04():
    R = []
    for name, mk, extra, req, pts in systems():
        cls = name.split("[")[0]
        cls = {"r0": "RAlpha", "r1": "RAlpha", "rp2": "RP", "rp4": "RP"}.get(cls, cls)
        R.append(Contract("rsys.%s" % name, [F + cls + ".conjunction", F + cls + ".disjunction"],
            dict({"a": (), "b": ()}, **extra), requires=req,
            run=lambda m, v, mk=mk: (mk(m, v).conjunction(v.a, v.b), mk(m, v).disjunction(v.a, v.b)),
            points=pts, n=6,
            ensures=lambda v, o: [("conjunction has the sign of min", sgn_is(o[0], *mn(v.a, v.b))),
                                  ("disjunction has the sign of max", sgn_is(o[1], *mx(v.a, v.b)))]))
        R.append(Contract("rsys.%s.demorgan" % name, [F + cls + ".conjunction", F + cls + ".disjunction"],
            dict({"a": (), "b": ()}, **extra), requires=req,
            run=lambda m, v, mk=mk: (mk(m, v).conjunction(-v.a, -v.b), mk(m, v).disjunction(v.a, v.b),
                                     mk(m, v).conjunction(v.b, v.a), mk(m, v).conjunction(v.a, v.b),
                                     mk(m, v).disjunction(v.b, v.a)),
            points=pts[:4], n=4,
            ensures=lambda v, o: [("De Morgan", eq(o[0], -o[1])), ("conjunction is symmetric", eq(o[2], o[3])),
                                  ("disjunction is symmetric", eq(o[4], o[1]))]))
    R.append(Contract("rsys.r1_is_min_max", F + "RAlpha", {"a": (), "b": ()},
        run=lambda m, v: (m.r_fun.r1.conjunction(v.a, v.b), m.r_fun.r1.disjunction(v.a, v.b)), points=GRID,
        ensures=lambda v, o: [("min", eq(o[0], minv(v.a, v.b))), ("max", eq(o[1], maxv(v.a, v.b)))]))
    R.append(Contract("rsys.RhoBlending", [F + "RhoBlending.conjunction", F + "RhoBlending.disjunction"],
        {"a": (), "b": (), "rho": ()}, requires=lambda v: [lt(0, v.rho)],
        run=lambda m, v: (m.r_fun.RhoBlending(v.rho).conjunction(v.a, v.b), m.r_fun.RhoBlending(v.rho).disjunction(v.a, v.b)),
        points=[dict(g, rho=r) for g in GRID for r in (0.5, 5.0)],
        ensures=lambda v, o: [
            ("equals R0 outside the blending zone", implies(le(v.rho * v.rho, v.a * v.a + v.b * v.b),
                and_(eq(o[0], v.a + v.b - sqrt(v.a * v.a + v.b * v.b)), eq(o[1], v.a + v.b + sqrt(v.a * v.a + v.b * v.b))))),
            ("blending only shrinks intersections and grows unions", and_(
                le(o[0], v.a + v.b - sqrt(v.a * v.a + v.b * v.b)), le(v.a + v.b + sqrt(v.a * v.a + v.b * v.b), o[1]))),
            ("De Morgan", eq(o[0] + o[1], 2 * (v.a + v.b)))]))
    for bad in ("al > 1", "al <= -1"):
        pass
    R.append(Contract("rsys.RAlpha_rejects", F + "RAlpha.__init__", {"al": ()},
        requires=lambda v: [or_(le(v.al, -1), lt(1, v.al))],
        run=lambda m, v: [m.r_fun.RAlpha(v.al), jnp.zeros(())][1],
        points=[{"al": -1.0}, {"al": 1.5}],
        raises=lambda v, e: TRUE if isinstance(e, AssertionError) else FALSE,
        ensures=lambda v, o: [("rejected", FALSE)]))
    R.append(Contract("rsys.RAlphaM_rejects", F + "RAlphaM.__init__", {"al": ()}, requires=lambda v: [or_(le(v.al, -1), lt(1, v.al))],
        run=lambda m, v: [m.r_fun.RAlphaM(2, v.al), jnp.zeros(())][1], points=[{"al": -1.0}, {"al": 1.5}],
        raises=lambda v, e: TRUE if isinstance(e, AssertionError) else FALSE, ensures=lambda v, o: [("rejected", FALSE)]))
    # larger orders, by the equation that determines the blend: (a + b -+ op)^p = a^p + b^p with -+(a + b - op) >= 0
    for p in (10, 12, 14, 16, 20, 32):
        R.append(Contract("rsys.RP_order[p=%d]" % p, [F + "RP.conjunction", F + "RP.disjunction"], {"a": (), "b": ()}, points=GRID, n=4, scale=1.5,
            run=lambda m, v, p=p: (m.r_fun.RP(p).conjunction(v.a, v.b), m.r_fun.RP(p).disjunction(v.a, v.b)),
            ensures=lambda v, o, p=p: (lambda c, d: [("conjunction: a + b - (a^p + b^p)^(1/p)", and_(le(0, c), eq(c ** p, v.a ** p + v.b ** p))),
                                                     ("disjunction: a + b + (a^p + b^p)^(1/p)", and_(le(0, d), eq(d ** p, v.a ** p + v.b ** p)))])(v.a + v.b - o[0], o[1] - v.a - v.b)))
    R.append(Contract("rsys.RP_rejects", F + "RP.__init__", {"a": ()}, run=lambda m, v: [_raises(AssertionError, lambda p=p: m.r_fun.RP(p)) for p in (1, 3, 5, 7)] + [v.a], n=2,
        ensures=lambda v, o: [("odd p = %d" % p, T(t)) for p, t in zip((1, 3, 5, 7), o)]))
    # the shipped instances are the documented systems
    R.append(Contract("rsys.instances", [F + "RAlpha", F + "RP"], {"a": (), "b": ()}, points=GRID, n=4,
        run=lambda m, v: [getattr(m.r_fun, n)(v.a, v.b) if callable(getattr(m.r_fun, n)) else (getattr(m.r_fun, n).conjunction(v.a, v.b), getattr(m.r_fun, n).disjunction(v.a, v.b)) for n in ("r0", "rp2", "rp4", "r1")],
        ensures=lambda v, o: [("r0", and_(eq(o[0][0], v.a + v.b - sqrt(v.a ** 2 + v.b ** 2)), eq(o[0][1], v.a + v.b + sqrt(v.a ** 2 + v.b ** 2)))),
                              ("rp2 is r0", and_(eq(o[1][0], o[0][0]), eq(o[1][1], o[0][1]))),
                              ("rp4", and_(eq((v.a + v.b - o[2][0]) ** 4, v.a ** 4 + v.b ** 4), le(o[2][0], v.a + v.b), eq(o[2][0] + o[2][1], 2 * (v.a + v.b)))),
                              ("r1", and_(eq(o[3][0], minv(v.a, v.b)), eq(o[3][1], maxv(v.a, v.b))))]))
    # set operations for every R-system satisfying the contract above (modular)
    for d in (1, 2, 3):
        R.append(setops(d))
    # ... and for the shipped systems, directly
    for name, mk, extra, req, pts in systems():
        if name in ("r0", "r1", "rp4"):
            R.append(setops_direct(name, mk))
    R.append(Contract("rsys.compose", F + "compose", {"x": (2,)},
        ufs={"f": (((2,),), ()), "g": (((2,),), ()), "h": (((2,),), ()), "conj": (((), ()), ())},
        run=lambda m, v: m.r_fun.compose(v.conj)(v.f, v.g, v.h)(v.x),
        axioms=AX, concrete=CONC,
        ensures=lambda v, o: [("intersection of all arguments", sgn_is(o,
            and_(*[lt(0, f.term(v.x)) for f in (v.f, v.g, v.h)]), or_(*[lt(f.term(v.x), 0) for f in (v.f, v.g, v.h)])))]))
    # every composition length; components of one vector valued function count separately
    for k in (1, 2, 4, 5):
        for op in ("conj", "disj"):
            R.append(Contract("rsys.compose[%s,%d]" % (op, k), F + "compose", {"x": (2,)}, ufs={"f": (((2,),), (k,)), op: (((), ()), ())}, axioms={op: AX[op]}, concrete={op: CONC[op]}, n=4,
                run=lambda m, v, k=k, op=op: (m.r_fun.compose(getattr(v, op))(*[lambda x, i=i: v.f(x)[i] for i in range(k)])(v.x), m.r_fun.compose(getattr(v, op))(v.f)(v.x),
                    m.r_fun.compose(getattr(v, op))([lambda x, i=i: v.f(x)[i] for i in range(k)])(v.x)),
                ensures=lambda v, o, k=k, op=op: [("%s %d" % (w, i), (lambda P, N: sgn_is(o[i], and_(*P) if op == "conj" else or_(*P), or_(*N) if op == "conj" else and_(*N)))(
                    [lt(0, v.f.term(v.x, out=(j,))) for j in range(k)], [lt(v.f.term(v.x, out=(j,)), 0) for j in range(k)])) for i, w in enumerate(("separate functions", "one vector valued function", "a list of functions"))]))
    return R


AX = {"conj": lambda u, a, o: [sgn_is(u, *mn(a[0], a[1]))],
      "disj": lambda u, a, o: [sgn_is(u, *mx(a[0], a[1]))]}
CONC = {"conj": lambda s: jnp.minimum, "disj": lambda s: jnp.maximum}


NAX = dict(AX)
for _n, _s in (("conj", 1), ("disj", -1)):
    # first order normalisation: at a zero of the active operand the operation behaves like that operand (proved for the shipped systems in C07)
    NAX["d:" + _n] = lambda u, a, o, d, s=_s: [implies(and_(eq(a[k], 0), lt(0, s * a[1 - k])), eq(u, 1 if d == ((k, 0),) else 0)) for k in (0, 1)] if len(d) == 1 else []
NCONC = {"conj": lambda s: lambda a, b: a + b - jnp.sqrt(a * a + b * b), "disj": lambda s: lambda a, b: a + b + jnp.sqrt(a * a + b * b)}


def absR(m, v):
    class R_(m.r_fun.RFun):
        def conjunction(self, a, b):
            return v.conj(a, b)

        def disjunction(self, a, b):
            return v.disj(a, b)
    return R_()


OPS = ("union", "intersection", "difference", "xor", "equivalence", "implication")


def op_spec(op, a, b):
    p, n = (lambda t: lt(0, t)), (lambda t: lt(t, 0))
    if op == "union":
        return mx(a, b)
    if op == "intersection":
        return mn(a, b)
    if op == "difference":
        return mn(a, -b)
    if op == "implication":
        return mx(-a, b)
    if op == "xor":
        return or_(and_(p(a), n(b)), and_(n(a), p(b))), or_(and_(p(a), p(b)), and_(n(a), n(b)))
    if op == "equivalence":
        return or_(and_(p(a), p(b)), and_(n(a), n(b))), or_(and_(p(a), n(b)), and_(n(a), p(b)))


def setops(d):
    sh = (d,)
    return Contract("rsys.set_operations[%dd]" % d, [F + "RFun." + o for o in OPS + ("negate",)], {"x": sh},
        ufs={"f": ((sh,), ()), "g": ((sh,), ()), "conj": (((), ()), ()), "disj": (((), ()), ())},
        run=lambda m, v: ([getattr(absR(m, v), o)(v.f, v.g)(v.x) for o in OPS], absR(m, v).negate(v.f)(v.x)),
        axioms=AX, concrete=CONC, n=24,
        ensures=lambda v, o: [(op, sgn_is(o[0][i], *op_spec(op, v.f.term(v.x), v.g.term(v.x)))) for i, op in enumerate(OPS)]
        + [("negate", eq(o[1], -v.f.term(v.x)))])


def setops_direct(name, mk):
    return Contract("rsys.%s.set_operations" % name, [F + "RFun." + o for o in OPS], {"a": (), "b": ()},
        run=lambda m, v: [getattr(mk(m, v), o)(lambda x: x[0], lambda x: x[1])(jnp.stack([v.a, v.b])) for o in
                          ("union", "intersection", "difference", "implication")],
        points=GRID, n=6,
        ensures=lambda v, o: [(op, sgn_is(o[i], *op_spec(op, v.a, v.b))) for i, op in
                              enumerate(("union", "intersection", "difference", "implication"))])


# -- C05 primitives ------------------------------------------------------------
def inside_box(x, lb, ub):
    return (and_(*[and_(lt(l, xi), lt(xi, u)) for xi, l, u in zip(x, lb, ub)]),
            or_(*[or_(lt(xi, l), lt(u, xi)) for xi, l, u in zip(x, lb, ub)]))


def mins(xs):
    r = xs[0]
    for x in xs[1:]:
        r = minv(r, x)
    return r


def c05():
    R = []
    pos = lambda e: [lt(0, k) for k in e]
    for d in (1, 2, 3, 4):
        for cen in (False, True):
            def spec(v, o, cen=cen):
                lb = [-k / 2 if cen else ZERO for k in v.e]
                ub = [k / 2 if cen else k for k in v.e]
                return [("positive inside, zero on the boundary, negative outside", sgn_is(o, *inside_box(v.x, lb, ub)))]
            R.append(Contract("adf.cuboid[%dd,centered=%s]" % (d, cen), F + "cuboid", {"x": (d,), "e": (d,)},
                ufs={"conj": (((), ()), ()), "disj": (((), ()), ())}, requires=lambda v: pos(v.e),
                run=lambda m, v, cen=cen: m.r_fun.cuboid(v.e, cen, absR(m, v))(v.x), axioms=AX, concrete=CONC,
                sample=lambda r, d=d: {"x": r.uniform(-1, 2, d), "e": r.uniform(0.5, 2, d)},
                ensures=spec))
    for sysn in ("r0", "r1"):
        for cen in (False, True):
            def spec(v, o, cen=cen):
                lb = [-k / 2 if cen else ZERO for k in v.e]
                ub = [k / 2 if cen else k for k in v.e]
                return [("sign", sgn_is(o, *inside_box(v.x, lb, ub)))]
            R.append(Contract("adf.cuboid.%s[1d,centered=%s]" % (sysn, cen), F + "cuboid", {"x": (1,), "e": (1,)}, requires=lambda v: pos(v.e),
                run=lambda m, v, cen=cen, s=sysn: m.r_fun.cuboid(v.e, cen, getattr(m.r_fun, s))(v.x),
                sample=lambda r: {"x": r.uniform(-1, 2, 1), "e": r.uniform(0.5, 2, 1)}, ensures=spec))
    R.append(Contract("adf.cuboid_default[1d]", F + "cuboid", {"x": (1,), "e": (1,)}, requires=lambda v: pos(v.e),
        run=lambda m, v: (m.r_fun.cuboid(v.e)(v.x), m.r_fun.cube(v.e[0])(v.x)),
        sample=lambda r: {"x": r.uniform(-1, 2, 1), "e": r.uniform(0.5, 2, 1)},
        ensures=lambda v, o: [("sign", sgn_is(o[0], *inside_box(v.x, [ZERO], list(v.e)))),
                              ("cube sign", sgn_is(o[1], *inside_box(v.x, [ZERO], list(v.e))))]))
    # the default system is r0, whose cuboids obey the contract above because r0 obeys the contract of an R-system (C04)
    for d in (2, 3):
        R.append(Contract("adf.cuboid_default[%dd]" % d, [F + "cuboid", F + "cube"], {"x": (d,), "e": (d,), "k": ()}, requires=lambda v: pos(v.e) + [lt(0, v.k)], n=4,
            sample=lambda r, d=d: {"x": r.uniform(-1, 2, d), "e": r.uniform(0.5, 2, d), "k": r.uniform(0.5, 2)},
            run=lambda m, v, d=d: (m.r_fun.cuboid(v.e)(v.x), m.r_fun.cuboid(v.e, False, m.r_fun.r0)(v.x), m.r_fun.cuboid(v.e, True)(v.x), m.r_fun.cuboid(v.e)(v.x + v.e / 2),
                              m.r_fun.cube(v.k)(v.x), m.r_fun.cuboid(jnp.stack([v.k] * d))(v.x), m.r_fun.cuboid([v.e[i] for i in range(d)])(v.x), m.r_fun.cube(v.k, True)(v.x), m.r_fun.cube(v.k)(v.x + v.k / 2)),
            ensures=lambda v, o: [("r0 by default", eq(o[0], o[1])), ("centering moves the box", eq(o[2], o[3])), ("cube is a cuboid", eq(o[4], o[5])), ("edge lengths as a list", eq(o[6], o[0])), ("centering moves the cube", eq(o[7], o[8]))]))
        for cen in (False, True):
            R.append(Contract("adf.cuboid.r1[%dd,centered=%s]" % (d, cen), F + "cuboid", {"x": (d,), "e": (d,)}, requires=lambda v: pos(v.e), n=4,
                run=lambda m, v, cen=cen: m.r_fun.cuboid(v.e, cen, m.r_fun.r1)(v.x), sample=lambda r, d=d: {"x": r.uniform(-1, 2, d), "e": r.uniform(0.5, 2, d)},
                ensures=lambda v, o, cen=cen: [("signed distance to the nearest face", eq(o, mins([k / 2 - x if cen else k - x for k, x in zip(v.e, v.x)] + [x + k / 2 if cen else x for k, x in zip(v.e, v.x)])))]))
    for cen in (False, True):
        R.append(Contract("adf.cube[3d,centered=%s]" % cen, F + "cube", {"x": (3,), "e": ()},
            ufs={"conj": (((), ()), ()), "disj": (((), ()), ())}, requires=lambda v: [lt(0, v.e)],
            run=lambda m, v, cen=cen: m.r_fun.cube(v.e, cen, absR(m, v))(v.x), axioms=AX, concrete=CONC,
            sample=lambda r: {"x": r.uniform(-1, 2, 3), "e": r.uniform(0.5, 2)},
            ensures=lambda v, o, cen=cen: [("sign", sgn_is(o, *inside_box(v.x, [-v.e / 2 if cen else ZERO] * 3,
                                                                        [v.e / 2 if cen else v.e] * 3)))]))
    for d in (1, 2, 3, 4, 7, 16):
        R.append(Contract("adf.sphere[%dd]" % d, F + "sphere", {"x": (d,), "r": ()}, requires=lambda v: [lt(0, v.r)],
            run=lambda m, v: m.r_fun.sphere(v.r)(v.x),
            ensures=lambda v, o, d=d: ([("sign of r - |x|", sgn_is(o, lt(norm2(v.x), v.r * v.r), lt(v.r * v.r, norm2(v.x))))] if d < 5 else []) + [
                                  ("value", eq(2 * v.r * o, v.r * v.r - norm2(v.x)))]))
        if d > 4:
            continue
        R.append(Contract("adf.ellipsoid[%dd]" % d, F + "ellipsoid", {"x": (d,), "e": (d,)},
            requires=lambda v: pos(v.e),
            run=lambda m, v: m.r_fun.ellipsoid(v.e)(v.x), tier="quick" if d < 4 else "thorough", points=[{"x": np.zeros(d), "e": np.arange(1., d + 1)}],
            sample=lambda r, d=d: {"x": r.uniform(-2, 2, d), "e": r.uniform(0.5, 2, d)},
            ensures=lambda v, o: [("sign", sgn_is(o, lt(sum((v.x / v.e) ** 2, ZERO), 1), lt(1, sum((v.x / v.e) ** 2, ZERO))))]))
    R.append(Contract("adf.cylinder", F + "cylinder", {"x": (3,), "r": ()}, requires=lambda v: [lt(0, v.r)],
        run=lambda m, v: m.r_fun.cylinder(v.r)(v.x),
        ensures=lambda v, o: [("sign of r - dist to axis", sgn_is(o, lt(norm2(v.x[:2]), v.r * v.r), lt(v.r * v.r, norm2(v.x[:2]))))]))
    return R


# -- C06 transformations ------------------------------------------------------
def c06():
    R = []
    uf = lambda d: {"f": (((d,),), ())}
    for d in (1, 2, 3):
        X = {"x": (d,), "y": (d,)}
        R.append(Contract("adf.translate[%dd]" % d, F + "translate", X, ufs=uf(d),
            run=lambda m, v: m.r_fun.translate(v.f, v.y)(v.x + v.y),
            ensures=lambda v, o: [("shape is moved by y", eq(o, v.f.term(v.x)))]))
        R.append(Contract("adf.scale[%dd]" % d, F + "scale", {"x": (d,), "s": ()}, ufs=uf(d), requires=lambda v: [lt(0, v.s)],
            run=lambda m, v: m.r_fun.scale(v.f, v.s)(v.s * v.x),
            ensures=lambda v, o: [("shape is enlarged by s, distances too", eq(o, v.s * v.f.term(v.x)))]))
        R.append(Contract("adf.scale_without_normalization[%dd]" % d, F + "scale_without_normalization", {"x": (d,), "s": (d,)}, ufs=uf(d),
            requires=lambda v: [lt(0, k) for k in v.s],
            run=lambda m, v: m.r_fun.scale_without_normalization(v.f, v.s)(v.s * v.x),
            ensures=lambda v, o: [("coordinatewise", eq(o, v.f.term(v.x)))]))
    R.append(Contract("adf.vectors as lists", [F + k for k in ("translate", "scale", "scale_without_normalization", "rotate2d", "reflect", "project")], {"x": (2,), "y": (2,), "n": (2,), "s": ()}, ufs=uf(2),
        requires=lambda v: [lt(0, v.s), lt(0, v.y[0]), lt(0, v.y[1]), ne(norm2(v.n), 0)], n=4, sample=lambda r: {"x": r.normal(0, 1, 2), "y": r.uniform(0.3, 2, 2), "n": r.normal(0, 1, 2), "s": r.uniform(0.3, 2)},
        run=lambda m, v: (lambda S, y, n: [(g(y, n, v.s), g(v.y, v.n, jnp.stack([v.s]))) for g in (
            lambda y, n, s: S.translate(v.f, y)(v.x), lambda y, n, s: S.scale(v.f, s)(v.x), lambda y, n, s: S.scale_without_normalization(v.f, y)(v.x), lambda y, n, s: S.scale_without_normalization(v.f, s)(v.x),
            lambda y, n, s: S.rotate2d(v.f, v.s, y)(v.x), lambda y, n, s: S.reflect(v.f, n, y)(v.x), lambda y, n, s: S.project(v.f, n, y)(v.x))] + [S.scale_without_normalization(v.f, v.s)(v.x * v.s)])(m.r_fun, [v.y[0], v.y[1]], (v.n[0], v.n[1])),
        ensures=lambda v, o: [("same as arrays %d" % k, eq(*t)) for k, t in enumerate(o[:-1])] + [("one factor for all coordinates", eq(o[-1], v.f.term(v.x)))]))
    R.append(Contract("adf.scale_rejects", F + "scale", {"s": (2,), "w": (3,)}, ufs=uf(2), n=2, run=lambda m, v: [_raises(AssertionError, lambda: m.r_fun.scale(v.f, v.s)), _raises(AssertionError, lambda: m.r_fun.scale(v.f, v.w)), jnp.zeros(())],
        ensures=lambda v, o: [("factors per coordinate do not preserve distances", and_(T(o[0]), T(o[1])))]))
    R.append(Contract("adf.shape_rejects", [F + k for k in ("rotate2d", "rotate3d", "revolution")], {"x": (3,), "t": ()}, ufs=uf(2), n=2,
        run=lambda m, v: [_raises((AssertionError, TypeError), lambda: m.r_fun.rotate2d(lambda x: x[0], v.t)(v.x)), _raises((AssertionError, TypeError), lambda: m.r_fun.rotate3d(lambda x: x[0], v.t, v.x)(v.x[:2])),
                          _raises((AssertionError, TypeError), lambda: m.r_fun.revolution(v.f)(v.x[:2])), _raises(ValueError, lambda: m.r_fun.revolution(v.f, 2)(v.x)), jnp.zeros(())],
        ensures=lambda v, o: [("points of the wrong dimension, or an unknown axis, are rejected", and_(*map(T, o[:4])))]))
    for d in (2, 3):
        nz = lambda v: [ne(norm2(v.n), 0)]
        refl = lambda x, n: A(*[x[i] - 2 * dot(x, n) * n[i] / norm2(n) for i in range(len(x))])
        proj = lambda x, n: A(*[x[i] - dot(x, n) * n[i] / norm2(n) for i in range(len(x))])
        R.append(Contract("adf.reflect[%dd]" % d, F + "reflect", {"x": (d,), "n": (d,), "o": (d,)}, ufs=uf(d), requires=nz,
            run=lambda m, v: (m.r_fun.reflect(v.f, v.n, v.o)(v.x), m.r_fun.reflect(m.r_fun.reflect(v.f, v.n, v.o), v.n, v.o)(v.x),
                              m.r_fun.reflect(v.f, v.n)(v.x)),
            ensures=lambda v, o: [("mirror image in the plane through o", eq(o[0], v.f.term(refl(v.x - v.o, v.n) + v.o))),
                                  ("involution", eq(o[1], v.f.term(v.x))), ("default origin", eq(o[2], v.f.term(refl(v.x, v.n))))]))
        R.append(Contract("adf.project[%dd]" % d, F + "project", {"x": (d,), "n": (d,), "o": (d,)}, ufs=uf(d), requires=nz,
            run=lambda m, v: (m.r_fun.project(v.f, v.n, v.o)(v.x), m.r_fun.project(v.f, v.n)(v.x)),
            ensures=lambda v, o: [("orthogonal projection onto the plane through o", eq(o[0], v.f.term(proj(v.x - v.o, v.n) + v.o))),
                                  ("default origin", eq(o[1], v.f.term(proj(v.x, v.n))))]))
    rot = lambda t, x: A(cos(t) * x[0] - sin(t) * x[1], sin(t) * x[0] + cos(t) * x[1])
    R.append(Contract("adf.rotate2d", F + "rotate2d", {"x": (2,), "t": (), "o": (2,)}, ufs=uf(2),
        run=lambda m, v: (m.r_fun.rotate2d(v.f, v.t, v.o)(v.x), m.r_fun.rotate2d(v.f, v.t)(v.x)),
        ensures=lambda v, o: [("counter-clockwise about o", eq(o[0], v.f.term(rot(-v.t, v.x - v.o) + v.o))),
                              ("about the origin", eq(o[1], v.f.term(rot(-v.t, v.x))))]))
    for k in (1, 2, 3, -1):
        R.append(Contract("adf.rotate2d_int[%d]" % k, F + "rotate2d", {"x": (2,)}, ufs=uf(2),
            run=lambda m, v, k=k: m.r_fun.rotate2d(v.f, k)(v.x),
            ensures=lambda v, o, k=k: [("integer angle", eq(o, v.f.term(rot(q(-k), v.x))))]))

    from .quat import _rodrigues, _rx
    R.append(Contract("adf.rotate3d_axis", [F + "rotate3d", "magpi/quaternions.py:quaternion_rotation"],
        {"x": (3,), "t": (), "n": (3,), "o": (3,)}, ufs=uf(3),
        requires=lambda v: [ne(norm2(v.n), 0)],
        run=lambda m, v: (m.r_fun.rotate3d(v.f, v.t, v.n, v.o)(m.quaternions.quaternion_rotation(v.x - v.o, m.quaternions.from_axis_angle(v.t, v.n)) + v.o),
                          m.r_fun.rotate3d(v.f, v.t, v.n, v.o)(v.x)),
        ensures=lambda v, o: [("moves the body by the quaternion rotation about o", eq(o[0], v.f.term(v.x))),
                              ("pull-back", eq(o[1], v.f.term(_rodrigues(v.x - v.o, v.n, v.t) + v.o)))]))
    R.append(Contract("adf.rotate3d_euler", [F + "rotate3d", "magpi/quaternions.py:quaternion_rotation"],
        {"x": (3,), "p": (3,), "o": (3,)}, ufs=uf(3),
        run=lambda m, v: m.r_fun.rotate3d(v.f, v.p, None, v.o)(m.quaternions.quaternion_rotation(v.x - v.o, m.quaternions.from_euler_angles(v.p)) + v.o),
        ensures=lambda v, o: [("moves the body by the quaternion rotation about o", eq(o, v.f.term(v.x)))]))
    R.append(Contract("adf.rotate3d_origin", F + "rotate3d", {"x": (3,), "t": (), "n": (3,), "p": (3,)}, ufs=uf(3), requires=lambda v: [ne(norm2(v.n), 0)],
        run=lambda m, v: (m.r_fun.rotate3d(v.f, v.t, v.n)(v.x), m.r_fun.rotate3d(v.f, v.p)(m.quaternions.quaternion_rotation(v.x, m.quaternions.from_euler_angles(v.p))), m.r_fun.rotate3d(v.f, v.t, v.n, (0.0, 0.0, 0.0))(v.x)),
        ensures=lambda v, o: [("axis: about the origin by default", eq(o[0], v.f.term(_rodrigues(v.x, v.n, v.t)))), ("Euler angles: about the origin by default", eq(o[1], v.f.term(v.x))), ("origin as a tuple", eq(o[2], o[0]))]))
    R.append(Contract("adf.revolution_default", F + "revolution", {"x": (3,)}, ufs=uf(2), run=lambda m, v: m.r_fun.revolution(v.f)(v.x),
        ensures=lambda v, o: [("around the x axis by default", eq(o, v.f.term(A(v.x[0], sqrt(v.x[1] ** 2 + v.x[2] ** 2)))))]))
    R.append(Contract("adf.rotate3d_rejects", F + "rotate3d", {"t": (), "p": (3,), "w": (2,), "n": (3,)}, ufs=uf(3),
        run=lambda m, v: [_raises(ValueError, lambda: m.r_fun.rotate3d(v.f, v.t)), _raises(ValueError, lambda: m.r_fun.rotate3d(v.f, v.p, v.n)),
                          _raises(ValueError, lambda: m.r_fun.rotate3d(v.f, v.w)), jnp.zeros(())],
        ensures=lambda v, o: [("scalar angle without axis", T(o[0])), ("Euler angles with axis", T(o[1])), ("other shapes", T(o[2]))]))
    for ax in (0, 1):
        R.append(Contract("adf.revolution[%d]" % ax, F + "revolution", {"x": (3,), "t": ()}, ufs=uf(2),
            run=lambda m, v, ax=ax: (m.r_fun.revolution(v.f, ax)(v.x), m.r_fun.revolution(v.f, ax)(_spin(v.x, v.t, ax))),
            ensures=lambda v, o, ax=ax: [("profile at (axial, radial) coordinates", eq(o[0], v.f.term(
                A(v.x[0], sqrt(v.x[1] ** 2 + v.x[2] ** 2)) if ax == 0 else A(sqrt(v.x[0] ** 2 + v.x[2] ** 2), v.x[1])))),
                ("rotationally symmetric", eq(o[1], o[0]))]))
    return R


def _raises(exc, f):
    try:
        f()
    except exc:
        return True
    return False


def _spin(x, t, ax):
    c, s = jnp.cos(t), jnp.sin(t)
    if ax == 0:
        return jnp.stack([x[0], c * x[1] - s * x[2], s * x[1] + c * x[2]])
    return jnp.stack([c * x[0] - s * x[2], x[1], s * x[0] + c * x[2]])


# -- C07 normalisation ------------------------------------------------------------
def c07():
    R = []
    for d in (1, 2, 3):
        X = {"x": (d,)}
        uf = {"f": (((d,),), ())}
        g = lambda v, d=d: [v.f.term(v.x, d=[(0, i)]) for i in range(d)]
        R.append(Contract("norm.normalize_1st_order[%dd]" % d, F + "normalize_1st_order", X, ufs=uf,
            requires=lambda v, g=g: [ne(norm2(g(v)), 0)],
            run=lambda m, v: m.r_fun.normalize_1st_order(v.f)(v.x),
            ensures=lambda v, o: [("keeps the sign", sgn_is(o, lt(0, v.f.term(v.x)), lt(v.f.term(v.x), 0))),
                                  ("bounded by one", and_(lt(-1, o), lt(o, 1))),
                                  ("formula", eq(o * sqrt(v.f.term(v.x) ** 2 + norm2([v.f.term(v.x, d=[(0, i)]) for i in range(len(v.x))])), v.f.term(v.x)))]))
        R.append(Contract("norm.normalize_1st_order_gradient[%dd]" % d, F + "normalize_1st_order", X, ufs=uf,
            requires=lambda v, g=g: [ne(norm2(g(v)), 0), eq(v.f.term(v.x), 0)],
            run=lambda m, v: jax.jacfwd(m.r_fun.normalize_1st_order(lambda x: v.f(x)))(v.x),
            concrete={"f": lambda s: (lambda x: jnp.sum(jnp.sin(x * (1 + jnp.arange(x.shape[0])) + s) - jnp.sin(s)))},
            points=[{"x": np.zeros(d)}], n=0,
            ensures=lambda v, o: [("unit gradient on the boundary", eq(norm2(o), 1))]))
        # the normalised function is differentiable wherever the function and its slope do not vanish together, e.g. at the centre of a ball
        def smooth(v, o):
            f, n = v.f, len(v.x)
            y, y1 = f.term(v.x), [f.term(v.x, d=[(0, i)]) for i in range(n)]
            q = y ** 2 + norm2(y1)
            return [("derivative %d" % i, eq(o[i] * q * sqrt(q), y1[i] * q - y * (y * y1[i] + sum((y1[j] * f.term(v.x, d=[(0, i), (0, j)]) for j in range(n)), ZERO)))) for i in range(n)]
        R.append(Contract("norm.normalize_1st_order_smooth[%dd]" % d, F + "normalize_1st_order", X, ufs=uf,
            requires=lambda v, g=g: [lt(0, v.f.term(v.x) ** 2 + norm2(g(v)))],
            run=lambda m, v: jax.jacfwd(m.r_fun.normalize_1st_order(lambda x: v.f(x)))(v.x),
            concrete={"f": lambda s: (lambda x: 1.0 - jnp.sum(x ** 2 * (1 + s % 2 + jnp.arange(x.shape[0]))))},
            points=[{"x": np.zeros(d)}], n=4, ensures=smooth))
    for d in (2, 3):
        R.append(Contract("norm.sphere[%dd]" % d, F + "sphere", {"x": (d,), "r": ()},
            requires=lambda v: [lt(0, v.r), eq(norm2(v.x), v.r * v.r)],
            run=lambda m, v: jax.jacfwd(m.r_fun.sphere(v.r))(v.x),
            sample=lambda r, d=d: _onsphere(r, d),
            ensures=lambda v, o: [("unit gradient on the boundary", eq(norm2(o), 1)), ("points inwards", lt(dot(o, v.x), 0))]))
        R.append(Contract("norm.ellipsoid[%dd]" % d, F + "ellipsoid", {"x": (d,), "e": (d,)},
            requires=lambda v: [lt(0, k) for k in v.e] + [eq(sum((v.x / v.e) ** 2, ZERO), 1)],
            run=lambda m, v: jax.jacfwd(m.r_fun.ellipsoid(v.e))(v.x),
            sample=lambda r, d=d: _onellipsoid(r, d),
            ensures=lambda v, o: [("unit gradient on the boundary", eq(norm2(o), 1))]))
    R.append(Contract("norm.cylinder", F + "cylinder", {"x": (3,), "r": ()},
        requires=lambda v: [lt(0, v.r), eq(norm2(v.x[:2]), v.r * v.r)],
        run=lambda m, v: jax.jacfwd(m.r_fun.cylinder(v.r))(v.x),
        sample=lambda r: _oncyl(r),
        ensures=lambda v, o: [("unit gradient on the boundary", eq(norm2(o), 1))]))
    # R-operations keep the normalisation of the operand that is active
    for name, mk in (("RAlpha", lambda m, v: m.r_fun.RAlpha(v.al)),) + tuple(
            ("RP[p=%d]" % p, lambda m, v, p=p: m.r_fun.RP(p)) for p in (2, 4, 6)):
        extra = {"al": ()} if name == "RAlpha" else {}
        rq = (lambda v: [lt(-1, v.al), lt(v.al, 1)]) if extra else (lambda v: [])
        R.append(Contract("norm.%s" % name, [F + name.split("[")[0] + ".conjunction", F + name.split("[")[0] + ".disjunction"],
            dict({"b": ()}, **extra), requires=lambda v, rq=rq: rq(v) + [lt(0, v.b)],
            run=lambda m, v, mk=mk: (
                jax.grad(lambda z: mk(m, v).conjunction(z[0], z[1]))(jnp.stack([v.b * 0, v.b])),
                jax.grad(lambda z: mk(m, v).conjunction(z[0], z[1]))(jnp.stack([v.b, v.b * 0])),
                jax.grad(lambda z: mk(m, v).disjunction(z[0], z[1]))(jnp.stack([v.b * 0, -v.b])),
                jax.grad(lambda z: mk(m, v).disjunction(z[0], z[1]))(jnp.stack([-v.b, v.b * 0]))),
            sample=lambda r: {"b": r.uniform(0.2, 3), "al": r.uniform(-0.9, 0.9)},
            ensures=lambda v, o: [("a = 0 < b: conjunction behaves like a", eqs(o[0], A(1, 0))),
                                  ("b = 0 < a: conjunction behaves like b", eqs(o[1], A(0, 1))),
                                  ("a = 0 > b: disjunction behaves like a", eqs(o[2], A(1, 0))),
                                  ("b = 0 > a: disjunction behaves like b", eqs(o[3], A(0, 1)))]))
    for name in ("r0", "rp2", "rp4"):
        R.append(Contract("norm.%s" % name, [F + "RAlpha", F + "RP"], {"b": ()}, requires=lambda v: [lt(0, v.b)], sample=lambda r: {"b": r.uniform(0.2, 3)},
            run=lambda m, v, name=name: [jax.grad(lambda z: h(z[0], z[1]))(z) for h, z in (lambda s: ((s.conjunction, jnp.stack([v.b * 0, v.b])), (s.conjunction, jnp.stack([v.b, v.b * 0])), (s.disjunction, jnp.stack([v.b * 0, -v.b])), (s.disjunction, jnp.stack([-v.b, v.b * 0]))))(getattr(m.r_fun, name))],
            ensures=lambda v, o: [("behaves like the active operand, case %d" % k, eqs(o[k], A(*w))) for k, w in enumerate(((1, 0), (0, 1), (1, 0), (0, 1)))]))
    R.append(Contract("norm.rp4_order", F + "RP", {"b": ()}, requires=lambda v: [lt(0, v.b)], sample=lambda r: {"b": r.uniform(0.5, 3)},
        run=lambda m, v: [jax.jacfwd(jax.jacfwd(lambda a: m.r_fun.rp4.conjunction(a, v.b)))(v.b * 0), jax.jacfwd(jax.jacfwd(jax.jacfwd(lambda a: m.r_fun.rp4.conjunction(a, v.b))))(v.b * 0),
                          jax.jacfwd(jax.jacfwd(lambda a: m.r_fun.rp4.disjunction(a, -v.b)))(v.b * 0), jax.jacfwd(jax.jacfwd(jax.jacfwd(lambda a: m.r_fun.rp4.disjunction(a, -v.b))))(v.b * 0)],
        ensures=lambda v, o: [("normalised to third order", and_(*[eq(t, 0) for t in o]))]))
    # cuboids of a normalised system have a unit normal derivative on every face (edges and corners excluded): any system which obeys the
    # contract "behaves like the active operand" above (modular), and the default system directly
    for d in (1, 2, 3, 4):
        for i in range(d):
            for side in (0, 1):
                direct = d < 3
                R.append(Contract("norm.cuboid[%dd,face %d%s]" % (d, i, "+-"[1 - side]), F + "cuboid", {"x": (d,), "e": (d,)}, ufs={"conj": (((), ()), ())}, axioms=NAX, concrete=NCONC,
                    requires=lambda v, i=i, side=side: [lt(0, k) for k in v.e] + [eq(v.x[i], v.e[i] if side else ZERO)] + [and_(lt(0, v.x[j]), lt(v.x[j], v.e[j])) for j in range(len(v.e)) if j != i], n=3,
                    sample=lambda r, d=d, i=i, side=side: (lambda e: {"e": e, "x": np.array([e[j] * (side if j == i else r.uniform(0.2, 0.8)) for j in range(d)])})(r.uniform(0.5, 2, d)),
                    run=lambda m, v, direct=direct: (jax.jacfwd(m.r_fun.cuboid(v.e, False, absR(m, v)))(v.x), jax.jacfwd(m.r_fun.cuboid(v.e, True, absR(m, v)))(v.x - v.e / 2)) + ((jax.jacfwd(m.r_fun.cuboid(v.e))(v.x),) if direct else ()),
                    ensures=lambda v, o, i=i, side=side: [("gradient is the inner unit normal: %s" % w, eqs(t, A(*[(-1 if side else 1) if j == i else 0 for j in range(len(v.e))]))) for t, w in zip(o, ("corner at the origin", "centered", "default system"))]))
    # set operations of a normalised system keep the gradient of the operand whose boundary it is (modular, any operands)
    for d in (1, 2, 3):
        G = lambda u, v: A(*[u.term(v.x, d=[(0, i)]) for i in range(len(v.x))])
        for op, cf, cg, sf, sg in (("intersection", 1, 1, 1, 1), ("union", -1, -1, 1, 1), ("difference", -1, 1, 1, -1), ("implication", -1, 1, -1, 1)):
            for act in ("first", "second"):
                R.append(Contract("norm.%s[%dd,%s operand]" % (op, d, act), F + "RFun." + op, {"x": (d,)}, ufs={"f": (((d,),), ()), "g": (((d,),), ()), "conj": (((), ()), ()), "disj": (((), ()), ())}, axioms=NAX,
                    requires=lambda v, act=act, cf=cf, cg=cg: [eq(v.f.term(v.x), 0), lt(0, cf * v.g.term(v.x))] if act == "first" else [eq(v.g.term(v.x), 0), lt(0, cg * v.f.term(v.x))],
                    concrete=dict(NCONC, **{k: (lambda s, z=z: lambda x: jnp.sum(jnp.sin(x * (1.3 + s % 3))) + z) for k, z in (("f", 0.0 if act == "first" else cg * 1.0), ("g", 0.0 if act == "second" else cf * 1.0))}), points=[{"x": np.zeros(d)}], n=0,
                    run=lambda m, v, op=op: jax.jacfwd(getattr(absR(m, v), op)(v.f, v.g))(v.x),
                    ensures=lambda v, o, act=act, sf=sf, sg=sg, G=G: [("gradient of the operand whose boundary it is", eqs(o, (G(v.f, v) * sf) if act == "first" else (G(v.g, v) * sg)))]))
    for p in (4, 6):
        def dk(f, k):
            for _ in range(k):
                f = jax.jacfwd(f)
            return f
        R.append(Contract("norm.RP_order[p=%d]" % p, [F + "RP.conjunction", F + "RP.disjunction"], {"b": ()}, requires=lambda v: [lt(0, v.b)],
            run=lambda m, v, p=p: ([dk(lambda a: m.r_fun.RP(p).conjunction(a, v.b), k)(v.b * 0) for k in range(2, p)],
                                   [dk(lambda a: m.r_fun.RP(p).disjunction(a, -v.b), k)(v.b * 0) for k in range(2, p)]),
            sample=lambda r: {"b": r.uniform(0.5, 3)},
            ensures=lambda v, o, p=p: [("derivative of order %d of the %s vanishes" % (k, n), eq(o[j][k - 2], 0))
                                       for k in range(2, p) for j, n in enumerate(("conjunction", "disjunction"))]))
    # transformations keep the gradient magnitude
    for d in (2, 3):
        gn = lambda v, at: norm2([v.f.term(at, d=[(0, i)]) for i in range(len(at))])
        uf = {"f": (((d,),), ())}
        R.append(Contract("norm.translate[%dd]" % d, F + "translate", {"x": (d,), "y": (d,)}, ufs=uf,
            run=lambda m, v: jax.jacfwd(m.r_fun.translate(v.f, v.y))(v.x),
            ensures=lambda v, o, gn=gn: [("|grad| preserved", eq(norm2(o), gn(v, v.x - v.y)))]))
        R.append(Contract("norm.scale[%dd]" % d, F + "scale", {"x": (d,), "s": ()}, ufs=uf, requires=lambda v: [lt(0, v.s)],
            run=lambda m, v: jax.jacfwd(m.r_fun.scale(v.f, v.s))(v.x * v.s),
            ensures=lambda v, o, gn=gn: [("|grad| preserved", eq(norm2(o), gn(v, v.x)))]))
        refl = lambda x, n: A(*[x[i] - 2 * dot(x, n) * n[i] / norm2(n) for i in range(len(x))])
        R.append(Contract("norm.reflect[%dd]" % d, F + "reflect", {"x": (d,), "n": (d,), "o": (d,)}, ufs=uf, requires=lambda v: [ne(norm2(v.n), 0)],
            run=lambda m, v: jax.jacfwd(m.r_fun.reflect(v.f, v.n, v.o))(v.x),
            ensures=lambda v, o, gn=gn, refl=refl: [("|grad| preserved", eq(norm2(o), gn(v, refl(v.x - v.o, v.n) + v.o)))]))
    rot = lambda t, x: A(cos(t) * x[0] - sin(t) * x[1], sin(t) * x[0] + cos(t) * x[1])
    R.append(Contract("norm.rotate2d", F + "rotate2d", {"x": (2,), "t": (), "o": (2,)}, ufs={"f": (((2,),), ())},
        run=lambda m, v: jax.jacfwd(m.r_fun.rotate2d(v.f, v.t, v.o))(v.x),
        ensures=lambda v, o: [("|grad| preserved", eq(norm2(o), norm2([v.f.term(rot(-v.t, v.x - v.o) + v.o, d=[(0, i)]) for i in range(2)])))]))
    from .quat import _rodrigues
    R.append(Contract("norm.rotate3d", F + "rotate3d", {"x": (3,), "t": (), "n": (3,)}, ufs={"f": (((3,),), ())},
        requires=lambda v: [ne(norm2(v.n), 0)],
        run=lambda m, v: jax.jacfwd(m.r_fun.rotate3d(v.f, v.t, v.n))(v.x),
        ensures=lambda v, o: [("|grad| preserved", eq(norm2(o), norm2([v.f.term(_rodrigues(v.x, v.n, v.t), d=[(0, i)]) for i in range(3)])))]))
    return R


def _onsphere(r, d):
    x = r.normal(size=d)
    rad = r.uniform(0.5, 2)
    return {"x": x / np.linalg.norm(x) * rad, "r": rad}


def _oncyl(r):
    s = _onsphere(r, 2)
    return {"x": np.append(s["x"], r.normal()), "r": s["r"]}


def _onellipsoid(r, d):
    s = _onsphere(r, d)
    e = r.uniform(0.5, 2, d)
    return {"x": s["x"] / s["r"] * e, "e": e}
