"""C01-C03: quaternions."""
import numpy as np
import jax.numpy as jnp

from .lib import *
from vk.terms import acos

F = "magpi/quaternions.py:"


def mk(m, a):
    return m.quaternions.Quaternion(a[0], a[1:])


def out(q_):
    return (q_.real, q_.imag)


def ham(a, b):
    """Hamilton product of two 4-vectors of Terms (the specification)"""
    return A(
        a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
        a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
        a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
        a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0],
    )


def cj(a):
    return A(a[0], -a[1], -a[2], -a[3])


def vec(o):
    return A(o[0], *list(o[1]))


def nz(a):
    return ne(norm2(a), ZERO)


def contracts(prop):
    return {"C01": c01, "C02": c02, "C03": c03}[prop]()


def c01():
    R = []
    V4 = {"a": (4,), "b": (4,)}
    R.append(Contract("quat.mul", F + "Quaternion.__mul__", V4,
        run=lambda m, v: (out(mk(m, v.a) * mk(m, v.b)), abs(mk(m, v.a) * mk(m, v.b))),
        ensures=lambda v, o: [
            ("Hamilton product", eqs(vec(o[0]), ham(v.a, v.b))),
            ("norm is multiplicative", and_(eq(o[1] * o[1], norm2(v.a) * norm2(v.b)), le(0, o[1]))),
        ]))
    R.append(Contract("quat.mul_assoc", F + "Quaternion.__mul__", {"a": (4,), "b": (4,), "c": (4,)},
        run=lambda m, v: (out((mk(m, v.a) * mk(m, v.b)) * mk(m, v.c)), out(mk(m, v.a) * (mk(m, v.b) * mk(m, v.c)))),
        ensures=lambda v, o: [("associative", eqs(vec(o[0]), vec(o[1])))]))
    R.append(Contract("quat.distrib", [F + "Quaternion.__mul__", F + "Quaternion.__add__", F + "Quaternion.__sub__", F + "Quaternion.__neg__"],
        {"a": (4,), "b": (4,), "c": (4,)},
        run=lambda m, v: (out(mk(m, v.a) * (mk(m, v.b) + mk(m, v.c))), out(mk(m, v.a) * mk(m, v.b) + mk(m, v.a) * mk(m, v.c)),
                          out((mk(m, v.b) - mk(m, v.c)) * mk(m, v.a)), out(mk(m, v.b) * mk(m, v.a) - mk(m, v.c) * mk(m, v.a))),
        ensures=lambda v, o: [("left distributive", eqs(vec(o[0]), vec(o[1]))), ("right distributive", eqs(vec(o[2]), vec(o[3])))]))
    R.append(Contract("quat.add_sub_neg", [F + "Quaternion.__add__", F + "Quaternion.__sub__", F + "Quaternion.__neg__"], V4,
        run=lambda m, v: (out(mk(m, v.a) + mk(m, v.b)), out(mk(m, v.a) - mk(m, v.b)), out(-mk(m, v.a)), out((mk(m, v.a) - mk(m, v.b)) + mk(m, v.b))),
        ensures=lambda v, o: [("sum", eqs(vec(o[0]), v.a + v.b)), ("difference", eqs(vec(o[1]), v.a - v.b)),
                              ("negation", eqs(vec(o[2]), A(*[-x for x in v.a]))), ("a-b+b=a", eqs(vec(o[3]), v.a))]))
    R.append(Contract("quat.scalar_ops", [F + "Quaternion.__mul__", F + "Quaternion.__rmul__", F + "Quaternion.__truediv__"],
        {"a": (4,), "s": ()}, requires=lambda v: [ne(v.s, ZERO)],
        run=lambda m, v: (out(mk(m, v.a) * v.s), out(v.s * mk(m, v.a)), out(mk(m, v.a) / v.s), out(2.0 * mk(m, v.a)), out(mk(m, v.a) / 4.0)),
        ensures=lambda v, o: [("q*s", eqs(vec(o[0]), v.a * v.s)), ("s*q", eqs(vec(o[1]), v.a * v.s)),
                              ("q/s", eqs(vec(o[2]) * v.s, v.a)), ("2q", eqs(vec(o[3]), v.a * 2)), ("q/4", eqs(vec(o[4]) * 4, v.a))]))
    R.append(Contract("quat.scalar_add_sub", [F + "Quaternion.__add__", F + "Quaternion.__radd__", F + "Quaternion.__sub__", F + "Quaternion.__rsub__"],
        {"a": (4,), "s": ()},
        run=lambda m, v: (out(mk(m, v.a) + 1.5), out(1.5 + mk(m, v.a)), out(mk(m, v.a) - 1.5), out(1.5 - mk(m, v.a)),
                          out(mk(m, v.a).__rsub__(v.s)), out(mk(m, v.a) - v.s), out(mk(m, v.a).__radd__(v.s)), out(mk(m, v.a) + v.s)),
        ensures=lambda v, o: [("s+q = q+s", eqs(vec(o[0]), vec(o[1]))), ("s-q = -(q-s)", eqs(vec(o[3]), A(*[-x for x in vec(o[2])]))),
                              ("q-s = q+(-s)", eqs(vec(o[2]), vec(o[0]) - 3)),
                              ("s-q = -(q-s), array scalar", eqs(vec(o[4]), A(*[-x for x in vec(o[5])]))),
                              ("s+q = q+s, array scalar", eqs(vec(o[6]), vec(o[7]))),
                              ("(q+s)-s = q", eqs(vec(o[7]) - (vec(o[7]) - v.a), v.a)),
                              ("q-s and q+s are opposite shifts of q", eqs(vec(o[5]) + vec(o[7]), v.a * 2))]))
    R.append(Contract("quat.conj", F + "Quaternion.conj", V4,
        run=lambda m, v: (out(mk(m, v.a).conj()), out((mk(m, v.a) * mk(m, v.b)).conj()), out(mk(m, v.b).conj() * mk(m, v.a).conj()),
                          out(mk(m, v.a) * mk(m, v.a).conj())),
        ensures=lambda v, o: [("conjugate", eqs(vec(o[0]), cj(v.a))), ("anti-homomorphism", eqs(vec(o[1]), vec(o[2]))),
                              ("q conj(q) = |q|^2", eqs(vec(o[3]), A(norm2(v.a), 0, 0, 0)))]))
    R.append(Contract("quat.abs", F + "Quaternion.__abs__", {"a": (4,)},
        run=lambda m, v: abs(mk(m, v.a)),
        ensures=lambda v, o: [("norm", and_(eq(o * o, norm2(v.a)), le(0, o)))]))
    R.append(Contract("quat.reciprocal", F + "Quaternion.reciprocal", {"a": (4,)}, requires=lambda v: [nz(v.a)],
        run=lambda m, v: (out(mk(m, v.a) * mk(m, v.a).reciprocal()), out(mk(m, v.a).reciprocal() * mk(m, v.a))),
        ensures=lambda v, o: [("q q^-1 = 1", eqs(vec(o[0]), A(1, 0, 0, 0))), ("q^-1 q = 1", eqs(vec(o[1]), A(1, 0, 0, 0)))]))
    R.append(Contract("quat.div", [F + "Quaternion.__truediv__", F + "quaternion_right_div", F + "quaternion_left_div"], V4,
        requires=lambda v: [nz(v.b)],
        run=lambda m, v: (out((mk(m, v.a) / mk(m, v.b)) * mk(m, v.b)),
                          out(m.quaternions.quaternion_right_div(mk(m, v.a), mk(m, v.b)) * mk(m, v.b)),
                          out(mk(m, v.b) * m.quaternions.quaternion_left_div(mk(m, v.a), mk(m, v.b)))),
        ensures=lambda v, o: [("(a/b) b = a", eqs(vec(o[0]), v.a)), ("right division", eqs(vec(o[1]), v.a)),
                              ("left division", eqs(vec(o[2]), v.a))]))
    R.append(Contract("quat.equality", F + "Quaternion.__eq__", V4,
        run=lambda m, v: jnp.asarray(mk(m, v.a) == mk(m, v.b)),
        points=[{"a": [1., 2, 3, 4], "b": [1., 2, 3, 4]}, {"a": [1., 2, 3, 4], "b": [1., 2, 3, 5]}, {"a": [0., 2, 3, 4], "b": [1., 2, 3, 4]}],
        ensures=lambda v, o: [("equal iff all components equal", iff(_tt(o), eqs(v.a, v.b)), {"nonum": False})]))
    R.append(Contract("quat.zero", F + "Quaternion.zero_quaternion", {"a": (4,)},
        run=lambda m, v: (out(m.quaternions.Quaternion.zero_quaternion() + mk(m, v.a)),),
        ensures=lambda v, o: [("zero is neutral", eqs(vec(o[0]), v.a))]))
    return R


def _tt(o):
    return o if o.sort == "B" else ne(o, ZERO)


def rot(M, x):
    return matvec(M, x)


def c02():
    R = []
    NV = lambda v: [nz(v.a)]
    Q = "magpi/quaternions.py:"

    def spec_rot(a, x):
        """imag(conj(a) x a)/|a|^2"""
        r = ham(ham(cj(a), A(0, *x)), a)
        return r[1:], norm2(a)

    R.append(Contract("quat.rotation", Q + "quaternion_rotation", {"x": (3,), "a": (4,)}, requires=NV,
        run=lambda m, v: m.quaternions.quaternion_rotation(v.x, mk(m, v.a)),
        ensures=lambda v, o: [("is q^-1 x q", eqs(o * norm2(v.a), spec_rot(v.a, v.x)[0])),
                              ("preserves length", eq(norm2(o), norm2(v.x)))]))
    R.append(Contract("quat.rotation_isometry", Q + "quaternion_rotation", {"x": (3,), "y": (3,), "a": (4,)}, requires=NV,
        run=lambda m, v: (m.quaternions.quaternion_rotation(v.x, mk(m, v.a)), m.quaternions.quaternion_rotation(v.y, mk(m, v.a)),
                          m.quaternions.quaternion_rotation(v.x + v.y, mk(m, v.a))),
        ensures=lambda v, o: [("preserves inner products", eq(dot(o[0], o[1]), dot(v.x, v.y))),
                              ("additive", eqs(o[2], o[0] + o[1]))]))
    R.append(Contract("quat.rotation_orientation", Q + "quaternion_rotation", {"x": (3,), "y": (3,), "a": (4,)}, requires=NV,
        run=lambda m, v: (m.quaternions.quaternion_rotation(v.x, mk(m, v.a)), m.quaternions.quaternion_rotation(v.y, mk(m, v.a)),
                          m.quaternions.quaternion_rotation(jnp.cross(v.x, v.y), mk(m, v.a))),
        ensures=lambda v, o: [("preserves orientation", eqs(o[2], cross(o[0], o[1])))]))
    R.append(Contract("quat.rotation_compose", [Q + "quaternion_rotation", Q + "Quaternion.__mul__"], {"x": (3,), "a": (4,), "b": (4,)},
        requires=lambda v: [nz(v.a), nz(v.b)],
        run=lambda m, v: (m.quaternions.quaternion_rotation(m.quaternions.quaternion_rotation(v.x, mk(m, v.a)), mk(m, v.b)),
                          m.quaternions.quaternion_rotation(v.x, mk(m, v.a) * mk(m, v.b)),
                          m.quaternions.quaternion_rotation(m.quaternions.quaternion_rotation(v.x, mk(m, v.a)), mk(m, v.a).reciprocal())),
        ensures=lambda v, o: [("successive rotations multiply", eqs(o[0], o[1])), ("reciprocal undoes", eqs(o[2], v.x))]))
    R.append(Contract("quat.reflection", Q + "quaternion_reflection", {"x": (3,), "n": (3,)},
        requires=lambda v: [ne(norm2(v.n), ZERO)],
        run=lambda m, v: (m.quaternions.quaternion_reflection(v.x, v.n),
                          m.quaternions.quaternion_reflection(m.quaternions.quaternion_reflection(v.x, v.n), v.n)),
        ensures=lambda v, o: [("x - 2 (x.n) n/|n|^2", eqs((o[0] - v.x) * norm2(v.n), A(*[-2 * dot(v.x, v.n) * k for k in v.n]))),
                              ("preserves length", eq(norm2(o[0]), norm2(v.x))),
                              ("involution", eqs(o[1], v.x))]))
    R.append(Contract("quat.euler", Q + "from_euler_angles", {"p": (3,)},
        run=lambda m, v: out(m.quaternions.from_euler_angles(v.p)),
        ensures=lambda v, o: [("unit", eq(norm2(vec(o)), ONE)),
                              ("yaw*pitch*roll", eqs(vec(o), ham(ham(_ax(v.p[2], 3), _ax(v.p[1], 2)), _ax(v.p[0], 1))))]))
    R.append(Contract("quat.euler_rotation", [Q + "from_euler_angles", Q + "quaternion_rotation"], {"p": (3,), "x": (3,)},
        run=lambda m, v: m.quaternions.quaternion_rotation(v.x, m.quaternions.from_euler_angles(v.p)),
        ensures=lambda v, o: [("length", eq(norm2(o), norm2(v.x))),
                              ("R_x(p0)^T R_y(p1)^T R_z(p2)^T applied to x", eqs(o, _rx(-v.p[0], 0, _rx(-v.p[1], 1, _rx(-v.p[2], 2, v.x)))))]))
    R.append(Contract("quat.axis_angle", Q + "from_axis_angle", {"t": (), "n": (3,)},
        requires=lambda v: [ne(norm2(v.n), ZERO)],
        run=lambda m, v: out(m.quaternions.from_axis_angle(v.t, v.n)),
        ensures=lambda v, o: [("unit quaternion", eq(norm2(vec(o)), ONE)),
                              ("cos(t/2) + sin(t/2) n/|n|", and_(eq(o[0], cos(v.t / 2)),
                               eqs(o[1] * sqrt(norm2(v.n)), A(*[k * sin(v.t / 2) for k in v.n]))))]))
    R.append(Contract("quat.axis_angle_rotation", [Q + "from_axis_angle", Q + "quaternion_rotation"], {"t": (), "n": (3,), "x": (3,)},
        requires=lambda v: [ne(norm2(v.n), ZERO)],
        run=lambda m, v: m.quaternions.quaternion_rotation(v.x, m.quaternions.from_axis_angle(v.t, v.n)),
        ensures=lambda v, o: [
            ("Rodrigues", eqs(o, _rodrigues(v.x, v.n, -v.t))),
            ("axis component kept", eq(dot(o, v.n), dot(v.x, v.n))),
            ("length", eq(norm2(o), norm2(v.x)))]))
    R.append(Contract("quat.axis_angle_compose", [Q + "from_axis_angle", Q + "Quaternion.__mul__"], {"s": (), "t": (), "n": (3,)},
        requires=lambda v: [ne(norm2(v.n), ZERO)],
        run=lambda m, v: (out(m.quaternions.from_axis_angle(v.s, v.n) * m.quaternions.from_axis_angle(v.t, v.n)),
                          out(m.quaternions.from_axis_angle(v.s + v.t, v.n)), out(m.quaternions.from_axis_angle(-v.s, v.n)),
                          out(m.quaternions.from_axis_angle(v.s, v.n).conj())),
        ensures=lambda v, o: [("same axis: angles add", eqs(vec(o[0]), vec(o[1]))), ("negative angle is the inverse", eqs(vec(o[2]), vec(o[3])))]))
    return R


def _ax(t, i):
    r = [cos(t / 2), ZERO, ZERO, ZERO]
    r[i] = sin(t / 2)
    return A(*r)


def _rx(t, i, x):
    """right-handed rotation by t about coordinate axis i"""
    j, k = (i + 1) % 3, (i + 2) % 3
    r = [None] * 3
    r[i] = x[i]
    r[j] = cos(t) * x[j] - sin(t) * x[k]
    r[k] = sin(t) * x[j] + cos(t) * x[k]
    return A(*r)


def _rodrigues(x, n, t):
    s = sqrt(norm2(n))
    u = A(*[k / s for k in n])
    c = cross(u, x)
    d = dot(u, x)
    return A(*[x[i] * cos(t) + c[i] * sin(t) + u[i] * d * (ONE - cos(t)) for i in range(3)])


def c03():
    R = []
    Q = "magpi/quaternions.py:"
    big = lambda a: lt(q(1) / 10**30, norm2(a[1:]))  # |v| above the rounding threshold of sgn
    R.append(Contract("quat.exp", Q + "quanternion_exp", {"a": (4,)}, requires=lambda v: [big(v.a)],
        run=lambda m, v: out(m.quaternions.quanternion_exp(mk(m, v.a))),
        ensures=lambda v, o: [("e^a (cos|v| + v/|v| sin|v|)", and_(
            eq(o[0], exp(v.a[0]) * cos(_n(v.a))), eqs(o[1] * _n(v.a), v.a[1:] * (exp(v.a[0]) * sin(_n(v.a)))))),
            ("|exp q| = e^Re q", eq(norm2(vec(o)), exp(v.a[0]) * exp(v.a[0])))]))
    R.append(Contract("quat.exp_real", Q + "quanternion_exp", {"s": ()},
        run=lambda m, v: out(m.quaternions.quanternion_exp(m.quaternions.Quaternion(v.s, jnp.zeros(3)))),
        ensures=lambda v, o: [("real exponential", eqs(vec(o), A(exp(v.s), 0, 0, 0)))]))
    R.append(Contract("quat.exp_inverse", Q + "quanternion_exp", {"a": (4,)}, requires=lambda v: [big(v.a)],
        run=lambda m, v: out(m.quaternions.quanternion_exp(mk(m, v.a)) * m.quaternions.quanternion_exp(-mk(m, v.a))),
        ensures=lambda v, o: [("exp(q) exp(-q) = 1", eqs(vec(o), A(1, 0, 0, 0)))]))
    R.append(Contract("quat.log", Q + "quanternion_log", {"a": (4,)}, requires=lambda v: [big(v.a)],
        run=lambda m, v: out(m.quaternions.quanternion_log(mk(m, v.a))),
        ensures=lambda v, o: [("ln|q| + v/|v| arccos(a/|q|)", and_(
            eq(o[0], log(sqrt(norm2(v.a)))), eqs(o[1] * _n(v.a), v.a[1:] * acos(v.a[0] / sqrt(norm2(v.a))))))]))
    R.append(Contract("quat.exp_log", [Q + "quanternion_exp", Q + "quanternion_log", Q + "sgn", Q + "arg"], {"a": (4,)},
        requires=lambda v: [big(v.a), lt(q(1) / 10**15, acos(v.a[0] / sqrt(norm2(v.a))))],
        run=lambda m, v: out(m.quaternions.quanternion_exp(m.quaternions.quanternion_log(mk(m, v.a)))),
        ensures=lambda v, o: [("exp(log q) = q", eqs(vec(o), v.a))]))
    R.append(Contract("quat.exp_log_real", [Q + "quanternion_exp", Q + "quanternion_log"], {"s": ()},
        requires=lambda v: [lt(0, v.s)],
        run=lambda m, v: out(m.quaternions.quanternion_exp(m.quaternions.quanternion_log(m.quaternions.Quaternion(v.s, jnp.zeros(3))))),
        ensures=lambda v, o: [("exp(log s) = s", eqs(vec(o), A(v.s, 0, 0, 0)))]))
    # vector parts of any magnitude above rounding: relative accuracy of the direction
    s_small = lambda rng: dict(s=rng.randn(), u=(lambda u: u / np.linalg.norm(u))(rng.randn(3)), k=10.0 ** rng.uniform(0, 14))
    R.append(Contract("quat.exp_small", [Q + "quanternion_exp", Q + "sgn"], {"s": (), "u": (3,), "k": ()}, sample=s_small, n=12,
        requires=lambda v: [eq(norm2(v.u), 1), lt(v.k, 10**15), le(1, v.k)],
        run=lambda m, v: m.quaternions.quanternion_exp(m.quaternions.Quaternion(v.s, v.u / v.k)).imag * v.k,
        ensures=lambda v, o: [("direction and relative size of small vector parts", eqs(o, v.u * (exp(v.s) * sin(1 / v.k) * v.k)))]))
    R.append(Contract("quat.log_small", [Q + "quanternion_log", Q + "sgn", Q + "arg"], {"u": (3,), "k": ()},
        sample=lambda rng: {a: b for a, b in s_small(rng).items() if a != "s"}, n=12,
        requires=lambda v: [eq(norm2(v.u), 1), lt(v.k, 10**15), le(1, v.k)],
        run=lambda m, v: m.quaternions.quanternion_log(m.quaternions.Quaternion(0.0, v.u / v.k)).imag,
        ensures=lambda v, o: [("direction of small vector parts", eqs(o, v.u * (PI / 2)))]))
    for p in (1, 2, 3, -1):
        R.append(Contract("quat.pow[%d]" % p, Q + "Quaternion.__pow__", {"a": (4,)},
            requires=lambda v: [big(v.a), lt(q(1) / 10**15, acos(v.a[0] / sqrt(norm2(v.a))))],
            run=lambda m, v, p=p: out(mk(m, v.a) ** p),
            ensures=lambda v, o, p=p: [("q**%d" % p, _powspec(v.a, o, p))]))
    th = lambda v: acos(v.a[0] / sqrt(norm2(v.a)))
    R.append(Contract("quat.pow_real", Q + "Quaternion.__pow__", {"a": (4,), "p": ()},
        requires=lambda v: [big(v.a), lt(q(1) / 10**30, th(v) * v.p * v.p * th(v))],
        run=lambda m, v: out(mk(m, v.a) ** v.p),
        ensures=lambda v, o: [("|q|^p (cos(p t) + v/|v| sin(p t)), t = arg q", and_(
            eq(o[0], exp(v.p * log(sqrt(norm2(v.a)))) * cos(v.p * th(v))),
            eqs(o[1] * _n(v.a), v.a[1:] * (exp(v.p * log(sqrt(norm2(v.a)))) * sin(v.p * th(v))))))]))
    R.append(Contract("quat.rpow", Q + "Quaternion.__rpow__", {"a": (4,), "s": ()},
        requires=lambda v: [lt(0, v.s), big(v.a * log(v.s)), ne(log(v.s), ZERO)],
        run=lambda m, v: out(mk(m, v.a).__rpow__(v.s)),
        ensures=lambda v, o: [("s**q = exp(q ln s)", and_(eq(o[0], exp(v.a[0] * log(v.s)) * cos(_n(v.a * log(v.s)))),
            eqs(o[1] * _n(v.a * log(v.s)), v.a[1:] * (log(v.s) * exp(v.a[0] * log(v.s)) * sin(_n(v.a * log(v.s)))))))]))
    return R


def _n(a):
    return sqrt(norm2(a[1:]))


def _powspec(a, o, p):
    r = a
    for _ in range(abs(p) - 1):
        r = ham(r, a)
    if p > 0:
        return eqs(vec(o), r)
    return eqs(ham(vec(o), r), A(1, 0, 0, 0))
