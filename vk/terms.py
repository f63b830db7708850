"""Hash-consed first-order terms over the reals (and booleans).

This is the logic every verification condition is written in.  Nothing in here
knows about JAX or about MagPI.
"""
from __future__ import annotations

import math
from fractions import Fraction

import numpy as np

_table: dict = {}
_counter = [0]


class Term:
    __slots__ = ("op", "args", "tid", "sort", "__weakref__")

    def __repr__(self):
        return show(self, 6)

    # -- arithmetic sugar -------------------------------------------------
    def __add__(self, o):
        return NotImplemented if isinstance(o, np.ndarray) else add(self, T(o))

    __radd__ = __add__

    def __sub__(self, o):
        return NotImplemented if isinstance(o, np.ndarray) else sub(self, T(o))

    def __rsub__(self, o):
        return sub(T(o), self)

    def __mul__(self, o):
        return NotImplemented if isinstance(o, np.ndarray) else mul(self, T(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return NotImplemented if isinstance(o, np.ndarray) else div(self, T(o))

    def __rtruediv__(self, o):
        return div(T(o), self)

    def __neg__(self):
        return scale(self, Fraction(-1))

    def __pow__(self, k):
        return power(self, k)

    def __lt__(self, o):
        return lt(self, T(o))

    def __le__(self, o):
        return le(self, T(o))

    def __gt__(self, o):
        return lt(T(o), self)

    def __ge__(self, o):
        return le(T(o), self)

    def __and__(self, o):
        return and_(self, o)

    def __or__(self, o):
        return or_(self, o)

    def __invert__(self):
        return not_(self)

    def __abs__(self):
        return absv(self)

    def __bool__(self):
        if self is TRUE:
            return True
        if self is FALSE:
            return False
        raise TypeError("symbolic term used as a Python bool: %r" % (self,))


def _mk(op, args, sort="R"):
    key = (op, args, sort)
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.sort = op, args, sort
        t.tid = _counter[0]
        _counter[0] += 1
        _table[key] = t
    return t


TRUE = _mk("tt", (), "B")
FALSE = _mk("ff", (), "B")
PI = _mk("pi", ())
INF = _mk("inf", ())
NAN = _mk("nan", ())


def q(x) -> Term:
    return _mk("q", (Fraction(x),))


ZERO = q(0)
ONE = q(1)
HALF = q(Fraction(1, 2))


def var(name, sort="R") -> Term:
    return _mk("var", (name,), sort)


# -- float -> exact real -------------------------------------------------
_rat_cache: dict = {}
_PIMULT = None


def real_of_float(x: float):
    """The simplest exact real that a float constant stands for.

    Every numeric literal in the extracted program is a double.  It is read as
    the rational with the smallest denominator (<= 10**6) that rounds to it, or
    as a rational multiple of pi, else as the exact dyadic value.
    """
    x = float(x)
    t = _rat_cache.get(x)
    if t is not None:
        return t
    if x != x:
        r = NAN
    elif x == math.inf:
        r = INF
    elif x == -math.inf:
        r = scale(INF, Fraction(-1))
    elif x == int(x) and abs(x) < 1e15:
        r = q(int(x))
    else:
        r = None
        f = Fraction(x)
        for lim in (64, 1024, 1000000):
            g = f.limit_denominator(lim)
            if g != 0 and abs(float(g) - x) <= 2.5e-16 * abs(x):
                r = q(g)
                break
        if r is None or r.args[0].denominator > 64:
            g = Fraction(x / math.pi).limit_denominator(64)
            if g != 0 and abs(float(g) * math.pi - x) <= 4e-16 * abs(x):
                r = scale(PI, g)
            else:
                g = Fraction(x * math.pi).limit_denominator(64)
                if g != 0 and abs(float(g) / math.pi - x) <= 4e-16 * abs(x):
                    r = scale(power(PI, -1), g)
        if r is None and 1e-3 < abs(x) < 100:
            # square root of a small rational
            g = Fraction(x * x).limit_denominator(64)
            if g != 0 and abs(math.sqrt(g) - abs(x)) <= 4e-16 * abs(x):
                r = scale(root(q(g), 2), 1 if x > 0 else -1)
        if r is None:
            g = Fraction(repr(x))
            if float(g) == x and len(repr(x).split("e")[0].replace(".", "").replace("-", "").strip("0")) <= 10:
                r = q(g)
        if r is None:
            r = q(f)
    _rat_cache[x] = r
    return r


def T(x) -> Term:
    if isinstance(x, Term):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, (int, Fraction)):
        return q(x)
    import numpy as np

    if isinstance(x, np.ndarray) and x.shape == ():
        return T(x.item())
    if isinstance(x, np.bool_):
        return TRUE if x else FALSE
    if isinstance(x, np.integer):
        return q(int(x))
    return real_of_float(float(x))


def is_num(t):
    return t.op == "q"


def num(t):
    return t.args[0]


# -- sums ------------------------------------------------------------------
# op 'add': args = (const: Fraction, ((term, coef), ...))  sorted by tid
def _lin(t):
    if t.op == "q":
        return t.args[0], ()
    if t.op == "add":
        return t.args
    return Fraction(0), ((t, Fraction(1)),)


def _mkadd(c, d):
    items = tuple(sorted(((t, k) for t, k in d.items() if k != 0), key=lambda p: p[0].tid))
    if not items:
        return q(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return _mk("add", (c, items))


def add(*ts):
    c = Fraction(0)
    d: dict = {}
    inf = None
    for t in ts:
        if t is NAN:
            return NAN
        k, items = _lin(t)
        c += k
        for u, v in items:
            if u is INF:
                s = 1 if v > 0 else -1
                if inf is not None and inf != s:
                    return NAN
                inf = s
                continue
            d[u] = d.get(u, 0) + v
    if inf is not None:
        return _mk("add", (Fraction(0), ((INF, Fraction(inf)),))) if inf < 0 else INF
    return _mkadd(c, d)


def scale(t, k):
    k = Fraction(k)
    if k == 0:
        return ZERO
    if t is NAN:
        return NAN
    if k == 1:
        return t
    if t is INF:
        return INF if k > 0 else _mk("add", (Fraction(0), ((INF, Fraction(-1)),)))
    c, items = _lin(t)
    if items and items[0][0] is INF:
        return INF if k < 0 else t
    return _mkadd(c * k, {u: v * k for u, v in items})


def sub(a, b):
    return add(a, scale(b, -1))


# -- products -----------------------------------------------------------------
# op 'mul': args = ((base, exp:int), ...) sorted by tid, no numeric coefficient
def _fac(t):
    """coef, {base: exp}"""
    if t.op == "q":
        return t.args[0], {}
    if t.op == "mul":
        return Fraction(1), dict(t.args)
    if t.op == "add":
        c, items = t.args
        if c == 0 and len(items) == 1:
            u, k = items[0]
            c2, f = _fac(u)
            return k * c2, f
        # primitive part
        lead = items[0][1]
        if lead == 1:
            return Fraction(1), {t: 1}
        return lead, {scale(t, 1 / lead): 1}
    return Fraction(1), {t: 1}


def _mkmul(c, d):
    if c == 0:
        return ZERO
    items = tuple(sorted(((b, e) for b, e in d.items() if e != 0), key=lambda p: p[0].tid))
    if not items:
        return q(c)
    if len(items) == 1 and items[0][1] == 1:
        return scale(items[0][0], c)
    return scale(_mk("mul", items), c)


def isinf(t):
    return t is INF or (t.op == "add" and t.args[1][0][0] is INF)


def mul(*ts):
    c = Fraction(1)
    d: dict = {}
    for t in ts:
        if t is NAN or isinf(t):
            return NAN if t is NAN else _infmul(ts)
        k, f = _fac(t)
        c *= k
        for b, e in f.items():
            d[b] = d.get(b, 0) + e
    if c == 0:
        return ZERO
    return _mkmul(c, d)


def _infmul(ts):
    s = 1
    for t in ts:
        if t is INF:
            continue
        if isinf(t):
            s = -s
        elif t.op == "q":
            if t.args[0] == 0:
                return NAN
            s = s if t.args[0] > 0 else -s
        else:
            return NAN
    return scale(INF, s)


def power(t, k):
    if isinstance(k, Term):
        if k.op == "q":
            k = k.args[0]
        else:
            return fn("powr", t, k)
    k = Fraction(k)
    if t is NAN:
        return NAN
    if isinf(t):
        if k < 0:
            return ZERO
        if k == 0:
            return ONE
        return t if k % 2 == 1 else INF
    if k == 0:
        return ONE
    if k.denominator == 1:
        k = int(k)
        if t.op == "q":
            if t.args[0] == 0:
                return ZERO if k > 0 else NAN
            return q(t.args[0] ** k)
        c, f = _fac(t)
        if k > 0:
            return _mkmul(c**k, {b: e * k for b, e in f.items()})
        # an inverse is never cancelled here: definedness stays visible
        return _mkmul(c**k, {_mk("fn", ("inv", b)): e * -k for b, e in f.items()})
    n, p = k.denominator, k.numerator
    return power(root(t, n), p)


def root(t, n):
    """principal n-th root of a nonnegative real"""
    if t is NAN or t is INF:
        return t
    if t.op == "q" and t.args[0] >= 0:
        a, b = t.args[0].numerator, t.args[0].denominator
        ra, rb = round(a ** (1 / n)), round(b ** (1 / n))
        if ra**n == a and rb**n == b:
            return q(Fraction(ra, rb))
    if t.op == "fn" and t.args[0] == "root":
        return fn("root", t.args[1], q(n * t.args[2].args[0]))
    return fn("root", t, q(n))


def sqrt(t):
    return root(T(t), 2)


def div(a, b):
    if b.op == "q":
        if b.args[0] == 0:
            if a.op == "q":
                return NAN if a.args[0] == 0 else scale(INF, 1 if a.args[0] > 0 else -1)
            return NAN
        return scale(a, 1 / b.args[0])
    return mul(a, power(b, -1))


# -- functions ------------------------------------------------------------
def fn(name, *args):
    args = tuple(args)
    if any(a is NAN for a in args):
        return NAN
    a = args[0]
    if name == "sin":
        if a is ZERO:
            return ZERO
        if _neg_lead(a):
            return scale(fn("sin", scale(a, -1)), -1)
    elif name == "cos":
        if a is ZERO:
            return ONE
        if _neg_lead(a):
            return fn("cos", scale(a, -1))
    elif name == "exp":
        if a is ZERO:
            return ONE
    elif name == "log":
        if a is ONE:
            return ZERO
        if a.op == "fn" and a.args[0] == "exp":
            return a.args[1]
    elif name in ("tanh", "asin", "atan", "sinh"):
        if a is ZERO:
            return ZERO
        if _neg_lead(a):
            return scale(fn(name, scale(a, -1)), -1)
    elif name == "acos" and a.op == "q" and a.args[0] in (0, 1, -1):
        return scale(PI, Fraction(1 - int(a.args[0]), 2))
    elif name == "tan":
        return div(fn("sin", a), fn("cos", a))
    elif name == "floor":
        if a.op == "q":
            return q(math.floor(a.args[0]))
    elif name == "powr":
        if args[1].op == "q":
            return power(a, args[1].args[0])
        if a is ONE:
            return ONE
    return _mk("fn", (name,) + args)


def _neg_lead(a):  # sign of the leading coefficient
    if a.op == "q":
        return a.args[0] < 0
    if a.op == "add":
        return a.args[1][0][1] < 0
    return False


def sin(t):
    return fn("sin", T(t))


def cos(t):
    return fn("cos", T(t))


def exp(t):
    return fn("exp", T(t))


def log(t):
    t = T(t)
    if t.op == "fn" and t.args[0] == "root":     # ln of an n-th root; both are defined where the radicand is positive
        return mul(q(Fraction(1) / Fraction(t.args[2].args[0])), log(t.args[1]))
    return fn("log", t)


def acos(t):
    return fn("acos", T(t))


def floor(t):
    return fn("floor", T(t))


def app(name, out_idx, derivs, args):
    """Uninterpreted smooth function: component out_idx of the partial derivative
    ``derivs`` (a multiset of (arg position, flat index)) at ``args``."""
    return _mk("app", (name, tuple(out_idx), tuple(sorted(derivs)), tuple(args)))


# -- booleans ------------------------------------------------------------
def not_(a):
    a = T(a)
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "lt":
        return _mk("le", (ZERO, scale(a.args[1], -1)), "B")
    if a.op == "le":
        return _mk("lt", (ZERO, scale(a.args[1], -1)), "B")
    return _mk("not", (a,), "B")


def and_(*xs):
    out = {}
    for x in xs:
        x = T(x)
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.op == "and":
            for y in x.args:
                out[y] = 1
        else:
            out[x] = 1
    for x in out:
        if not_(x) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return next(iter(out))
    return _mk("and", tuple(sorted(out, key=lambda t: t.tid)), "B")


def or_(*xs):
    out = {}
    for x in xs:
        x = T(x)
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        if x.op == "or":
            for y in x.args:
                out[y] = 1
        else:
            out[x] = 1
    for x in out:
        if not_(x) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return next(iter(out))
    return _mk("or", tuple(sorted(out, key=lambda t: t.tid)), "B")


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    a, b = T(a), T(b)
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return not_(b)
    if b is FALSE:
        return not_(a)
    if a is b:
        return TRUE
    return _mk("iff", tuple(sorted((a, b), key=lambda t: t.tid)), "B")


def _posscale(d):
    """divide by the (positive) absolute leading coefficient"""
    if d.op == "add":
        k = abs(d.args[1][0][1])
        if k != 1:
            return scale(d, 1 / k)
    return d


def _order(a, b, op):
    a, b = T(a), T(b)
    if a is NAN or b is NAN:
        return FALSE
    if isinf(a) or isinf(b):
        return T(_infcmp(a, b, op))
    d = sub(b, a)
    if d.op == "q":
        v = d.args[0]
        return T(bool(v > 0 if op == "lt" else v >= 0))
    return _mk(op, (ZERO, _posscale(d)), "B")


def lt(a, b):
    """a < b, stored as 0 < d with d = (b-a) scaled to leading coefficient +-1"""
    return _order(a, b, "lt")


def le(a, b):
    return _order(a, b, "le")


def eq(a, b):
    a, b = T(a), T(b)
    if a.sort == "B" or b.sort == "B":
        return iff(a, b)
    if a is NAN or b is NAN:
        return FALSE
    if isinf(a) or isinf(b):
        return T(_infcmp(a, b, "eq"))
    d = sub(b, a)
    if d.op == "q":
        return T(d.args[0] == 0)
    d = _posscale(d)
    if _neg_lead(d):
        d = scale(d, -1)
    return _mk("eq", (ZERO, d), "B")


def ne(a, b):
    return not_(eq(a, b))


def _infcmp(a, b, op):
    va = 0 if not isinf(a) else (1 if a is INF else -1)
    vb = 0 if not isinf(b) else (1 if b is INF else -1)
    return {"lt": va < vb, "le": va <= vb, "eq": va == vb}[op]


def ite(c, a, b):
    c = T(c)
    a, b = T(a), T(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.sort == "B":
        return or_(and_(c, a), and_(not_(c), b))
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return _mk("ite", (c, a, b))


def absv(a):
    a = T(a)
    if a.op == "q":
        return q(abs(a.args[0]))
    return ite(le(ZERO, a), a, scale(a, -1))


def maxv(a, b):
    return ite(le(b, a), a, b)


def minv(a, b):
    return ite(le(a, b), a, b)


def sign(a):
    return ite(lt(ZERO, a), ONE, ite(lt(a, ZERO), q(-1), ZERO))


# -- traversal ------------------------------------------------------------
def children(t):
    op = t.op
    if op == "add":
        return [u for u, _ in t.args[1]]
    if op == "mul":
        return [b for b, _ in t.args]
    if op == "fn":
        return list(t.args[1:])
    if op == "app":
        return list(t.args[3])
    if op in ("ite", "lt", "le", "eq", "and", "or", "not", "iff"):
        return list(t.args)
    return []


def rebuild(t, f):
    """apply f to the children and rebuild with the smart constructors"""
    op = t.op
    if op == "add":
        c, items = t.args
        return add(q(c), *[scale(f(u), k) for u, k in items])
    if op == "mul":
        return mul(*[power(f(b), e) for b, e in t.args])
    if op == "fn":
        if t.args[0] == "root":
            return root(f(t.args[1]), int(t.args[2].args[0]))
        if t.args[0] == "inv":
            return power(f(t.args[1]), -1)
        return fn(t.args[0], *[f(a) for a in t.args[1:]])
    if op == "app":
        return app(t.args[0], t.args[1], t.args[2], [f(a) for a in t.args[3]])
    if op == "ite":
        c = f(t.args[0])
        if c is TRUE:
            return f(t.args[1])
        if c is FALSE:
            return f(t.args[2])
        return ite(c, f(t.args[1]), f(t.args[2]))
    if op == "lt":
        return lt(f(t.args[0]), f(t.args[1]))
    if op == "le":
        return le(f(t.args[0]), f(t.args[1]))
    if op == "eq":
        return eq(f(t.args[0]), f(t.args[1]))
    if op == "and":
        return and_(*[f(a) for a in t.args])
    if op == "or":
        return or_(*[f(a) for a in t.args])
    if op == "not":
        return not_(f(t.args[0]))
    if op == "iff":
        return iff(f(t.args[0]), f(t.args[1]))
    return t


import sys as _sys

_sys.setrecursionlimit(100000)


def subst(t, m, memo=None):
    """simultaneous substitution {term: term}"""
    if memo is None:
        memo = {}

    def go(u):
        r = memo.get(u)
        if r is None:
            r = m.get(u)
            if r is None:
                r = rebuild(u, go)
            memo[u] = r
        return r

    return go(t)


def walk(*ts):
    seen = set()
    stack = list(ts)
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        yield t
        stack.extend(children(t))


def free_vars(*ts):
    return sorted({t for t in walk(*ts) if t.op == "var"}, key=lambda t: t.tid)


# -- printing ------------------------------------------------------------
def show(t, depth=50):
    if depth < 0:
        return "..."
    op = t.op
    d = depth - 1
    if op == "q":
        return str(t.args[0])
    if op in ("pi", "inf", "nan"):
        return op
    if op == "tt":
        return "true"
    if op == "ff":
        return "false"
    if op == "var":
        return t.args[0]
    if op == "add":
        c, items = t.args
        parts = []
        for u, k in items:
            parts.append(show(u, d) if k == 1 else "%s*%s" % (k, show(u, d)))
        if c != 0:
            parts.append(str(c))
        return "(" + " + ".join(parts) + ")"
    if op == "mul":
        return "*".join(
            show(b, d) if e == 1 else "%s^%s" % (show(b, d), e) for b, e in t.args
        )
    if op == "fn":
        return "%s(%s)" % (t.args[0], ", ".join(show(a, d) for a in t.args[1:]))
    if op == "app":
        n, o, dv, a = t.args
        return "%s%s%s(%s)" % (
            n,
            "" if not o else list(o),
            "" if not dv else "'" + str(list(dv)),
            ", ".join(show(x, d) for x in a),
        )
    if op == "ite":
        return "(if %s then %s else %s)" % tuple(show(a, d) for a in t.args)
    sym = {"lt": " < ", "le": " <= ", "eq": " = ", "and": " & ", "or": " | ", "iff": " <=> "}
    if op in sym:
        return "(" + sym[op].join(show(a, d) for a in t.args) + ")"
    if op == "not":
        return "!" + show(t.args[0], d)
    return "<%s>" % op


# -- numeric evaluation --------------------------------------------------------
class EvalError(Exception):
    pass


def feval(t, env, ufs=None, memo=None):
    """float value of a real term / three-valued truth of a boolean term
    (True, False or None when the comparison is within tolerance)."""
    if memo is None:
        memo = {}

    def go(u):
        if u in memo:
            return memo[u]
        r = _ev(u)
        memo[u] = r
        return r

    def _ev(u):
        op = u.op
        if op == "q":
            return float(u.args[0])
        if op == "pi":
            return math.pi
        if op == "inf":
            return math.inf
        if op == "nan":
            return math.nan
        if op == "tt":
            return True
        if op == "ff":
            return False
        if op == "var":
            v = env[u.args[0]]
            return bool(v) if u.sort == "B" else float(v)
        if op == "add":
            c, items = u.args
            s = float(c)
            for w, k in items:
                s += go(w) * float(k)
            return s
        if op == "mul":
            p = 1.0
            for b, e in u.args:
                v = go(b)
                try:
                    p *= v ** float(e) if e != 1 else v
                except ZeroDivisionError:
                    p = math.nan
            if isinstance(p, complex):
                return math.nan
            return p
        if op == "fn":
            return _evfn(u.args[0], [go(a) for a in u.args[1:]])
        if op == "app":
            return float(ufs(u.args[0], u.args[1], u.args[2], [go(a) for a in u.args[3]]))
        if op == "ite":
            c = go(u.args[0])
            if c is None:
                a, b = go(u.args[1]), go(u.args[2])
                if abs(a - b) <= 1e-7 * (1 + abs(a) + abs(b)):
                    return a
                return a if _raw(u.args[0]) else b
            return go(u.args[1]) if c else go(u.args[2])
        if op in ("lt", "le", "eq"):
            d = u.args[1]
            v = go(d)
            mag = abs(v)
            if d.op == "add":
                mag = abs(float(d.args[0])) + sum(abs(go(w) * float(k)) for w, k in d.args[1])
            return _evcmp(op, v, mag)
        if op == "and":
            vs = [go(a) for a in u.args]
            return False if any(v is False for v in vs) else (None if None in vs else True)
        if op == "or":
            vs = [go(a) for a in u.args]
            return True if any(v is True for v in vs) else (None if None in vs else False)
        if op == "not":
            v = go(u.args[0])
            return None if v is None else not v
        if op == "iff":
            a, b = go(u.args[0]), go(u.args[1])
            return None if a is None or b is None else a == b
        raise EvalError(op)

    def _raw(c):
        """two-valued fallback"""
        if c.op in ("lt", "le", "eq"):
            a, b = go(c.args[0]), go(c.args[1])
            return {"lt": a < b, "le": a <= b, "eq": a == b}[c.op]
        if c.op == "and":
            return all(_raw(x) for x in c.args)
        if c.op == "or":
            return any(_raw(x) for x in c.args)
        if c.op == "not":
            return not _raw(c.args[0])
        if c.op == "iff":
            return _raw(c.args[0]) == _raw(c.args[1])
        return bool(go(c))

    return go(t)


TOL = 1e-7


def _evcmp(op, d, mag):
    """0 op d, with a tolerance relative to the magnitude of d's summands"""
    if d != d:
        return False
    if math.isinf(d):
        return {"lt": d > 0, "le": d > 0, "eq": False}[op]
    tol = TOL * (1 + (mag if mag == mag and not math.isinf(mag) else 0.0))
    if op == "eq":
        return abs(d) <= tol
    if d > tol:
        return True
    if d < -tol:
        return False
    if op == "le":
        return True if d >= 0 else None
    return None


def _evfn(name, a):
    x = a[0]
    try:
        if name == "root":
            return x ** (1.0 / a[1]) if x >= 0 else math.nan
        if name == "inv":
            return 1.0 / x if x != 0 else math.nan
        if name == "sin":
            return math.sin(x)
        if name == "cos":
            return math.cos(x)
        if name == "exp":
            return math.exp(x) if x < 700 else math.inf
        if name == "log":
            return math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)
        if name == "acos":
            return math.acos(x) if -1 <= x <= 1 else math.nan
        if name == "asin":
            return math.asin(x) if -1 <= x <= 1 else math.nan
        if name == "atan":
            return math.atan(x)
        if name == "atan2":
            return math.atan2(x, a[1])
        if name == "tanh":
            return math.tanh(x)
        if name == "logistic":
            return 1 / (1 + math.exp(-x))
        if name == "floor":
            return float(math.floor(x))
        if name == "powr":
            v = x ** a[1]
            return v if not isinstance(v, complex) else math.nan
        if name == "expm1":
            return math.expm1(x)
        if name == "log1p":
            return math.log1p(x)
        if name == "sinh":
            return math.sinh(x)
        if name == "cosh":
            return math.cosh(x)
        if name == "erf":
            return math.erf(x)
    except (ValueError, OverflowError, ZeroDivisionError):
        return math.nan
    raise EvalError(name)


def size(t, limit=1000):
    n = 0
    for _ in walk(t):
        n += 1
        if n >= limit:
            break
    return n


def finite_norm(fs, limit=10, combos=80):
    """Rewrite terms that take finitely many constant values (sums, products and
    roots of if-then-else with constant leaves) into conditions on those values."""
    memo, fin = {}, {}

    def values(t):
        """{value: condition} or None"""
        if t in fin:
            return fin[t]
        r = None
        if t.sort == "R":
            if t.op == "q":
                r = {t.args[0]: TRUE}
            elif t.op == "ite":
                a, b = values(t.args[1]), values(t.args[2])
                if a is not None and b is not None:
                    c = norm(t.args[0])
                    r = {}
                    for d, g in ((a, c), (b, not_(c))):
                        for v, k in d.items():
                            kk = and_(g, k)
                            r[v] = or_(r[v], kk) if v in r else kk
            elif t.op == "add":
                r = {t.args[0]: TRUE}
                for u, k in t.args[1]:
                    r = comb(r, values(u), lambda x, y, k=k: x + k * y)
                    if r is None:
                        break
            elif t.op == "mul":
                r = {Fraction(1): TRUE}
                for u, e in t.args:
                    if e != int(e) or e < 0:
                        r = None
                        break
                    r = comb(r, values(u), lambda x, y, e=e: x * y ** int(e))
                    if r is None:
                        break
            elif t.op == "fn" and t.args[0] == "root":
                a = values(t.args[1])
                if a is not None:
                    r = {}
                    n = int(t.args[2].args[0])
                    for v, c in a.items():
                        w = root(q(v), n) if v >= 0 else None
                        if w is None or w.op != "q":
                            r = None
                            break
                        r[w.args[0]] = or_(r[w.args[0]], c) if w.args[0] in r else c
        if r is not None:
            r = {v: c for v, c in r.items() if c is not FALSE}
            if len(r) > limit:
                r = None
        fin[t] = r
        return r

    def comb(a, b, f):
        if a is None or b is None or len(a) * len(b) > combos:
            return None
        r = {}
        for x, cx in a.items():
            for y, cy in b.items():
                c = and_(cx, cy)
                if c is FALSE:
                    continue
                v = f(x, y)
                r[v] = or_(r[v], c) if v in r else c
        return r if len(r) <= limit else None

    def norm(t):
        r = memo.get(t)
        if r is not None:
            return r
        if t.op in ("lt", "le", "eq") and t.args[1].op not in ("var", "q"):
            d = values(t.args[1])
            if d is not None:
                ok = {"lt": lambda v: v > 0, "le": lambda v: v >= 0, "eq": lambda v: v == 0}[t.op]
                r = or_(*[c for v, c in d.items() if ok(v)])
        elif t.sort == "R" and t.op in ("add", "mul", "fn"):
            d = values(t)
            if d is not None:
                items = list(d.items())
                r = q(items[-1][0])
                for v, c in items[:-1]:
                    r = ite(c, q(v), r)
        if r is None:
            r = rebuild(t, norm)
        memo[t] = r
        return r

    return [norm(f) for f in fs]
