"""Exact rational-function normal form over algebraic atoms.

Atoms are variables, pi, uninterpreted applications and transcendental
function values.  Relations built in (all of them valid over the reals where
both sides are defined):
    root(u,n)^n = u          cos(t)^2 = 1 - sin(t)^2
    exp(a)exp(b) = exp(a+b)  exp(log u) = u     cos(acos u) = u
"""
from __future__ import annotations

import heapq
import time
from fractions import Fraction
from math import lcm

from . import terms as t_
from .terms import Term, _mk, q, ZERO, ONE

MAXTERMS = 60000


class NeedSplit(Exception):
    def __init__(self, cond):
        self.cond = cond


class TooBig(Exception):
    pass


DEADLINE = [float("inf")]      # wall clock limit of the current computation
_ticks = [0]


def tick(n=1):
    _ticks[0] += n
    if _ticks[0] > 20000:
        _ticks[0] = 0
        if time.time() > DEADLINE[0]:
            raise TooBig


class limit:
    """give up (TooBig) when the computation takes longer than the given seconds"""

    def __init__(self, secs):
        self.secs = secs

    def __enter__(self):
        self.old = DEADLINE[0]
        DEADLINE[0] = min(self.old, time.time() + self.secs)

    def __exit__(self, *a):
        DEADLINE[0] = self.old


F0, F1 = Fraction(0), Fraction(1)


def p_const(c):
    return {(): Fraction(c)} if c != 0 else {}


def p_add(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, F0) + c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def p_scale(a, k):
    return {m: c * k for m, c in a.items()} if k != 0 else {}


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for x, e in b:
        v = d.get(x, 0) + e
        if v == 0:
            d.pop(x, None)
        else:
            d[x] = v
    return tuple(sorted(d.items(), key=lambda p: p[0].tid))


def p_mul(a, b):
    if len(a) * len(b) > 4_000_000:
        raise TooBig
    r: dict = {}
    for m1, c1 in a.items():
        tick(len(b))
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            v = r.get(m, F0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    if len(r) > MAXTERMS:
        raise TooBig
    return r


def _reducible(x, e):
    if x.op == "fn":
        n = x.args[0]
        if n == "root" and e >= x.args[2].args[0]:
            return True
        if n == "cos" and e >= 2:
            return True
    return False


class RF:
    """num / prod(den_i^e_i); den_i are monic primitive polynomials (as frozensets)"""

    __slots__ = ("num", "den")

    def __init__(self, num, den=None):
        self.num = num
        self.den = den or {}

    def key(self):
        return (frozenset(self.num.items()), frozenset(self.den.items()))


def rf_const(c):
    return RF(p_const(c))


def rf_atom(a, e=1):
    return RF({((a, e),): F1})


def _den_poly(den):
    p = p_const(1)
    for k, e in den.items():
        f = dict(k)
        for _ in range(e):
            p = p_mul(p, f)
    return p


def rf_add(a, b):
    if not a.num:
        return b
    if not b.num:
        return a
    if a.den == b.den:
        return _red(RF(p_add(a.num, b.num), a.den))
    den = dict(a.den)
    for k, e in b.den.items():
        den[k] = max(den.get(k, 0), e)
    fa = _den_poly({k: e - a.den.get(k, 0) for k, e in den.items() if e > a.den.get(k, 0)})
    fb = _den_poly({k: e - b.den.get(k, 0) for k, e in den.items() if e > b.den.get(k, 0)})
    return _red(RF(p_add(p_mul(a.num, fa), p_mul(b.num, fb)), den))


def rf_mul(a, b):
    if not a.num or not b.num:
        return RF({})
    den = dict(a.den)
    for k, e in b.den.items():
        den[k] = den.get(k, 0) + e
    return _red(RF(p_mul(a.num, b.num), den))


def rf_scale(a, k):
    return RF(p_scale(a.num, k), a.den if k != 0 else {})


def rf_pow(a, n):
    r = rf_const(1)
    for _ in range(n):
        r = rf_mul(r, a)
    return r


def rf_inv(a):
    if not a.num:
        raise ZeroDivisionError
    num = _den_poly(a.den)
    # split numerator: monomial content * primitive part
    content: dict | None = None
    for m in a.num:
        d = dict(m)
        if content is None:
            content = d
        else:
            content = {x: min(e, d[x]) for x, e in content.items() if x in d}
        if not content:
            break
    content = {x: e for x, e in (content or {}).items() if e > 0 and Fraction(e).denominator == 1}
    den: dict = {}
    rest = a.num
    extra = None
    if content:
        inv = tuple(sorted(((x, -e) for x, e in content.items()), key=lambda p: p[0].tid))
        rest = {m_mul(m, inv): c for m, c in a.num.items()}
        for x, e in content.items():
            if x.op == "fn" and x.args[0] == "root":
                # 1/r = r^(n-1)/u
                n = int(x.args[2].args[0])
                b = rf_mul(rf_atom(x, n - 1), rf_inv(rf(x.args[1])))
                for _ in range(int(e)):
                    extra = b if extra is None else rf_mul(extra, b)
                continue
            den[frozenset({((x, 1),): F1}.items())] = int(e)
    if len(rest) == 1:
        (m, c), = rest.items()
        # leftover monomial: only exp atoms with fractional exponents
        inv = tuple((x, -e) for x, e in m)
        res = _red(RF(p_scale({m_mul(mm, inv): cc for mm, cc in num.items()}, 1 / c), den))
        return res if extra is None else rf_mul(res, extra)
    lead = rest[min(rest, key=_mkey)]
    rest = p_scale(rest, 1 / lead)
    k = frozenset(rest.items())
    den[k] = den.get(k, 0) + 1
    res = _red(RF(p_scale(num, 1 / lead), den))
    return res if extra is None else rf_mul(res, extra)


def _mkey(m):
    return tuple((x.tid, e) for x, e in m)


def _red(r):
    """apply atom relations, cancel common factors"""
    bad = None
    for m in r.num:
        for x, e in m:
            if _reducible(x, e):
                bad = True
                break
        if bad:
            break
    if bad:
        acc = RF({m: c for m, c in r.num.items() if not any(_reducible(x, e) for x, e in m)})
        groups: dict = {}
        for m, c in r.num.items():
            for i, (x, e) in enumerate(m):
                if _reducible(x, e):
                    rest = m[:i] + m[i + 1 :]
                    groups.setdefault((x, e), {})
                    groups[(x, e)][rest] = groups[(x, e)].get(rest, F0) + c
                    break
        for (x, e), p in groups.items():
            acc = rf_add(acc, rf_mul(RF(p), _atompow(x, e)))
        # acc may carry its own denominators
        den = dict(acc.den)
        for k, e in r.den.items():
            den[k] = den.get(k, 0) + e
        return _cancel(RF(acc.num, den))
    return _cancel(r)


def _atompow(x, e):
    if x.args[0] == "root":
        n = int(x.args[2].args[0])
        k, rem = divmod(int(e), n)
        r = rf_pow(rf(x.args[1]), k)
        return rf_mul(r, rf_atom(x, rem)) if rem else r
    if x.args[0] == "cos":
        k, rem = divmod(int(e), 2)
        s = _mk("fn", ("sin", x.args[1]))
        r = rf_pow(RF({(): F1, ((s, 2),): -F1}), k)
        return rf_mul(r, rf_atom(x, rem)) if rem else r
    raise AssertionError


def p_divexact(a, b):
    """a / b if exact else None (recursive multivariate division, lex order)"""
    if not a:
        return {}
    if len(b) > len(a) * 4 + 4 or len(a) > 3000:
        return None
    order = {}
    for p in (a, b):
        for m in p:
            for x, e in m:
                order.setdefault(x, len(order))
                if Fraction(e).denominator != 1 or e < 0:
                    return None
    vs = sorted(order, key=lambda x: x.tid)
    pos = {x: i for i, x in enumerate(vs)}

    def dense(p):
        out = {}
        for m, c in p.items():
            t = [0] * len(vs)
            for x, e in m:
                t[pos[x]] = -int(e)
            out[tuple(t)] = c
        return out

    # exponents are stored negated, so the leading monomial is the smallest key of the heap
    rem, B = dense(a), dense(b)
    lb = min(B)
    cb = B[lb]
    B = list(B.items())
    heap = list(rem)
    heapq.heapify(heap)
    qout: dict = {}
    steps = 0
    while rem:
        la = heapq.heappop(heap)
        c = rem.get(la)
        if c is None:
            continue
        steps += 1
        if steps > 2000:
            return None
        tick(len(B) * 3)
        m = tuple(x - y for x, y in zip(la, lb))
        if max(m, default=0) > 0:
            return None
        c = c / cb
        qout[m] = c
        for mb, c2 in B:
            k = tuple(x + y for x, y in zip(m, mb))
            v = rem.get(k)
            if v is None:
                rem[k] = -c * c2
                heapq.heappush(heap, k)
            else:
                v = v - c * c2
                if v == 0:
                    del rem[k]
                else:
                    rem[k] = v
    return {tuple((vs[i], -e) for i, e in enumerate(m) if e): c for m, c in qout.items()}


def _cancel(r):
    if not r.den:
        return r
    if not r.num:
        return RF({})
    num, den = r.num, dict(r.den)
    for k in list(den):
        f = dict(k)
        while den.get(k, 0) > 0:
            if len(f) == 1:
                (m, _), = f.items()
                (x, _), = m
                if all(any(y is x and e >= 1 for y, e in mm) for mm in num):
                    num = {m_mul(mm, ((x, -1),)): c for mm, c in num.items()}
                else:
                    break
            else:
                qd = p_divexact(num, f)
                if qd is None:
                    break
                num = qd
            den[k] -= 1
        if den.get(k) == 0:
            del den[k]
    return RF(num, den)


_memo: dict = {}
_memos: dict = {}
_wanted: set = set()   # terms whose sign some root needed
_signs: dict = {}


def clear():
    global _memo, _signs
    _memos.clear()
    _wanted.clear()
    _signs = {}
    _memo = {}
    _memos[frozenset()] = _memo


def set_signs(hyps):
    """sign context: facts 0 <= d / 0 < d among the hypotheses, for the terms
    whose sign a perfect-square root asked about"""
    global _memo, _signs
    new = {}
    if _wanted:
        for h in hyps:
            if h.op in ("lt", "le"):
                d = h.args[1]
                if d in _wanted:
                    new[d] = 1
                n = t_.scale(d, -1)
                if n in _wanted:
                    new[n] = -1
    if new != _signs:
        _signs = new
        key = frozenset(new.items())
        _memo = _memos.setdefault(key, {})


def _nonneg_atom(x):
    return x is t_.PI or (x.op == "fn" and x.args[0] in ("exp", "root", "acos"))


def sign_of(p):
    """+1/-1 for a polynomial of known weak sign, else asks for a case split"""
    if all(c > 0 for c in p.values()) and all(
            e % 2 == 0 or _nonneg_atom(x) for m in p for x, e in m):
        return 1
    d = t_._posscale(p_term(p))
    if d in _signs:
        return _signs[d]
    n = t_.scale(d, -1)
    if n in _signs:
        return -_signs[n]
    _wanted.add(d)
    raise NeedSplit(t_._mk("le", (ZERO, d), "B"))


def p_sqrt(p):
    """polynomial s with s*s = p (as polynomials in the atoms), or None"""
    if len(p) > 200:
        return None
    vs = set()
    for m in p:
        for x, e in m:
            if Fraction(e).denominator != 1 or e < 0:
                return None
            vs.add(x)
    vs = sorted(vs, key=lambda x: x.tid)

    def key(m):
        d = dict(m)
        return tuple(d.get(v, 0) for v in vs)

    def mono(k):
        return tuple((v, e) for v, e in zip(vs, k) if e)

    lead = max(p, key=key)
    k0 = key(lead)
    if any(e % 2 for e in k0):
        return None
    c0 = t_.root(q(p[lead]), 2)
    if p[lead] < 0 or c0.op != "q":
        return None
    c0 = c0.args[0]
    l0 = tuple(e // 2 for e in k0)
    s = {mono(l0): c0}
    rem = p_add(p, {lead: -p[lead]})
    steps = 0
    while rem:
        steps += 1
        if steps > 40:
            return None
        lr = max(rem, key=key)
        kr = key(lr)
        kn = tuple(a - b for a, b in zip(kr, l0))
        if any(e < 0 for e in kn):
            return None
        c = rem[lr] / (2 * c0)
        t = {mono(kn): c}
        if mono(kn) in s:
            return None
        # rem -= 2*s*t + t^2
        rem = p_add(rem, p_scale(p_add(p_scale(p_mul(s, t), 2), p_mul(t, t)), -1))
        s = p_add(s, t)
    return s


def rf(t: Term) -> RF:
    r = _memo.get(t)
    if r is None:
        r = _rf(t)
        _memo[t] = r
    return r


def _rf(t):
    op = t.op
    if op == "q":
        return rf_const(t.args[0])
    if op in ("pi", "var"):
        return rf_atom(t)
    if op == "add":
        c, items = t.args
        acc = rf_const(c)
        for u, k in items:
            acc = rf_add(acc, rf_scale(rf(u), k))
        return acc
    if op == "mul":
        acc = rf_const(1)
        for b, e in t.args:
            for _ in range(int(e)):
                acc = rf_mul(acc, rf(b))
        return acc
    if op == "ite":
        raise NeedSplit(t.args[0])
    if op == "app":
        n, o, d, a = t.args
        return rf_atom(_mk("app", (n, o, d, tuple(canon_s(x) for x in a))))
    if op == "fn":
        name = t.args[0]
        if name == "inv":
            return rf_inv(rf(t.args[1]))
        if name == "root":
            return _rf_root(t)
        if name == "exp":
            return _rf_exp(t)
        if name == "cos" and t.args[1].op == "fn" and t.args[1].args[0] == "acos":
            return rf(t.args[1].args[1])
        if name == "sin" and t.args[1].op == "fn" and t.args[1].args[0] == "acos":
            u = t.args[1].args[1]
            return rf(t_.sqrt(t_.sub(ONE, t_.mul(u, u))))
        a = tuple(canon_s(x) for x in t.args[1:])
        u = t_.fn(name, *a)
        if u.op == "fn":
            return rf_atom(u)
        if u is t:
            return rf_atom(t)
        return rf(u)
    if op in ("nan", "inf"):
        raise TooBig
    raise TypeError(op)


def _rf_root(t):
    u, n = t.args[1], int(t.args[2].args[0])
    r = rf(u)
    if not r.num:
        return RF({})
    # numeric content
    lead = abs(r.num[min(r.num, key=_mkey)])
    k = t_.root(q(lead), n)
    r0 = RF(p_scale(r.num, 1 / lead), r.den)
    if n == 2:
        # even denominator powers and perfect-square numerators come out as |.|
        den_out, den_in = {}, {}
        for dk, e in r0.den.items():
            if e // 2:
                den_out[dk] = e // 2
            if e % 2:
                den_in[dk] = 1
        s = p_sqrt(r0.num) if not den_in else None
        if s is not None or den_out:
            sg = 1
            if s is not None:
                sg *= sign_of(s)
            for dk, e in den_out.items():
                if e % 2:
                    sg *= sign_of(dict(dk))
            if s is not None:
                body = _red(RF(p_scale(s, sg), den_out))
            else:
                inner = rf(_mk("fn", ("root", to_term(RF(r0.num, den_in)), q(2)))) if den_out else None
                body = _red(RF(p_scale(inner.num, sg), _merge(inner.den, den_out)))
            return rf_scale(body, k.args[0]) if k.op == "q" else rf_mul(rf_atom(k), body)
    if len(r0.num) == 1 and not r0.den:
        (m, c), = r0.num.items()
        # pull out even powers of atoms that are themselves nonnegative roots/exps
        out, rest = [], []
        for x, e in m:
            if x.op == "fn" and x.args[0] == "exp":
                out.append((x, Fraction(e) / n))
            else:
                rest.append((x, e))
        if out:
            r0 = RF({tuple(rest): c})
            outp = RF({tuple((x, (int(e) if Fraction(e).denominator == 1 else e)) for x, e in out): F1})
        else:
            outp = None
        if not rest and c == 1:
            body = outp or rf_const(1)
        else:
            body = rf_atom(_mk("fn", ("root", to_term(r0), q(n))))
            if outp:
                body = rf_mul(body, outp)
    else:
        body = rf_atom(_mk("fn", ("root", to_term(r0), q(n))))
    if k.op == "q":
        return rf_scale(body, k.args[0])
    return rf_mul(rf_atom(k), body)


def _merge(a, b):
    d = dict(a)
    for k, e in b.items():
        d[k] = d.get(k, 0) + e
    return d


def _rf_exp(t):
    a = rf(t.args[1])
    if a.den:
        return rf_atom(_mk("fn", ("exp", to_term(a))))
    acc = rf_const(1)
    for m, c in a.num.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "fn" and m[0][0].args[0] == "log":
            u = m[0][0].args[1]
            acc = rf_mul(acc, rf(t_.power(u, c)))
        else:
            e = int(c) if c.denominator == 1 else c
            base = to_term(RF({m: F1}))
            acc = rf_mul(acc, RF({((_mk("fn", ("exp", base)), e),): F1}))
    return acc


def _mono_term(m):
    fs = []
    for x, e in m:
        if x.op == "fn" and x.args[0] == "exp" and (e < 0 or Fraction(e).denominator != 1):
            fs.append(t_.fn("exp", t_.scale(x.args[1], e)))
        elif e < 0:
            fs.append(t_.power(x, int(e)))
        else:
            fs.append(t_.power(x, e))
    return t_.mul(*fs) if fs else ONE


def p_term(p):
    return t_.add(ZERO, *[t_.scale(_mono_term(m), c) for m, c in p.items()])


def to_term(r: RF) -> Term:
    num = p_term(r.num)
    if not r.den:
        return num
    fs = [num]
    for k, e in r.den.items():
        fs.append(t_.power(p_term(dict(k)), -e))
    return t_.mul(*fs)


def _has_den(t, memo):
    """does the term contain a reciprocal outside of the arguments of applications and roots"""
    r = memo.get(t)
    if r is None:
        if t.op == "fn":
            r = t.args[0] == "inv"
        elif t.op == "add":
            r = any(_has_den(u, memo) for u, _ in t.args[1])
        elif t.op == "mul":
            r = any(_has_den(b, memo) for b, _ in t.args)
        else:
            r = False
        memo[t] = r
    return r


def summands(t, memo, limit=3000):
    """t as a list of (factor terms, coefficient), distributed over sums of fractions only"""
    if t.op == "add":
        c, items = t.args
        out = [([], c)] if c else []
        for u, k in items:
            out += [(f, x * k) for f, x in summands(u, memo, limit)]
            if len(out) > limit:
                raise TooBig
        return out
    if t.op == "mul":
        out = [([], F1)]
        for b, e in t.args:
            for _ in range(int(e)):
                parts = summands(b, memo, limit) if b.op in ("add", "mul") and _has_den(b, memo) else [([b], F1)]
                if len(parts) * len(out) > limit:
                    raise TooBig
                out = [(f + g, x * y) for f, x in out for g, y in parts]
        return out
    return [([t], F1)]


def vanishes(t):
    """t = 0 by the normal form of its parts with equal denominators (never cross-multiplies different ones)"""
    groups = {}
    for fs, k in summands(t, {}):
        r = rf_const(k)
        for f in fs:
            r = rf_mul(r, rf(f))
        key = frozenset(r.den.items())
        groups[key] = rf_add(groups[key], r) if key in groups else r
    again = {}
    for r in groups.values():
        if r.num:
            key = frozenset(r.den.items())
            again[key] = rf_add(again[key], r) if key in again else r
    return all(not r.num for r in again.values())


def canon_s(t: Term) -> Term:
    """canonical form; case-split requests propagate to the caller"""
    try:
        return to_term(rf(t))
    except (TooBig, ZeroDivisionError):
        return t


def canon(t: Term) -> Term:
    try:
        return to_term(rf(t))
    except (NeedSplit, TooBig, ZeroDivisionError):
        return t


# -- trigonometric normalisation ---------------------------------------------
def trig_norm(ts):
    """Rewrite every sin/cos in the list of terms over a common set of base
    angles using the angle addition formulas."""
    args = set()
    for u in t_.walk(*ts):
        if u.op == "fn" and u.args[0] in ("sin", "cos"):
            args.add(u.args[1])
    if not args:
        return list(ts)
    L: dict = {}
    mono: dict = {}

    def monos(a):
        r = mono.get(a)
        if r is None:
            try:
                f = rf(a)
                if f.den:
                    r = [(((canon(a), 1),), F1)]
                    c = to_term(f)
                    if c.op == "add" and c.args[0] == 0 and len(c.args[1]) == 1:
                        r = [(((c.args[1][0][0], 1),), c.args[1][0][1])]
                else:
                    r = list(f.num.items())
            except (NeedSplit, TooBig, ZeroDivisionError):
                # treat as a linear combination of opaque pieces
                c, items = t_._lin(a)
                r = [(((u, 1),), k) for u, k in items]
                if c != 0:
                    r.append(((), c))
            mono[a] = r
        return r

    for a in args:
        for m, c in monos(a):
            L[m] = lcm(L.get(m, 1), c.denominator)

    base: dict = {}

    def mono_term(m):
        return t_.mul(*[t_.power(x, e) for x, e in m]) if m else ONE

    def cs_base(m):
        r = base.get(m)
        if r is None:
            a = t_.scale(mono_term(m), Fraction(1, L[m]))
            if a.op == "fn" and a.args[0] == "acos":
                u = a.args[1]
                r = (u, t_.sqrt(t_.sub(ONE, t_.mul(u, u))))
            elif a.op == "fn" and a.args[0] == "asin":
                u = a.args[1]
                r = (t_.sqrt(t_.sub(ONE, t_.mul(u, u))), u)
            else:
                r = (_mk("fn", ("cos", a)), _mk("fn", ("sin", a)))
            base[m] = r
        return r

    def cs(a):
        C, S = ONE, ZERO
        for m, c in monos(a):
            if len(m) == 1 and m[0][0] is t_.PI and m[0][1] == 1 and (2 * c).denominator == 1:
                k = int(2 * c) % 4
                c1, s1 = [(ONE, ZERO), (ZERO, ONE), (q(-1), ZERO), (ZERO, q(-1))][k]
            else:
                k = int(c * L[m])
                cb, sb = cs_base(m)
                sg = 1
                if k < 0:
                    k, sg = -k, -1
                c1, s1 = ONE, ZERO
                for _ in range(k):
                    c1, s1 = (
                        t_.sub(t_.mul(c1, cb), t_.mul(s1, sb)),
                        t_.add(t_.mul(s1, cb), t_.mul(c1, sb)),
                    )
                s1 = t_.scale(s1, sg)
            C, S = (
                t_.sub(t_.mul(C, c1), t_.mul(S, s1)),
                t_.add(t_.mul(S, c1), t_.mul(C, s1)),
            )
        return C, S

    memo: dict = {}

    def go(u):
        r = memo.get(u)
        if r is None:
            if u.op == "fn" and u.args[0] in ("sin", "cos"):
                C, S = cs(u.args[1])
                r = C if u.args[0] == "cos" else S
            else:
                r = t_.rebuild(u, go)
            memo[u] = r
        return r

    return [go(u) for u in ts]
