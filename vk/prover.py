"""Discharging verification conditions.

Back ends: `nf` (exact rational-function normal form, vk.poly), z3 (nlsat and
default tactics) and cvc5 (CLI).  A goal counts as proved only if one of them
closes every leaf of the case analysis.
"""
from __future__ import annotations

import os
import subprocess
import sys
import tempfile
import time
from fractions import Fraction

if "/opt/veriftools/pyvenv/lib/python3.12/site-packages" not in sys.path:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402

from . import poly
from . import terms as t_
from .terms import FALSE, TRUE, ONE, ZERO, PI, and_, not_, or_, walk

z3.set_param("memory_max_size", 6000)


class Stats:
    def __init__(self):
        self.by = {}
        self.solver_s = 0.0
        self.leaves = 0

    def hit(self, k):
        self.leaves += 1
        self.by[k] = self.by.get(k, 0) + 1


class Res:
    def __init__(self, ok, why="", model=None, stats=None):
        self.ok, self.why, self.model, self.stats = ok, why, model, stats


# -- z3 encoding ---------------------------------------------------------------
class Enc:
    def __init__(self):
        self.memo = {}
        self.side = []
        self.atoms = {}  # Term -> z3 const
        self.byname = {}

    def const(self, t, pre):
        v = z3.Real("%s!%d" % (pre, t.tid)) if t.sort == "R" else z3.Bool("%s!%d" % (pre, t.tid))
        self.atoms[t] = v
        return v

    def enc(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._enc(t)
            self.memo[t] = r
        return r

    def _enc(self, t):
        op = t.op
        e = self.enc
        if op == "q":
            return z3.RealVal(str(t.args[0]))
        if op == "pi":
            v = self.const(t, "pi")
            self.side += [v > z3.RealVal("3.14159265358979"), v < z3.RealVal("3.14159265358980")]
            return v
        if op == "tt":
            return z3.BoolVal(True)
        if op == "ff":
            return z3.BoolVal(False)
        if op == "var":
            return self.const(t, t.args[0])
        if op == "add":
            c, items = t.args
            s = [e(u) if k == 1 else z3.RealVal(str(k)) * e(u) for u, k in items]
            if c != 0:
                s.append(z3.RealVal(str(c)))
            return z3.Sum(s) if len(s) > 1 else s[0]
        if op == "mul":
            fs = []
            for b, k in t.args:
                fs += [e(b)] * int(k)
            r = fs[0]
            for f in fs[1:]:
                r = r * f
            return r
        if op == "ite":
            return z3.If(e(t.args[0]), e(t.args[1]), e(t.args[2]))
        if op in ("lt", "le", "eq"):
            a, b = e(t.args[0]), e(t.args[1])
            return {"lt": a < b, "le": a <= b, "eq": a == b}[op]
        if op == "and":
            return z3.And([e(a) for a in t.args])
        if op == "or":
            return z3.Or([e(a) for a in t.args])
        if op == "not":
            return z3.Not(e(t.args[0]))
        if op == "iff":
            return e(t.args[0]) == e(t.args[1])
        if op == "app":
            args = [e(a) for a in t.args[3]]
            v = self.const(t, "app")
            self._cong(("app",) + t.args[:3], args, v)
            return v
        if op == "fn":
            return self._fn(t)
        raise TypeError("cannot encode %s" % op)

    def _cong(self, key, args, v):
        lst = self.byname.setdefault(key, [])
        if len(lst) < 12:
            for a2, v2 in lst:
                self.side.append(z3.Implies(z3.And([x == y for x, y in zip(args, a2)]), v == v2))
        lst.append((args, v))

    def _fn(self, t):
        name = t.args[0]
        args = [self.enc(a) for a in t.args[1:]]
        u = args[0]
        v = self.const(t, name)
        S = self.side.append
        if name == "root":
            n = int(t.args[2].args[0])
            p = v
            for _ in range(n - 1):
                p = p * v
            if t.args[1].op == "q":
                S(p == u)
            else:
                S(z3.Implies(u >= 0, p == u))
            S(v >= 0)
            return v
        if name == "inv":
            S(z3.Implies(u != 0, v * u == 1))
            return v
        pi = self.enc(PI)
        if name in ("sin", "cos"):
            other = t_._mk("fn", ("cos" if name == "sin" else "sin", t.args[1]))
            if other in self.atoms:
                w = self.atoms[other]
                S(v * v + w * w == 1)
            S(v <= 1)
            S(v >= -1)
            if name == "sin":
                S(z3.Implies(z3.And(u >= 0, u <= pi), v >= 0))
                S(z3.Implies(z3.And(u > 0, u < pi), v > 0))
                S(z3.Implies(z3.And(u <= 0, u >= -pi), v <= 0))
                S(z3.Implies(z3.And(u < 0, u > -pi), v < 0))
                S(z3.Implies(z3.Or(u == 0, u == pi, u == -pi), v == 0))
            else:
                S(z3.Implies(z3.And(2 * u >= -pi, 2 * u <= pi), v >= 0))
                S(z3.Implies(z3.And(2 * u > -pi, 2 * u < pi), v > 0))
                S(z3.Implies(u == 0, v == 1))
        elif name == "exp":
            S(v > 0)
            S(v >= 1 + u)
            S((u > 0) == (v > 1))
            S((u < 0) == (v < 1))
            for a2, v2 in self.byname.get(("exp",), [])[:8]:
                S((u < a2[0]) == (v < v2))
        elif name == "log":
            S(z3.Implies(u > 1, v > 0))
            S(z3.Implies(z3.And(u > 0, u < 1), v < 0))
            S(z3.Implies(u > 0, v <= u - 1))
            for a2, v2 in self.byname.get(("log",), [])[:8]:
                S(z3.Implies(z3.And(u > 0, a2[0] > 0), (u < a2[0]) == (v < v2)))
        elif name == "acos":
            S(v >= 0)
            S(v <= pi)
            S(z3.Implies(z3.And(u < 1, u >= -1), v > 0))
            S(z3.Implies(z3.And(u <= 1, u > -1), v < pi))
            S(z3.Implies(u == 1, v == 0))
            S(z3.Implies(u == -1, v == pi))
        elif name in ("asin", "atan"):
            S(2 * v >= -pi)
            S(2 * v <= pi)
            if name == "atan":
                S(2 * v > -pi)
                S(2 * v < pi)
                S((u > 0) == (v > 0))
                S((u < 0) == (v < 0))
        elif name == "atan2":
            S(v >= -pi)
            S(v <= pi)
        elif name == "tanh":
            S(v < 1)
            S(v > -1)
            S((u > 0) == (v > 0))
            S((u < 0) == (v < 0))
        elif name == "logistic":
            S(v > 0)
            S(v < 1)
        elif name == "floor":
            k = z3.Int("fl!%d" % t.tid)
            S(v == z3.ToReal(k))
            S(v <= u)
            S(u < v + 1)
        elif name == "powr":
            S(z3.Implies(u > 0, v > 0))
        self._cong((name,), args, v)
        return v


def slowdown():
    """solver limits are wall clock: stretch them when the machine is shared"""
    try:
        return min(4.0, max(1.0, os.getloadavg()[0] / (os.cpu_count() or 1)))
    except OSError:
        return 1.0


def smt(forms, timeout_ms, use_cvc5=False, stats=None, want_model=False):
    """check satisfiability of the conjunction; returns 'unsat'/'sat'/'unknown', model"""
    timeout_ms *= slowdown()
    enc = Enc()
    zs = [enc.enc(f) for f in forms]
    t0 = time.time()
    s = z3.Solver()
    s.set("timeout", int(timeout_ms))
    for f in zs + enc.side:
        s.add(f)
    try:
        r = str(s.check())
    except z3.Z3Exception:
        r = "unknown"
    model = None
    if r == "sat" and want_model:
        model = _model(s.model(), enc)
    be = "z3"
    if r == "unknown" and use_cvc5:
        r2 = _cvc5(s.to_smt2(), timeout_ms)
        if r2 == "unsat":
            r, be = r2, "cvc5"
    if stats is not None:
        stats.solver_s += time.time() - t0
        if r == "unsat":
            stats.hit(be)
    return r, model


def _cvc5(text, timeout_ms):
    f = tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False)
    try:
        f.write("(set-logic ALL)\n" + text)
        f.close()
        try:
            p = subprocess.run(
                ["cvc5", "--tlimit=%d" % timeout_ms, "--nl-cov", f.name],
                capture_output=True, text=True, timeout=timeout_ms / 1000 + 5,
            )
        except (subprocess.TimeoutExpired, OSError):
            return "unknown"
        out = p.stdout.strip().splitlines()
        return out[0] if out and out[0] in ("sat", "unsat") else "unknown"
    finally:
        os.unlink(f.name)


def _model(m, enc):
    out = {}
    for t, v in enc.atoms.items():
        if t.op != "var":
            continue
        try:
            x = m.eval(v, model_completion=True)
            if t.sort == "B":
                out[t.args[0]] = bool(z3.is_true(x))
            elif z3.is_rational_value(x):
                out[t.args[0]] = float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
            elif z3.is_algebraic_value(x):
                a = x.approx(20)
                out[t.args[0]] = float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
        except Exception:
            pass
    return out


# -- polynomial form of a literal ---------------------------------------------
def polyform(f):
    """denominator-free equivalent of a quantifier-free formula plus the list of
    denominators assumed non-zero; raises NeedSplit on an ite."""
    dens = []

    def go(f):
        op = f.op
        if op in ("lt", "le", "eq"):
            r = poly.rf(f.args[1])
            num = poly.p_term(r.num)
            if op == "eq":
                for k in r.den:
                    dens.append(k)
                return t_.eq(ZERO, num)
            fs = [num]
            for k, e in r.den.items():
                dens.append(k)
                if e % 2:
                    fs.append(poly.p_term(dict(k)))
            d = t_.mul(*fs)
            return t_._order(ZERO, d, op)
        if op in ("and", "or", "not", "iff"):
            return t_.rebuild(f, go)
        return f

    g = go(f)
    return g, [t_.ne(ZERO, poly.p_term(dict(k))) for k in set(dens)]


def first_ite_cond(*fs):
    """an innermost-condition-first ite condition without nested ites"""
    best = None
    for u in walk(*fs):
        if u.op == "ite":
            c = u.args[0]
            if not any(w.op == "ite" for w in walk(c)):
                if best is None or c.tid < best.tid:
                    best = c
    return best


def atoms_of(c):
    """the literal to split on inside a compound condition"""
    while c.op in ("and", "or", "not", "iff"):
        c = c.args[0]
    return c


def assume(c, val, fs):
    """substitute the literal c by its truth value"""
    m = {c: TRUE if val else FALSE, not_(c): FALSE if val else TRUE}
    if c.op == "le" and not val:      # 0<=d false: 0<d false, d=0 false
        d = c.args[1]
        m[t_._mk("lt", (ZERO, d), "B")] = FALSE
        m[t_.eq(ZERO, d)] = FALSE
    elif c.op == "lt" and val:
        d = c.args[1]
        m[t_._mk("le", (ZERO, d), "B")] = TRUE
        m[t_._mk("lt", (ZERO, t_.scale(d, -1)), "B")] = FALSE
        m[t_._mk("le", (ZERO, t_.scale(d, -1)), "B")] = FALSE
        m[t_.eq(ZERO, d)] = FALSE
    elif c.op == "eq" and val:
        d = c.args[1]
        for s in (1, -1):
            m[t_._mk("le", (ZERO, t_.scale(d, s)), "B")] = TRUE
            m[t_._mk("lt", (ZERO, t_.scale(d, s)), "B")] = FALSE
    memo = {}
    return [t_.subst(f, m, memo) for f in fs]


class Prover:
    def __init__(self, timeout=10.0, deadline=None, use_cvc5=True):
        self.timeout = timeout
        self.deadline = deadline
        self.stats = Stats()
        self.use_cvc5 = use_cvc5
        self.model = None
        self.why = ""

    # -- public ---------------------------------------------------------------
    def prove(self, hyps, goal, dens=()):
        hyps = [h for h in hyps if h is not TRUE]
        self.model, self.why = None, ""
        poly.DEADLINE[0] = min(time.time() + 3 * 60, self.deadline or 1e18)
        try:
            return self._prove(hyps, goal)
        except poly.TooBig:
            return self._fail("normal form too large", goal)
        finally:
            poly.DEADLINE[0] = float("inf")

    def _prove(self, hyps, goal):
        fs = self._floors(list(hyps) + [goal])
        if any(u.op == "ite" and u.args[1].op == "q" and u.args[2].op == "q" for u in walk(*fs)):
            fs = t_.finite_norm(fs)
        ts = poly.trig_norm(fs)
        hyps, goal = ts[:-1], ts[-1]
        return self._go(_flat(hyps), goal, 0)

    def _floors(self, fs):
        """replace floor(u) by k where the hypotheses bound u in [k, k+1)"""
        for _ in range(6):
            cands = []
            for u in walk(*fs):
                if u.op == "fn" and u.args[0] == "floor" and not any(
                        w.op == "fn" and w.args[0] == "floor" for w in walk(u.args[1])):
                    cands.append(u)
            if not cands:
                return fs
            simple = [h for h in fs[:-1] if h.op in ("lt", "le", "eq", "and") and t_.size(h, 60) < 60]
            m = {}
            for u in cands[:40]:
                for k in (0, 1, -1):
                    g = and_(t_.le(t_.q(k), u.args[1]), t_.lt(u.args[1], t_.q(k + 1)))
                    if g is TRUE or (g is not FALSE and smt(simple + [not_(g)], 400, stats=None)[0] == "unsat"):
                        m[u] = t_.q(k)
                        break
            if not m:
                return fs
            memo = {}
            fs = [t_.subst(f, m, memo) for f in fs]
        return fs

    def _solve_eqs(self, hyps, goal):
        """eliminate variables (or applications) fixed by a linear hypothesis"""
        for _ in range(12):
            hit = None
            for h in hyps:
                if h.op == "eq":
                    hit = _linear_solution(h.args[1])
                    if hit:
                        break
            if not hit:
                return hyps, goal
            x, val = hit
            memo = {}
            sub = {x: val}
            hyps = _flat([t_.subst(f, sub, memo) for f in hyps])
            goal = t_.subst(goal, sub, memo)
        return hyps, goal

    def _late(self):
        return self.deadline is not None and time.time() > self.deadline

    def _fail(self, why, goal):
        self.why = self.why or "%s: %s" % (why, t_.show(goal, 12)[:600])
        return False

    def infeasible(self, hyps, quick=True):
        if any(h is FALSE for h in hyps):
            return True
        hs = _relevant(hyps)
        st = Stats()
        r, _ = smt(hs, 500 if quick else 1000 * self.timeout, stats=st)
        self.stats.solver_s += st.solver_s
        return r == "unsat"

    def _go(self, hyps, goal, depth):
        if goal is TRUE:
            self.stats.hit("simp")
            return True
        if any(h is FALSE for h in hyps):
            self.stats.hit("simp")
            return True
        if goal in hyps:
            self.stats.hit("simp")
            return True
        if self._late():
            return self._fail("time budget exhausted", goal)
        poly.set_signs(hyps)
        op = goal.op
        if op == "and":
            return all(self._go(hyps, g, depth) for g in goal.args)
        if op == "iff":
            a, b = goal.args
            return self._go(_flat(hyps + [a]), b, depth) and self._go(_flat(hyps + [b]), a, depth)
        if op == "or":
            ds = list(goal.args)
            k = next((i for i, d in enumerate(ds) if d.op == "eq"), None)
            if k is None:
                k = next((i for i, d in enumerate(ds) if d.op in ("iff", "and")), None)
            if k is None:
                # a disjunction of order literals: refute its negation directly
                hs = _flat(hyps + [not_(d) for d in ds])
                return self._ineq(hs, FALSE, depth)
            rest = [not_(d) for i, d in enumerate(ds) if i != k]
            return self._go(_flat(hyps + rest), ds[k], depth)
        if op == "eq":
            if any(h.op == "eq" for h in hyps):
                hs, g = self._solve_eqs(hyps, goal)
                if g is TRUE or any(h is FALSE for h in hs):
                    self.stats.hit("simp")
                    return True
                if g is not goal:
                    if g.op == "eq":
                        poly.set_signs(hs)
                        return self._eq(hs, g, depth)
                    return self._ineq(hyps, goal, depth)
            return self._eq(hyps, goal, depth)
        if op in ("lt", "le", "not", "ff"):
            return self._ineq(hyps, goal, depth)
        if op == "tt":
            return True
        if op == "var":
            return self._ineq(hyps, goal, depth)
        return self._fail("unsupported goal", goal)

    def _split(self, hyps, goal, cond, depth):
        if depth > 60:
            return self._fail("case split too deep", goal)
        c = atoms_of(cond)
        if c.op == "ite" or any(w.op == "ite" for w in walk(c)):
            c2 = first_ite_cond(c)
            if c2 is not None:
                c = atoms_of(c2)
        for val in (True, False):
            lit = c if val else not_(c)
            hs = assume(c, val, hyps) + [lit]
            g = assume(c, val, [goal])[0]
            if g is TRUE:
                self.stats.hit("simp")
                continue
            hs = _flat(hs)
            poly.set_signs(hs)
            if any(u.op == "fn" and u.args[0] in ("sin", "cos") for u in walk(g)):
                ts = poly.trig_norm(hs + [g])
                hs, g = _flat(ts[:-1]), ts[-1]
            if self.infeasible(hs):
                self.stats.hit("z3")
                continue
            if not self._go(hs, g, depth + 1):
                return False
        return True

    def _eq(self, hyps, goal, depth):
        d = goal.args[1]
        if t_.size(d, 80) >= 80:
            try:
                with poly.limit(20):
                    zero = poly.vanishes(d)
                if zero:
                    self.stats.hit("nf")
                    return True
            except (poly.NeedSplit, poly.TooBig, ZeroDivisionError):
                pass
        try:
            r = poly.rf(d)
            if not r.num:
                self.stats.hit("nf")
                return True
        except poly.NeedSplit as s:
            return self._split(hyps, goal, s.cond, depth)
        except poly.TooBig:
            return self._ineq(hyps, goal, depth)
        except ZeroDivisionError:
            return self._fail("division by an identically zero term", goal)
        num = self._reduce(hyps, r.num)
        if not num:
            self.stats.hit("nf")
            return True
        return self._ineq(hyps, goal, depth)

    def _reduce(self, hyps, num):
        """reduce modulo hypothesis equations (multivariate division)"""
        eqs = []
        for h in hyps:
            if h.op == "eq":
                try:
                    r = poly.rf(h.args[1])
                    if r.num and len(r.num) < 40:
                        eqs.append(r.num)
                except Exception:
                    pass
        if not eqs:
            return num
        eqs.sort(key=lambda e: -max(sum(k for _, k in m) for m in e))
        # orient: solve for a variable that occurs linearly and alone if possible
        for _ in range(3):
            for e in eqs:
                num = _reduce1(num, e)
                if not num:
                    return num
        return num

    def _ineq(self, hyps, goal, depth):
        if self._late():
            return self._fail("time budget exhausted", goal)
        neg = not_(goal)
        t = self.timeout
        # 1. cheap attempt on the raw DAG
        raw = _relevant(hyps + [neg])
        has_ite = any(u.op == "ite" for u in walk(*raw))
        small = [f for f in raw if f is neg or t_.size(f, 30) < (9 if f.op == "eq" else 30)]
        if len(small) < len(raw) and len(raw) > 4:
            r, m = smt(small, min(700, t * 1000), stats=self.stats)
            if r == "unsat":
                return True
        r, m = smt(raw, min(2000, t * 1000), stats=self.stats, want_model=True)
        if r == "unsat":
            return True
        if m and self.model is None:
            self.model = m
        # 2. signs of the factors and summands
        if goal.op in ("lt", "le") and Signs(hyps, self).holds(goal):
            self.stats.hit("simp")
            return True
        # 3. case split
        if has_ite:
            c = first_ite_cond(*raw)
            if c is not None:
                return self._split(hyps, goal, c, depth)
        # split disjunctive hypotheses / boolean structure is left to the solver
        # 4. polynomial form
        forms, dens = [], []
        ok = True
        for f in raw:
            try:
                g, dd = polyform(f)
                forms.append(g)
                dens += dd
            except poly.NeedSplit as s:
                return self._split(hyps, goal, s.cond, depth)
            except (poly.TooBig, ZeroDivisionError):
                ok = False
                break
        if ok:
            ff = forms + dens
            if any(f is FALSE for f in ff):
                self.stats.hit("nf")
                return True
            r, m = smt(ff, t * 1000, use_cvc5=self.use_cvc5, stats=self.stats, want_model=True)
            if r == "unsat":
                return True
            if m and self.model is None:
                self.model = m
        if r != "sat":
            r, m = smt(raw, t * 1000, use_cvc5=self.use_cvc5, stats=self.stats, want_model=True)
            if r == "unsat":
                return True
            if m and self.model is None:
                self.model = m
        return self._fail("solver answered %s" % r, goal)


class Signs:
    """possible signs of a term from the signs of its factors and summands; the signs of the
    leaves follow from the (small) order hypotheses"""
    ALL = frozenset((-1, 0, 1))

    def __init__(self, hyps, prover, budget=150):
        self.hyps = [h for h in hyps if h.op in ("lt", "le", "eq", "not", "or") and t_.size(h, 40) < 40
                     and not any(u.op == "ite" for u in walk(h))]
        self.memo, self.left, self.prover = {}, budget, prover

    def holds(self, goal):
        a, b = goal.args
        if a is not ZERO or t_.size(b, 4000) >= 4000:
            return False
        s = self.sign(b)
        return s <= (frozenset((1,)) if goal.op == "lt" else frozenset((0, 1)))

    def sign(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._sign(t)
        return r

    def _sign(self, t):
        if t.op == "q":
            v = t.args[0]
            return frozenset(((v > 0) - (v < 0),))
        if t.op == "mul":
            r = frozenset((1,))
            for b, e in t.args:
                s = self.sign(b)
                if e < 0 and 0 in s:
                    return self.ALL
                if e % 2 == 0:
                    s = frozenset(x * x for x in s)
                r = frozenset(x * y for x in r for y in s)
            return r
        if t.op == "fn":
            n = t.args[0]
            if n == "inv":
                s = self.sign(t.args[1])
                return self.ALL if 0 in s else s
            if n == "exp":
                return frozenset((1,))
            if n == "root":
                s = self.sign(t.args[1])
                return self.ALL if -1 in s else s
            return self.ask(t)
        if t.op == "ite":
            return self.sign(t.args[1]) | self.sign(t.args[2])
        if t.op == "add":
            c, items = t.args
            if all(x.op == "var" for x, _ in items):
                return self.ask(t)
            r = self.sign(t_.T(c))
            for x, k in items:
                s = self.sign(x)
                if k < 0:
                    s = frozenset(-y for y in s)
                if any(a * b < 0 for a in r for b in s):
                    r = self.ALL
                    break
                r = frozenset(a or b for a in r for b in s)
            return self.ask(t) if r == self.ALL and t_.size(t, 40) < 40 else r
        return self.ask(t)

    def ask(self, t):
        def proved(g):
            if g is TRUE:
                return True
            self.left -= 1
            return self.left > 0 and not self.prover._late() and smt(self.hyps + [not_(g)], 300, stats=self.prover.stats)[0] == "unsat"
        if self.left <= 0:
            return self.ALL
        if proved(t_.le(ZERO, t)):
            return frozenset((1,)) if proved(t_.lt(ZERO, t)) else frozenset((0, 1))
        if proved(t_.le(t, ZERO)):
            return frozenset((-1,)) if proved(t_.lt(t, ZERO)) else frozenset((-1, 0))
        return self.ALL


def _linear_solution(d):
    """d = 0 read as x = rest for a variable or application x not in rest"""
    if d.op in ("var", "app") and d.sort == "R":
        return d, ZERO
    if d.op == "add":
        for x, k in d.args[1]:
            if x.op in ("var", "app"):
                rest = t_.sub(d, t_.scale(x, k))
                if not any(u is x for u in walk(rest)):
                    return x, t_.scale(rest, -1 / k)
    return None


def _flat(hs):
    out = []
    for h in hs:
        if h.op == "and":
            out.extend(h.args)
        elif h is not TRUE:
            out.append(h)
    return list(dict.fromkeys(out))


def _relevant(fs):
    return list(dict.fromkeys(f for f in fs if f is not TRUE))


def _reduce1(num, e):
    """reduce polynomial num by the equation e = 0 using the term of e that is
    lexicographically largest and has total degree > 0"""
    lead = max(e, key=lambda m: (sum(k for _, k in m), tuple((-x.tid, k) for x, k in m)))
    # prefer a linear single variable not occurring elsewhere in e
    for m in e:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "var":
            x = m[0][0]
            if sum(1 for mm in e if any(y is x for y, _ in mm)) == 1:
                lead = m
                break
    if not lead:
        return num
    ld = dict(lead)
    lc = e[lead]
    for _ in range(4000):
        tgt = None
        for m in num:
            d = dict(m)
            if all(d.get(x, 0) >= k for x, k in ld.items()):
                tgt = m
                break
        if tgt is None:
            return num
        d = dict(tgt)
        for x, k in ld.items():
            d[x] -= k
            if d[x] == 0:
                del d[x]
        mm = tuple(sorted(d.items(), key=lambda p: p[0].tid))
        c = num[tgt] / lc
        num = poly.p_add(num, poly.p_scale({poly.m_mul(mm, me): ce for me, ce in e.items()}, -c))
        # reapply atom relations
        num = poly._red(poly.RF(num)).num if not poly._red(poly.RF(num)).den else num
        if len(num) > 5000:
            return num
    return num


# -- definedness ------------------------------------------------------------
def definedness(roots):
    """[(guard conjunction, condition, description)] for every partial operation
    reachable from the given terms."""
    out = {}
    seen = set()
    memo = {}

    def partial(t):
        """number of partial operations below t"""
        r = memo.get(t)
        if r is None:
            r = 0
            for u in t_.walk(t):
                if u is t_.NAN or (u.op == "fn" and u.args[0] in ("inv", "root", "log", "acos", "asin", "powr")):
                    r += 1
            memo[t] = r
        return r

    guards = {}

    def visit(t, guard):
        if not partial(t):
            return
        key = (t, guard)
        if key in seen:
            return
        seen.add(key)
        if len(seen) > 200000:
            raise poly.TooBig
        gs = guards.setdefault(t, [])
        if len(gs) < 60:
            # already visited with a weaker guard
            if any(g <= guard for g in gs):
                return
            gs.append(guard)
        if t.op == "ite":
            c, a, b = t.args
            visit(c, guard)
            visit(a, guard | {c})
            visit(b, guard | {not_(c)})
            return
        if t.op in ("and", "or"):
            # booleans are total (a comparison with an undefined number is just some boolean), so an
            # operand matters only where the simpler operands do not decide the result
            parts = sorted(t.args, key=lambda a: (partial(a), a.tid))
            done = set()
            for a in parts:
                visit(a, guard | frozenset(done) if partial(a) else guard)
                done.add(a if t.op == "and" else not_(a))
            return
        if t.op == "fn":
            n, u = t.args[0], t.args[1]
            if n == "inv":
                out.setdefault((guard, t_.ne(u, ZERO)), "division by %s" % t_.show(u, 4)[:80])
            elif n == "root":
                out.setdefault((guard, t_.le(ZERO, u)), "root of %s" % t_.show(u, 4)[:80])
            elif n == "log":
                out.setdefault((guard, t_.lt(ZERO, u)), "log of %s" % t_.show(u, 4)[:80])
            elif n in ("acos", "asin"):
                out.setdefault((guard, and_(t_.le(u, ONE), t_.le(-ONE, u))), "%s of %s" % (n, t_.show(u, 4)[:80]))
            elif n == "powr":
                out.setdefault((guard, t_.lt(ZERO, u)), "power of %s" % t_.show(u, 4)[:80])
        if t is t_.NAN:
            out.setdefault((guard, FALSE), "not-a-number")
        for ch in t_.children(t):
            visit(ch, guard)

    for r in roots:
        visit(r, frozenset())
    return [(sorted(g, key=lambda t: t.tid), c, d) for (g, c), d in out.items() if c is not TRUE]
