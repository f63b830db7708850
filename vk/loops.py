"""Loop contracts over abstract vectors: candidate invariants, filtered numerically on executions of the
extracted loop body and then proved inductive (initialisation + preservation)."""
from __future__ import annotations

import itertools
import math
import time

import numpy as np

from . import avec, interp, prover
from . import terms as t_
from .avec import AVec, addv, applyH, dotv, scalev
from .terms import FALSE, HALF, ONE, TRUE, ZERO, T, and_, eq, implies, le, lt, not_, or_, q, sqrt, var


def scal(x):
    return interp.obj(x).reshape(-1)[0]


def elim(fs, name, w, shape):
    """substitute the base vector `name` := w in scalar terms"""
    m = {}
    for x in t_.free_vars(*fs):
        nm = x.args[0]
        if not nm.startswith("<"):
            continue
        ab, k = nm[1:-1].rsplit(";", 1)
        a, b = ab.split(",")
        if a == name or b == name:
            u = w if a == name else avec.base(a, shape)
            v = w if b == name else avec.base(b, shape)
            for _ in range(int(k)):
                v = applyH(v)
            m[x] = dotv(u, v)
    memo = {}
    return [t_.subst(f, m, memo) for f in fs]


def gram_facts(fs, cs=True, also=()):
    """positivity and Cauchy-Schwarz for the inner products that occur; `also`: vectors whose square is nonnegative"""
    names = set()
    for x in t_.free_vars(*fs):
        nm = x.args[0]
        if nm.startswith("<"):
            ab, k = nm[1:-1].rsplit(";", 1)
            names.update((n, 0) for n in ab.split(","))
    out = []
    for a in sorted(names):
        out.append(le(ZERO, avec.atom(a, a)))
    if cs:
        occ = set(t_.free_vars(*fs))
        for a, b in itertools.combinations(sorted(names), 2):
            if avec.atom(a, b) in occ:
                out.append(le(avec.atom(a, b) * avec.atom(a, b), avec.atom(a, a) * avec.atom(b, b)))
    for v in also:
        out.append(le(ZERO, dotv(v, v)))
    return out


class Leaf:
    def __init__(self, kind, idx, aval):
        self.kind, self.idx, self.aval = kind, idx, aval


class Loop:
    """one loop of the extracted code"""

    def __init__(self, ctx, guard, body, carry, avals, shape, name):
        self.ctx, self.guard_fn, self.body_fn, self.shape, self.name = ctx, guard, body, shape, name
        self.leaves = []
        self.init = []
        for i, (c, a) in enumerate(zip(carry, avals)):
            if tuple(a.shape) == tuple(shape):
                self.leaves.append("V")
                c = avec.lift(c)
                if not isinstance(c, AVec):
                    raise interp.Unsupported("loop state is not an abstract vector")
                self.init.append(c)
            elif a.shape == ():
                self.leaves.append("B" if a.dtype == np.bool_ else "S")
                self.init.append(scal(c))
            else:
                raise interp.Unsupported("loop state of shape %s" % (a.shape,))
        self.pre = self.havoc("")
        self.post = self.step(self.pre)

    def havoc(self, tag):
        r = []
        for i, k in enumerate(self.leaves):
            if k == "V":
                r.append(avec.base("%sV%d" % (tag, i), self.shape))
            else:
                r.append(var("%ss%d" % (tag, i), "B" if k == "B" else "R"))
        return r

    def arrays(self, st):
        return [x if isinstance(x, AVec) else avec.arr0(x) for x in st]

    def norm(self, out):
        return [avec.lift(o) if k == "V" else scal(o) for o, k in zip(out, self.leaves)]

    def step(self, st):
        return self.norm(self.body_fn(self.arrays(st)))

    def guard(self, st):
        g = self.guard_fn(self.arrays(st))
        return g if isinstance(g, t_.Term) else scal(g)

    def vs(self):
        return [i for i, k in enumerate(self.leaves) if k == "V"]

    def ss(self):
        return [i for i, k in enumerate(self.leaves) if k == "S"]


class Cand:
    """candidate invariant: cond guard => fact (when guarded) ; vec: residual vector that has to vanish"""

    def __init__(self, label, fact=None, vec=None, guarded=False, unless=None):
        self.label, self.fact, self.vec, self.guarded, self.unless = label, fact, vec, guarded, unless


class Result:
    pass


def vec_goals(v):
    return [eq(c, ZERO) for c in v.lc.values()]


def verify(loop, cands, hyps, gname, spaces, log, timeout=15.0, deadline=None, stats=None):
    """inductive subset of the candidates; returns (kept, obligations)"""
    obls = []

    def prove(hs, g, to=timeout):
        P = prover.Prover(timeout=to, deadline=deadline)
        t0 = time.time()
        try:
            ok = P.prove(hs, g)
            why = P.why
        except Exception as e:  # noqa: BLE001
            ok, why = False, "%s: %s" % (type(e).__name__, e)
        if stats is not None:
            for b, k in P.stats.by.items():
                stats["backends"][b] = stats["backends"].get(b, 0) + k
            stats["solver_s"] += P.stats.solver_s
        return ok, why, time.time() - t0

    # numeric filter
    alive = list(cands)
    for sp in spaces:
        for st, env, space, guard in simulate(loop, sp):
            keep = []
            for c in alive:
                try:
                    bad = numeric_false(c, loop, st, env, space, guard)
                except (KeyError, ValueError, ZeroDivisionError, OverflowError):
                    bad = False
                if not bad:
                    keep.append(c)
            alive = keep
    log("    loop %s: %d of %d candidate invariants survive execution" % (loop.name, len(alive), len(cands)))
    pre, post = loop.pre, loop.post
    g0, g1, gi = loop.guard(pre), loop.guard(post), loop.guard(loop.init)
    # initialisation
    ok_init = []
    for c in alive:
        good = True
        gs = [c.fact(loop.init)] if c.fact else vec_goals(c.vec(loop.init))
        un = c.unless(loop.init) if c.unless else FALSE
        hs = hyps + ([gi] if c.guarded else [])
        for g in gs:
            g = or_(un, g)
            ok, why, s = prove(hs + gram_facts(hs + [g]), g, 5.0)
            good &= ok
        if good:
            ok_init.append(c)
        else:
            log("    dropped at entry: %s" % c.label)
    alive = ok_init
    while True:
        # assumptions at the loop head
        vecs = [c for c in alive if c.vec is not None and c.guarded and not c.unless]
        el = None
        for c in vecs:
            r = c.vec(pre)
            k = r.lc.get((gname, 0))
            if k is not None and t_.is_num(k) and not any(n == gname and h for (n, h) in r.lc):
                w = scalev(addv(r, AVec(loop.shape, {(gname, 0): -k})), -ONE / k)
                el = w
                break
        assume = list(hyps) + [g0]
        for c in alive:
            if c.fact is not None and not c.unless:
                assume.append(c.fact(pre))
        facts = _flat(assume)
        dropped = []
        new_obls = []
        for c in alive:
            if c.fact is not None:
                gs = [c.fact(post)]
            else:
                rv = c.vec(post)
                if el is not None:
                    rv = avec.substv(rv, gname, el)
                gs = vec_goals(rv)
            un = c.unless(post) if c.unless else FALSE
            hs = facts + ([g1] if c.guarded else [])
            good = True
            why = ""
            secs = 0
            for g in gs:
                g = or_(un, g)
                fs = hs + [g]
                if el is not None:
                    fs = elim(fs, gname, el, loop.shape)
                fs = fs[:-1] + gram_facts(fs) + [fs[-1]]
                ok, why, s = prove(fs[:-1], fs[-1])
                secs += s
                if not ok:
                    good = False
                    break
            log("      %s %6.2fs %s %s" % ("kept   " if good else "dropped", secs, c.label, "" if good else str(why)[:200]))
            if not good:
                dropped.append(c)
            else:
                new_obls.append(("loop invariant preserved: " + c.label, secs))
        if not dropped:
            obls = [("loop invariant holds initially: " + c.label, 0.0) for c in alive] + new_obls
            break
        alive = [c for c in alive if c not in dropped]
    # definedness of the body under the invariant
    r = Result()
    r.kept, r.obls, r.prove = alive, obls, prove
    r.elim = el
    r.assume = assume
    # exit state
    ex = loop.havoc("x")
    gx = loop.guard(ex)
    r.exit = ex
    r.exit_facts = []
    for c in alive:
        if c.fact is None:
            continue
        f = c.fact(ex)
        if c.guarded:
            f = implies(gx, f)
        if c.unless:
            f = or_(c.unless(ex), f)
        r.exit_facts.append(f)
    r.exit_vec = [(c, c.unless(ex) if c.unless else None, c.vec(ex)) for c in alive if c.vec is not None]
    r.gx = gx
    return r


def _flat(fs):
    out = []
    for f in fs:
        if f.op == "and":
            out += _flat(f.args)
        elif f is not TRUE:
            out.append(f)
    return out


def simulate(loop, sp, maxit=12):
    """yields numeric loop states: sp = (env, Space)"""
    env0, space = sp

    def num(st, env):
        terms = [t for x in st for t in (x.lc.values() if isinstance(x, AVec) else [x])]
        space.atoms(terms, env)
        return [space.vec(x, env) if isinstance(x, AVec) else t_.feval(x, env) for x in st]

    env = dict(env0)
    st = num(loop.init, env)
    for _ in range(maxit):
        env = dict(env0)
        for i, (k, x) in enumerate(zip(loop.leaves, st)):
            if k == "V":
                space.vecs["V%d" % i] = x
            else:
                env["s%d" % i] = x
        g = loop.guard(loop.pre)
        space.atoms([g], env)
        gv = t_.feval(g, env)
        yield st, env, space, gv
        if gv is not True:
            return
        # body
        try:
            st = num(loop.post, env)
        except (ZeroDivisionError, ValueError, OverflowError):
            return
        if any(x is None or (not isinstance(x, bool) and not np.all(np.isfinite(np.asarray(x, dtype=float)))) for x in st):
            return


def numeric_false(c, loop, st, env, space, guard):
    if c.guarded and guard is not True:
        return False
    env = dict(env)
    if c.unless:
        u = c.unless(loop.pre)
        space.atoms([u], env)
        if t_.feval(u, env) is not False:
            return False
    if c.fact is not None:
        f = c.fact(loop.pre)
        space.atoms([f], env)
        return t_.feval(f, env) is False
    v = c.vec(loop.pre)
    space.atoms(list(v.lc.values()), env)
    x = space.vec(v, env)
    return float(np.linalg.norm(x)) > 1e-7 * (1 + sum(float(np.linalg.norm(space.vecs[n])) for (n, k) in v.lc))
