"""Contracts, verification-condition generation and the runner for one contract."""
from __future__ import annotations

import json
import math
import os
import random
import sys
import time
import traceback
import types
import zlib

import jax
import jax.numpy as jnp
import numpy as np

from . import front, interp, poly, prover, rng
from . import terms as t_
from .terms import FALSE, TRUE, Term, and_, not_

REPO = os.environ.get("MAGPI_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)


def magpi():
    import importlib

    ns = types.SimpleNamespace()
    for n in ("calc domain integrate model ode opt prelude quaternions r_fun sampling spline "
              "surface_integral tr utils").split():
        try:
            mod = importlib.import_module("magpi." + n)
        except Exception as e:  # reported when a contract touches it
            mod = _Broken(n, e)
        setattr(ns, n, mod)
    return ns


class _Broken:
    def __init__(self, n, e):
        self.__dict__["_n"], self.__dict__["_e"] = n, e

    def __getattr__(self, k):
        raise ImportError("magpi.%s cannot be imported: %r" % (self._n, self._e))


class NS(types.SimpleNamespace):
    pass


class Contract:
    """requires/ensures on a real function.

    inputs   {name: shape}         universally quantified real arrays
    ufs      {name: (in_shapes, out_shape)}   universally quantified smooth functions
    requires(v) -> [Term]          precondition
    run(m, v)  -> pytree           the call into the real code (m: magpi modules)
    ensures(v, o) -> [(label, Term[, opts])]   postcondition over inputs v and result o
    """

    def __init__(self, name, fn, inputs=None, ufs=None, requires=None, run=None, ensures=None,
                 sample=None, n=10, tol=1e-6, raises=None, defined=True, timeout=20.0, budget=240.0,
                 bounded=None, concrete=None, scale=2.0, ctx=None, assumes=(), consts=None, tier="quick",
                 numeric=True, points=(), cuts=None, keyinputs=(), note="", axioms=None, split=False, symbolic=True):
        self.symbolic = symbolic
        self.split = split
        self.name, self.fn = name, fn if isinstance(fn, (list, tuple)) else [fn]
        self.inputs, self.ufspecs = dict(inputs or {}), dict(ufs or {})
        self.requires, self.run, self.ensures = requires, run, ensures
        self.sample, self.n, self.tol, self.raises = sample, n, tol, raises
        self.defined, self.timeout, self.budget = defined, timeout, budget
        self.bounded, self.concrete, self.scale = bounded, concrete or {}, scale
        self.ctxmaker, self.assumes, self.consts = ctx, list(assumes), consts or {}
        self.tier, self.numeric, self.points, self.cuts = tier, numeric, list(points), cuts
        self.keyinputs, self.note, self.axioms = keyinputs, note, axioms or {}
        self.prop = None


# -- symbolic side ---------------------------------------------------------------
def sym_array(name, shape):
    a = np.empty(shape, dtype=object)
    if shape == ():
        a[()] = t_.var(name)
        return a
    for idx in np.ndindex(*shape):
        a[idx] = t_.var("%s[%s]" % (name, ",".join(map(str, idx))))
    return a


def _ufs(c):
    return {n: front.UF(c.name + ":" + n, ins, out) for n, (ins, out) in c.ufspecs.items()}


def spec_ns(c):
    """the v namespace for requires/ensures: Terms"""
    v = NS()
    for n, s in c.inputs.items():
        a = sym_array(n, s)
        setattr(v, n, a if s != () else a.item())
    for n, u in _ufs(c).items():
        setattr(v, n, u)
    for n, x in c.consts.items():
        setattr(v, n, x)
    return v


def run_ns(c, arrays):
    v = NS()
    for n, a in zip(c.inputs, arrays):
        setattr(v, n, a)
    for n, u in _ufs(c).items():
        setattr(v, n, u)
    for n, x in c.consts.items():
        setattr(v, n, x)
    return v


def _out_vars(shapes_tree_leaves, tree, statics):
    """result pytree with fresh out variables in place of arrays"""
    leaves, mapping = [], []
    k = 0
    for st, sh in zip(statics, shapes_tree_leaves):
        if st is not None:
            leaves.append(st.v)
            continue
        a = sym_array("out%d" % k, sh[0])
        if sh[1]:
            a = _boolify(a)
        mapping.append(a)
        leaves.append(a if sh[0] != () else a.item())
        k += 1
    return jax.tree_util.tree_unflatten(tree, leaves), mapping


def _boolify(a):
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        out[i] = t_.var(a[i].args[0], "B")
    return out


class Obl:
    def __init__(self, label, hyps, goal, opts=None, kind="post"):
        self.label, self.hyps, self.goal, self.opts, self.kind = label, hyps, goal, opts or {}, kind
        self.status = None
        self.why = ""
        self.secs = 0.0
        self.model = None
        self.backend = {}


def norm_ens(lst):
    out = []
    for e in lst:
        if len(e) == 2:
            out.append((e[0], e[1], {}))
        else:
            out.append(tuple(e))
    return out


def lift(x):
    """make sure goals are Terms (numpy bools happen when everything is concrete)"""
    if isinstance(x, Term):
        return x
    return t_.T(x)


def conj(a):
    """conjunction over an array/list of Terms"""
    if isinstance(a, np.ndarray):
        return and_(*list(a.reshape(-1)))
    if isinstance(a, (list, tuple)):
        return and_(*[conj(x) for x in a])
    return a


def eqs(a, b):
    """componentwise equality of two arrays of Terms, with shape agreement"""
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    if a.shape != b.shape:
        return FALSE
    if a.shape == ():
        return t_.eq(t_.T(a.item()), t_.T(b.item()))
    return and_(*[t_.eq(t_.T(x), t_.T(y)) for x, y in zip(a.reshape(-1), b.reshape(-1))])


def vcgen(c, m):
    """verification conditions of one contract from the current source"""
    v = spec_ns(c)
    req = [lift(x) for x in (c.requires(v) if c.requires else [])]
    avals = [jax.ShapeDtypeStruct(s, jnp.float64) for s in c.inputs.values()]

    def fun(*xs):
        return c.run(m, run_ns(c, xs))

    paths = front.trace(fun, avals)
    obls, info = [], {"paths": len(paths), "prims": set(), "assumed": {}, "outterms": []}
    work = [(p, []) for p in paths][::-1]
    while work:
        p, dec = work.pop()
        ctx = c.ctxmaker(v) if c.ctxmaker else interp.Ctx()
        ctx.decisions = list(dec)
        if c.split:
            ctx.split_index = True
        args = [sym_array(n, s) for n, s in c.inputs.items()]
        ctx, conds, outs = front.execute(p, args, ctx)
        work += [(p, d) for d in ctx.pending[::-1]]
        info["prims"] |= ctx.prims
        for k, x in ctx.assumed.items():
            info["assumed"][k] = info["assumed"].get(k, 0) + x
        hyps = req + conds + list(ctx.facts)
        tag = "" if len(paths) == 1 else " [path %s]" % "".join("T" if d else "F" for d in p.decisions)
        if ctx.decisions:
            tag += " [case %s]" % ",".join(map(str, ctx.decisions))
            info["cases"] = info.get("cases", 0) + 1
        for lbl, hs, g in ctx.obls:
            obls.append(Obl(lbl + tag, req + conds + list(hs), g, kind="inv"))
        if p.exc is not None:
            if c.raises is None:
                obls.append(Obl("no exception (%s)" % type(p.exc).__name__ + tag, hyps, FALSE,
                                {"exc": repr(p.exc)[:500]}, kind="exc"))
            else:
                obls.append(Obl("raises only outside the domain" + tag, hyps, lift(c.raises(v, p.exc)), kind="exc"))
            continue
        shapes = []
        k = 0
        for st in p.statics:
            if st is not None:
                shapes.append(None)
            else:
                o = outs[k]
                isb = p.jaxpr.jaxpr.outvars[k].aval.dtype == np.bool_
                shapes.append((tuple(np.shape(o)) if not getattr(o, "is_avec", False) else o.shape, bool(isb)))
                k += 1
        res, mapping = _out_vars(shapes, p.tree, p.statics)
        sub = {}
        for a, o in zip(mapping, outs):
            oo = interp.obj(o)
            for i in np.ndindex(*a.shape):
                sub[a[i]] = oo[i]
        info["outterms"].append((conds + ctx.case_conds, sub))
        memo = {}
        if c.defined:
            try:
                defs = prover.definedness(set(sub.values()))
            except poly.TooBig:
                defs = [([], FALSE, "definedness condition too large")]
            for g, cond, d in defs:
                obls.append(Obl("defined: " + d + tag, hyps + g, cond, kind="def"))
        extra = []
        if c.cuts is not None:
            for lbl, f, o in norm_ens(c.cuts(v, res)):
                f = t_.subst(lift(f), sub, memo)
                obls.append(Obl("lemma " + lbl + tag, hyps + list(extra), f, o, kind="lemma"))
                if o.get("use", True):
                    extra.append(f)
        for lbl, f, o in norm_ens(c.ensures(v, res)):
            f = t_.subst(lift(f), sub, memo)
            ex = []
            for h in o.get("using", ()):  # instantiated lemma terms already proved as cuts
                ex.append(t_.subst(lift(h), sub, memo))
            obls.append(Obl(lbl + tag, hyps + extra + ex, f, o))
    for o in obls:
        if any(u.op == "app" and u.args[0].startswith("rng:") for u in t_.walk(o.goal)):
            o.hyps = o.hyps + rng.distinct_keys([o.goal])
    if c.axioms:
        # contracts of the abstract callees, instantiated at every call
        for o in obls:
            o.hyps = o.hyps + instances(c, o.hyps + [o.goal])
    return v, req, obls, info


def instances(c, fs):
    out = []
    seen = set()
    todo = list(fs)
    while todo:
        new = []
        for u in t_.walk(*todo):
            if u.op == "app" and u not in seen:
                seen.add(u)
                nm = u.args[0].split(":", 1)[1]
                if u.args[2]:           # a derivative of the callee
                    ax = c.axioms.get("d:" + nm)
                    ax = ax and (lambda u, a, o, ax=ax: ax(u, a, o, tuple(u.args[2])))
                else:
                    ax = c.axioms.get(nm)
                if ax is not None:
                    for f in ax(u, list(u.args[3]), u.args[1]):
                        if f is not TRUE:
                            new.append(f)
        out += new
        todo = new
    return out


# -- numeric side -----------------------------------------------------------------
def default_uf(seed, name, ins, out):
    """a generic smooth function with non-trivial derivatives of every order"""
    rs = np.random.RandomState(zlib.crc32(("%s/%d" % (name, seed)).encode()) % (2**31))
    nin = sum(int(np.prod(s)) for s in ins)
    nout = int(np.prod(out)) if out else 1
    W = jnp.asarray(rs.uniform(-1, 1, (nout, 3, nin)))
    b = jnp.asarray(rs.uniform(-1, 1, (nout, 3)))
    a = jnp.asarray(rs.uniform(-1, 1, (nout, 3)))
    L = jnp.asarray(rs.uniform(-1, 1, (nout, nin)))
    Q = jnp.asarray(rs.uniform(-0.5, 0.5, (nout, nin, nin)))
    k = jnp.asarray(rs.uniform(0.2, 1, (nout,)))

    def f(*xs):
        z = jnp.concatenate([jnp.ravel(x) for x in xs])
        y = jnp.sum(a * jnp.sin(W @ z + b), -1) + L @ z + jnp.einsum("oij,i,j->o", Q, z, z) + k
        return y.reshape(out)

    return f


class NumUF:
    """evaluates app atoms with the concrete functions"""

    def __init__(self, c):
        self.c = c
        self.cache = {}

    def __call__(self, name, out_idx, derivs, args):
        key = (name, out_idx, derivs, tuple(args))
        if key in self.cache:
            return self.cache[key]
        f = front.CONCRETE[name]
        ins, out = self.c.ufspecs[name.split(":", 1)[1]]
        xs, k = [], 0
        for s in ins:
            n = int(np.prod(s)) if s else 1
            xs.append(jnp.asarray(np.array(args[k:k + n]).reshape(s)))
            k += n
        jk = ("jac", name, tuple(j for j, _ in derivs))
        g = self.cache.get(jk)
        if g is None:
            g = f
            for j, _ in derivs:
                g = jax.jacfwd(g, argnums=j)
            g = jax.jit(g)
            self.cache[jk] = g
        vk = ("val", name, tuple(j for j, _ in derivs), tuple(args))
        val = self.cache.get(vk)
        if val is None:
            val = np.asarray(g(*xs))
            self.cache[vk] = val
        idx = tuple(out_idx)
        for j, fl in derivs:
            idx += tuple(np.unravel_index(fl, ins[j])) if ins[j] else ()
        r = float(val[idx])
        self.cache[key] = r
        return r


def flat_env(c, vals):
    env = {}
    for n, s in c.inputs.items():
        a = np.asarray(vals[n], dtype=float).reshape(s)
        if s == ():
            env[n] = float(a)
        else:
            for idx in np.ndindex(*s):
                env["%s[%s]" % (n, ",".join(map(str, idx)))] = float(a[idx])
    return env


def unflat(c, env, rng):
    vals = {}
    for n, s in c.inputs.items():
        a = np.zeros(s)
        for idx in np.ndindex(*s):
            key = n if s == () else "%s[%s]" % (n, ",".join(map(str, idx)))
            a[idx] = env.get(key, rng.uniform(-1, 1))
        vals[n] = a
    return vals


class Trial:
    def __init__(self, status, label="", detail="", vals=None, outs=None, uf_seed=0):
        self.status, self.label, self.detail = status, label, detail
        self.vals, self.outs, self.uf_seed = vals, outs, uf_seed


def try_point(c, m, v, req, vals, uf_seed=0, terms=None):
    """run the real code on one input; 'skip' if the precondition is not (clearly) met"""
    for n, (ins, out) in c.ufspecs.items():
        mk = c.concrete.get(n)
        front.CONCRETE[c.name + ":" + n] = mk(uf_seed) if mk else default_uf(uf_seed, n, ins, out)
    old = t_.TOL
    t_.TOL = c.tol
    try:
        env = flat_env(c, vals)
        ufs = NumUF(c)
        memo = {}
        for r in req:
            try:
                if t_.feval(r, env, ufs, memo) is not True:
                    return Trial("skip")
            except Exception:
                return Trial("skip")
        arrays = [jnp.asarray(np.asarray(vals[n], dtype=float).reshape(s)) for n, s in c.inputs.items()]
        try:
            out = c.run(m, run_ns(c, arrays))
        except Exception as e:  # noqa: BLE001
            if c.raises is not None:
                f = lift(c.raises(v, e))
                if t_.feval(f, env, ufs) is not False:
                    return Trial("ok", vals=vals)
            return Trial("fail", "exception", "".join(traceback.format_exception_only(type(e), e))[:600], vals, uf_seed=uf_seed)
        leaves, tree = jax.tree_util.tree_flatten(out, is_leaf=lambda x: x is None)
        statics, shapes, nums = [], [], []
        for l in leaves:
            if isinstance(l, (jnp.ndarray, np.ndarray, float, int, np.generic)) and not isinstance(l, bool):
                a = np.asarray(l)
                statics.append(None)
                shapes.append((a.shape, a.dtype == np.bool_))
                nums.append(a)
            else:
                statics.append(front.Static(l))
                shapes.append(None)
        res, mapping = _out_vars(shapes, tree, statics)
        outs = []
        for a, x in zip(mapping, nums):
            for i in np.ndindex(*a.shape):
                env[a[i].args[0]] = x[i].item()
            outs.append(x.tolist())
        memo = {}
        bad = None
        inconcl = False
        for lbl, f, o in norm_ens(c.ensures(v, res)):
            if o.get("nonum"):
                continue
            f = lift(f)
            r = t_.feval(f, env, ufs, memo)
            if r is False:
                bad = (lbl, t_.show(f, 8)[:400])
                break
            if r is None:
                inconcl = True
        if bad:
            return Trial("fail", bad[0], "postcondition false: " + bad[1], vals, outs, uf_seed)
        if c.defined and any(np.isnan(np.asarray(x, dtype=float)).any() for x in nums if x.dtype.kind == "f"):
            return Trial("fail", "defined", "result contains NaN", vals, outs, uf_seed)
        # extraction cross-check: the symbolic result evaluates to the real one
        t = Trial("ok" if not inconcl else "inconclusive", vals=vals, outs=outs)
        t.mismatch = None
        if terms:
            for conds, sub in terms:
                try:
                    cv = [t_.feval(x, env, ufs, memo) for x in conds]
                    if any(x is not True for x in cv):
                        continue
                    for k, term in sub.items():
                        if any(w.op == "var" and "#" in w.args[0] for w in t_.walk(term)):
                            continue
                        a = t_.feval(term, env, ufs, memo)
                        b = env[k.args[0]]
                        if isinstance(a, bool) or isinstance(b, bool) or a is None:
                            if a is not None and bool(a) != bool(b):
                                t.mismatch = t.mismatch or "%s: %r vs %r" % (k.args[0], a, b)
                            continue
                        if a != a or b != b:
                            continue
                        if abs(a - b) > 1e-5 * (1 + abs(a) + abs(b)):
                            t.mismatch = "%s: extracted %r, real %r" % (k.args[0], a, b)
                except Exception as e:  # pragma: no cover
                    t.mismatch = None
        return t
    finally:
        t_.TOL = old


def samples(c, rng, n):
    out = []
    for p in c.points:
        out.append(p if not callable(p) else p(rng))
    k = 0
    while len(out) < n + len(c.points):
        k += 1
        if c.sample is not None:
            out.append(c.sample(rng))
            continue
        vals = {}
        mode = k % 4
        for nme, s in c.inputs.items():
            if mode == 1:
                vals[nme] = rng.randint(-2, 3, s).astype(float) if s else float(rng.randint(-2, 3))
            elif mode == 2:
                vals[nme] = rng.uniform(0, 1, s)
            elif mode == 3:
                vals[nme] = rng.uniform(-1, 1, s)
            else:
                vals[nme] = rng.normal(0, c.scale, s)
        out.append(vals)
    return out


def boundary_points(c, v, req, obls, rng, k=6):
    """inputs produced by the solver: models of the precondition together with
    the branch conditions met in the code (so every guarded case is exercised)"""
    if c.ufspecs and not c.inputs:
        return []
    conds = []
    seen = set()
    for o in obls:
        for u in t_.walk(o.goal):
            if u.op == "ite":
                for w in t_.walk(u.args[0]):
                    if w.op in ("lt", "le", "eq") and w not in seen:
                        seen.add(w)
                        conds.append(w)
    pts = []
    rng2 = random.Random(rng.randint(0, 2**31 - 1))
    rng2.shuffle(conds)
    for w in conds[:k]:
        for f in (w, not_(w), t_.eq(w.args[1], t_.ZERO)):
            try:
                r, mdl = prover.smt(poly.trig_norm(req + [f]), 300, want_model=True)
            except Exception:
                continue
            if r == "sat" and mdl:
                pts.append(unflat(c, mdl, rng))
    return pts


# -- one contract end to end -----------------------------------------------------
def check_contract(c, seed=1, tier="quick", log=None, deadline=None):
    t0 = time.time()
    m = magpi()
    poly.clear()
    res = {"contract": c.name, "functions": c.fn, "bounded": c.bounded, "assumes": list(c.assumes),
           "obligations": [], "violations": [], "samples": 0, "satisfied": 0, "paths": 0,
           "solver_s": 0.0, "backends": {}, "assumed": {}, "note": c.note}
    rng = np.random.RandomState((zlib.crc32(c.name.encode()) + seed * 7919) % (2**31))
    err = None
    v = spec_ns(c)
    req = [lift(x) for x in (c.requires(v) if c.requires else [])]
    obls, info = [], {"outterms": [], "paths": 0, "assumed": {}}
    try:
        if c.symbolic:
            v, req, obls, info = vcgen(c, m)
    except Exception as e:  # noqa: BLE001
        err = e
        tb = traceback.format_exc()
    res["paths"] = info["paths"]
    res["assumed"] = info["assumed"]
    # numeric replay of the contract on the real code
    fails = []
    mismatch = None

    def attempt(vals, k):
        nonlocal mismatch
        t = try_point(c, m, v, req, vals, uf_seed=k % 3 + seed, terms=info["outterms"])
        res["samples"] += 1
        if t.status in ("ok", "inconclusive"):
            res["satisfied"] += 1
            if getattr(t, "mismatch", None) and mismatch is None:
                mismatch = (t.mismatch, vals)
        elif t.status == "fail":
            res["satisfied"] += 1
            fails.append(t)
        return t

    if c.numeric:
        n = c.n * (5 if tier == "thorough" else 1)
        for k, vals in enumerate(samples(c, rng, n)):
            attempt(vals, k)
            if fails:
                break
    # proof
    budget_end = time.time() + c.budget * (2 if tier == "thorough" else 1) * prover.slowdown()
    if deadline:
        budget_end = min(budget_end, deadline)
    if err is not None:
        res["obligations"].append({"label": "extraction", "status": "failed", "why": "%s: %s" % (type(err).__name__, str(err)[:400])})
    elif not fails:
        retries = 2
        for o in obls:
            ot = time.time()
            P = prover.Prover(timeout=o.opts.get("timeout", c.timeout), deadline=budget_end)
            try:
                ok = P.prove(o.hyps, o.goal)
                why = P.why
                if not ok and retries and ("answered unknown" in why or "budget exhausted" in why) and time.time() + 120 < (deadline or 1e18):
                    # undecided is not refuted: once more with more time
                    retries -= 1
                    P = prover.Prover(timeout=3 * o.opts.get("timeout", c.timeout), deadline=min(time.time() + 240, deadline or 1e18))
                    ok = P.prove(o.hyps, o.goal)
                    why = P.why
            except Exception as e:  # noqa: BLE001
                ok, why = False, "%s: %s" % (type(e).__name__, str(e)[:300])
            o.status = "proved" if ok else "failed"
            o.why = why if not ok else ""
            if o.opts.get("exc") and not ok:
                o.why = o.opts["exc"] + " / " + o.why
            o.secs = time.time() - ot
            o.model = P.model if not ok else None
            for b, k in P.stats.by.items():
                res["backends"][b] = res["backends"].get(b, 0) + k
            res["solver_s"] += P.stats.solver_s
            res["obligations"].append({"label": o.label, "status": o.status, "why": o.why[:600], "secs": round(o.secs, 3), "kind": o.kind})
            if log:
                log("    %-8s %6.2fs %s %s" % (o.status, o.secs, o.label[:110], o.why[:300]))
    bad = [o for o in obls if o.status == "failed"]
    # look for a failing input for the failed obligations
    if (bad or err is not None) and not fails and c.numeric:
        extra = []
        for o in bad:
            if o.model:
                extra.append(unflat(c, o.model, rng))
        try:
            if obls:
                extra += boundary_points(c, v, req, bad or obls, rng)
        except Exception:
            pass
        end = min(time.time() + 60, (deadline or 1e18) + 30)
        for k, vals in enumerate(extra + samples(c, rng, 120)):
            attempt(vals, k)
            if fails or time.time() > end:
                break
    for f in fails[:1]:
        res["violations"].append({"kind": "input", "contract": c.name, "label": f.label, "detail": f.detail,
                                  "inputs": {n: np.asarray(x).tolist() for n, x in f.vals.items()},
                                  "outputs": f.outs, "uf_seed": f.uf_seed, "functions": c.fn})
    if not fails:
        for o in bad[:3]:
            res["violations"].append({"kind": "obligation", "contract": c.name, "label": o.label, "detail": o.why,
                                      "functions": c.fn, "model": o.model})
        if err is not None:
            res["violations"].append({"kind": "obligation", "contract": c.name, "label": "extraction",
                                      "detail": tb[-2000:], "functions": c.fn})
        if not bad and err is None:
            if mismatch:
                res["violations"].append({"kind": "obligation", "contract": c.name, "label": "extraction cross-check",
                                          "detail": mismatch[0], "functions": c.fn,
                                          "model": {k: np.asarray(x).tolist() for k, x in mismatch[1].items()}})
            elif not obls and c.symbolic:
                res["violations"].append({"kind": "obligation", "contract": c.name, "label": "no obligations generated",
                                          "detail": "", "functions": c.fn})
            elif c.numeric and res["satisfied"] == 0:
                res["violations"].append({"kind": "obligation", "contract": c.name, "label": "vacuous precondition",
                                          "detail": "no sampled input satisfied the precondition", "functions": c.fn})
    res["wall_s"] = time.time() - t0
    return res
