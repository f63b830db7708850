"""C18 trust region step solver (steihaug), C19 trust region update, C20 trust region radius (magpi.tr)."""
import time

import jax
import jax.numpy as jnp
import numpy as np

from .lib import *
from vk import avec, contract, front, interp, loops, prover
from vk.avec import addv, applyH, dotv, scalev
from vk.loops import Cand

F = "magpi.tr."


def contracts(prop):
    return {"C18": c18, "C19": c19, "C20": c20}[prop]()


class Steihaug:
    """loop contract of steihaug in an arbitrary inner product space"""
    tier = "quick"
    vary = True

    def __init__(self, name, maxiter, unroll, n=3):
        self.name, self.maxiter, self.unroll, self.n = name, maxiter, unroll, n
        self.fn = [F + "steihaug"]
        self.prop = None

    def call(self, m, g, H, D, e):
        r = m.tr.steihaug(g, H, D, e, maxiter=self.maxiter, unroll=self.unroll)
        return r.p, r.step_length, r.converged, r.norm_r, r.iter_num, r.curvature

    # -- numeric side -----------------------------------------------------------
    def trial(self, m, g, H, D, e, k=None):
        f = jax.jit(lambda g, H, D, e: self.call(m, g, lambda x: H @ x, D, e))
        p, sl, conv, nr, it, cu = [np.asarray(x) for x in f(g, H, D, e)]
        g, H = np.asarray(g), np.asarray(H)
        np_ = np.linalg.norm(p)
        qm = g @ p + 0.5 * p @ H @ p
        sc = 1 + np.linalg.norm(H) * D * D + np.linalg.norm(g) * D
        if not np.all(np.isfinite(p)):
            return "defined", "step is not finite"
        if np_ > D * (1 + 1e-9) + 1e-12:
            return "the step stays in the trust region", "|p| = %r > %r" % (np_, D)
        if qm > 1e-9 * sc:
            return "the step does not increase the model", "model change %r" % qm
        if not np.isclose(sl, np_, rtol=1e-9, atol=1e-12):
            return "reported step length", "%r vs %r" % (float(sl), np_)
        ng = np.linalg.norm(g)
        if ng >= e * (1 + 1e-9) and D > 1e-3 and ng > 1e-3 and not qm < -1e-12:
            return "the model strictly decreases unless already converged", "model change %r" % qm
        if bool(conv) and np_ < D * (1 - 1e-6) and np.linalg.norm(g + H @ p) > e * (1 + 1e-6) + 1e-9 * sc:
            return "an interior converged step solves the model", "residual %r > %r" % (np.linalg.norm(g + H @ p), e)
        if k == "cg" and len(g) <= self.limit(len(g)) and (not bool(conv) or int(it) > len(g)):
            return "conjugate directions", "%d iterations for a well conditioned positive definite model in %d unknowns" % (int(it), len(g))
        if not bool(conv) and int(it) < self.limit(len(g)):
            return "stops early only when converged", "iterations %d" % int(it)
        return None

    def limit(self, n):
        return self.maxiter if self.maxiter is not None else 10 * n

    def near(self, rng, g, H):
        """a radius slightly beyond one of the first iterates, so the boundary is left from close by"""
        z, r = np.zeros(len(g)), g.copy()
        d, zs = -g, []
        for _ in range(min(3, len(g))):
            c = d @ H @ d
            if c <= 0:
                break
            a = r @ r / c
            z = z + a * d
            rn = r + a * H @ d
            d = -rn + rn @ rn / (r @ r) * d
            r = rn
            zs.append(np.linalg.norm(z))
        zs = zs[:-1] or zs
        return zs[rng.randint(len(zs))] * (1 + 10.0 ** rng.uniform(-6, -0.5)) if zs else 1.0

    def sample(self, rng, k):
        n = self.n if k < 6 or not self.vary else (2, 4, 6, 8, self.n, 5)[(k // 6) % 6]
        B = rng.randn(n, n)
        H = B + B.T
        if k % 3 == 1:
            H = B @ B.T + 0.1 * np.eye(n)
        if k % 3 == 2:
            H = -B @ B.T
        g = rng.randn(n) * 10.0 ** rng.uniform(-1, 1)
        return g, H, 10.0 ** rng.uniform(-1, 1.5), 10.0 ** rng.uniform(-6, -1)

    def replay(self, d):
        m = contract.magpi()
        i = d["inputs"]
        r = self.trial(m, jnp.array(i["g"]), jnp.array(i["H"]), i["tr_radius"], i["eps"], i.get("kind"))
        print("real code:", r)
        return 1 if r else 0

    # -- proof --------------------------------------------------------------------
    def check(self, seed=1, tier="quick", log=print, deadline=None):
        t0 = time.time()
        m = contract.magpi()
        res = {"contract": self.name, "functions": self.fn, "bounded": None,
               "assumes": ["steihaug: hvp is linear and self-adjoint (proved of the real products in C16); vectors are one array leaf",
                           "steihaug: the three-address form of jaxopt.loop.while_loop is the traced loop"],
               "obligations": [], "violations": [], "samples": 0, "satisfied": 0, "paths": 1, "solver_s": 0.0, "backends": {}, "assumed": {}, "note": ""}
        rng = np.random.RandomState(seed + 17)
        fail = None
        for k in range(48 if tier == "quick" else 200):
            g, H, D, e = self.sample(rng, k)
            kind = None
            if k % 6 == 4:
                n = len(g)
                B = rng.uniform(-1, 1, (n, n)) / n
                kind, H, D, e = "cg", np.diag(np.arange(1.0, n + 1)) + 0.5 * B @ B.T, 1e3, 1e-6
            elif k % 6 in (1, 3):
                D, e = self.near(rng, g, H), 1e-9
            r = None
            try:
                r = self.trial(m, jnp.array(g), jnp.array(H), D, e, kind)
            except Exception as ex:  # noqa: BLE001
                r = ("exception", repr(ex)[-300:])
            res["samples"] += 1
            res["satisfied"] += 1
            if r:
                fail = (r, dict(g=g.tolist(), H=H.tolist(), tr_radius=D, eps=e, kind=kind))
                break
        if fail:
            res["violations"].append({"kind": "input", "contract": self.name, "label": fail[0][0], "detail": fail[0][1],
                                      "inputs": fail[1], "functions": self.fn})
            res["obligations"].append({"label": fail[0][0], "status": "failed", "why": fail[0][1]})
            res["wall_s"] = time.time() - t0
            return res
        try:
            self.proof(m, res, log, rng, deadline)
        except Exception as ex:  # noqa: BLE001
            import traceback
            res["obligations"].append({"label": "extraction", "status": "failed", "why": repr(ex)[:300]})
            res["violations"].append({"kind": "obligation", "contract": self.name, "label": "extraction",
                                      "detail": traceback.format_exc()[-1500:], "functions": self.fn})
        for o in res["obligations"]:
            if o["status"] != "proved" and not res["violations"]:
                res["violations"].append({"kind": "obligation", "contract": self.name, "label": o["label"], "detail": o["why"], "functions": self.fn})
        res["wall_s"] = time.time() - t0
        return res

    def defs(self, L, r, used, res, log, shape):
        """partial operations: everything the loop computes when it goes on, and the returned vector in any round"""
        out = {nm for (nm, k) in used.lc}
        g1 = L.guard(L.post)
        for i, x in enumerate(L.post):
            last = ("xV%d" % i) in out
            terms = list(x.lc.values()) if isinstance(x, avec.AVec) else [x]
            also = []
            for b in ([x] if isinstance(x, avec.AVec) else []) + [y for y in L.post if isinstance(y, avec.AVec)]:
                also.append(b)
            for gd, cond, dsc in prover.definedness(set(terms)):
                hs = loops._flat(r.assume) + list(gd) + ([] if last else [g1])
                fs = hs + [cond]
                if r.elim is not None:
                    fs = loops.elim(fs, "g", r.elim, shape)
                ok, why, s = r.prove(fs[:-1] + loops.gram_facts(fs, also=also), fs[-1])
                log("      %s %6.2fs defined: leaf %d %s %s" % ("proved" if ok else "failed", s, i, dsc, why[:200] if not ok else ""))
                res["obligations"].append({"label": "defined in the loop: leaf %d %s" % (i, dsc), "status": "proved" if ok else "failed", "why": why, "secs": round(s, 3), "kind": "def"})

    def proof(self, m, res, log, rng, deadline):
        n = self.n
        shape = (n,)
        H = front.UF(self.name + ":H", (shape,), shape)
        jx = jax.make_jaxpr(lambda g, D, e: self.call(m, g, H, D, e))(jnp.zeros(n), 1.0, 1e-3)
        D, e = t_.var("Delta"), t_.var("eps")
        hyps = [lt(0, D), lt(0, e)]
        g = avec.base("g", shape)
        state = {}

        def qm(x):
            return dotv(g, x) + HALF * dotv(x, applyH(x))

        def rule(ctx, guard, body, carry, avals):
            L = loops.Loop(ctx, guard, body, carry, avals, shape, "steihaug")
            V, S = L.vs(), L.ss()
            C = []
            G = []
            for i in V:
                C.append(Cand("|V%d| <= radius" % i, lambda s, i=i: le(dotv(s[i], s[i]), D * D)))
                C.append(Cand("model(V%d) <= 0" % i, lambda s, i=i: le(qm(s[i]), 0)))
            for i in S:
                if np.issubdtype(avals[i].dtype, np.integer):
                    C.append(Cand("s%d >= 0" % i, lambda s, i=i: le(0, s[i])))
                    for j in S:
                        if j < i and np.issubdtype(avals[j].dtype, np.integer):
                            C.append(Cand("s%d = s%d" % (i, j), lambda s, i=i, j=j: eq(s[i], s[j])))
                    for j in V:
                        C.append(Cand("s%d = 0 or model(V%d) < 0" % (i, j), lambda s, i=i, j=j: or_(le(s[i], 0), lt(qm(s[j]), 0))))
                    for j in S:
                        if j != i and L.init[j].op not in ("inf",):
                            C.append(Cand("s%d = 0 => s%d initial" % (i, j), lambda s, i=i, j=j: implies(le(s[i], 0), eq(s[j], L.init[j]))))
                        elif j != i:
                            C.append(Cand("s%d = 0 => s%d > 0" % (i, j), lambda s, i=i, j=j: implies(le(s[i], 0), lt(0, s[j]))))
                else:
                    G.append(("s%d > 0" % i, dict(fact=lambda s, i=i: lt(0, s[i]))))
                    for j in V:
                        G.append(("s%d = |V%d|" % (i, j), dict(fact=lambda s, i=i, j=j: and_(le(0, s[i]), eq(s[i] * s[i], dotv(s[j], s[j]))))))
                        G.append(("s%d = |V%d|^2" % (i, j), dict(fact=lambda s, i=i, j=j: eq(s[i], dotv(s[j], s[j])))))
            for i in V:
                for j in V:
                    if i != j:
                        G.append(("V%d = g + H V%d" % (i, j), dict(vec=lambda s, i=i, j=j: addv(s[i], scalev(addv(g, applyH(s[j])), T(-1))))))
                        G.append(("V%d.V%d = -V%d.V%d" % (i, j, j, j), dict(fact=lambda s, i=i, j=j: eq(dotv(s[i], s[j]), -dotv(s[j], s[j])))))
                        G.append(("V%d.HV%d = -V%d.HV%d" % (i, j, j, j), dict(fact=lambda s, i=i, j=j: eq(dotv(s[i], applyH(s[j])), -dotv(s[j], applyH(s[j]))))))
            import itertools
            R = [i for i in S if not np.issubdtype(avals[i].dtype, np.integer)]
            for f in [i for i, k in enumerate(L.leaves) if k == "B"]:
                for a, b, c in itertools.permutations(R, 3):
                    C.append(Cand("s%d or s%d <= 0 or s%d >= radius or s%d < eps" % (f, a, b, c),
                                  lambda s, f=f, a=a, b=b, c=c: or_(s[f], le(s[a], 0), le(D, s[b]), lt(s[c], e))))
            for lbl, kw in G:
                C.append(Cand("guard => " + lbl, guarded=True, **kw))
                for z in V:
                    C.append(Cand("|V%d| = radius or %s" % (z, lbl), unless=lambda s, z=z: eq(dotv(s[z], s[z]), D * D), **kw))
            spaces = []
            for k in range(9):
                gg, HH, DD, ee = self.sample(rng, k)
                spaces.append(({"Delta": DD, "eps": ee}, avec.Space({"g": gg}, HH)))
            r = loops.verify(L, C, hyps, "g", spaces, log, deadline=deadline, stats=res)
            state["loop"], state["r"] = L, r
            ctx.facts += r.exit_facts
            if state.get("exit_guard", True) and rule.while_:
                ctx.facts.append(not_(r.gx))
            for lbl, s in r.obls:
                res["obligations"].append({"label": lbl, "status": "proved", "why": "", "secs": round(s, 3), "kind": "inv"})
            # definedness: everything, while the loop goes on; the vectors also in the last round
            state["def"] = lambda used: self.defs(L, r, used, res, log, shape)
            return L.arrays(r.exit)

        def while_hook(ctx, eqn, cconst, bconst, carry):
            p = eqn.params
            rule.while_ = True
            return rule(ctx, lambda c: interp.closed(ctx, p["cond_jaxpr"], list(cconst) + c)[0],
                        lambda c: interp.closed(ctx, p["body_jaxpr"], list(bconst) + c), carry, [v.aval for v in eqn.outvars])

        def scan_hook(ctx, eqn, ins):
            p = eqn.params
            nc, nk = [len(list(x)) for x in p["ft_in"].update(ins).unpack()][:2]
            if len(ins) > nc + nk and any(not interp.conc(x) for x in ins[nc + nk:]):
                raise interp.Unsupported("scan over symbolic inputs")
            rule.while_ = False
            avals = [v.aval for v in eqn.outvars][:nk]
            flags = [i for i, a in enumerate(avals) if a.dtype == np.bool_ and a.shape == ()]
            if len(flags) != 1 or len(eqn.outvars) != nk:
                raise interp.Unsupported("scan loop without a single flag")
            fl = flags[0]

            def body(c):
                # one iteration with the flag set; with the flag cleared the state is kept
                c = list(c)
                off = list(c)
                off[fl] = avec.arr0(FALSE)
                o2 = interp.closed(ctx, p["jaxpr"], ins[:nc] + off + [x[0] for x in ins[nc + nk:]])
                for i, (a, b) in enumerate(zip(o2[:nk], off)):
                    same = (a.lc == b.lc) if getattr(a, "is_avec", False) and getattr(b, "is_avec", False) else loops.scal(a) is loops.scal(b)
                    if not same:
                        raise interp.Unsupported("finished loop state is changed")
                c[fl] = avec.arr0(TRUE)
                return interp.closed(ctx, p["jaxpr"], ins[:nc] + c + [x[0] for x in ins[nc + nk:]])[:nk]
            # ghost: the number of rounds made with the flag set
            ghost = jax.core.ShapedArray((), np.dtype("int64"))
            out = rule(ctx, lambda c: c[fl], lambda c: list(body(c[:-1])) + [avec.arr0(loops.scal(c[-1]) + ONE)],
                       list(ins[nc:nc + nk]) + [avec.arr0(ZERO)], avals + [ghost])
            ctx.facts.append(implies(loops.scal(out[fl]), eq(loops.scal(out[-1]), T(int(p["length"])))))
            return out[:-1]

        ctx = interp.Ctx()
        ctx.while_hook, ctx.scan_hook = while_hook, scan_hook
        outs = interp.run_jaxpr(ctx, jx.jaxpr, jx.consts, [g, avec.arr0(D), avec.arr0(e)])
        p, sl, conv, nr, it, cu = outs
        sl, conv, it = loops.scal(sl), loops.scal(conv), loops.scal(it)
        p = avec.lift(p)
        r = state["r"]
        state["def"](p)
        hs = hyps + list(ctx.facts)
        pp = dotv(p, p)
        resid = addv(g, applyH(p))

        def post(lbl, goal, extra=(), el=None):
            fs = loops._flat(hs + list(extra)) + [goal]
            if el is not None:
                fs = loops.elim(fs, "g", el, shape)
            ok, why, s = r.prove(fs[:-1] + loops.gram_facts(fs), fs[-1])
            log("    %s %6.2fs %s %s" % ("proved" if ok else "failed", s, lbl, why[:300] if not ok else ""))
            return ok, why, s

        def rec(lbl, x):
            res["obligations"].append({"label": lbl, "status": "proved" if x[0] else "failed", "why": x[1][:400], "secs": round(x[2], 3), "kind": "post"})

        rec("the step stays in the trust region", post("|p| <= radius", le(pp, D * D)))
        rec("the step does not increase the model", post("model(p) <= 0", le(qm(p), 0)))
        rec("reported step length", post("step_length = |p|", and_(le(0, sl), eq(sl * sl, pp))))
        if True:
            rec("the model strictly decreases unless already converged",
                post("|g| >= eps => model(p) < 0", implies(le(e * e, dotv(g, g)), lt(qm(p), 0))))
            rec("stops early only when converged", post("converged or iteration limit", or_(conv, lt(self.limit(self.n) - 1, it))))
        cj = [c for c in r.kept if c.guarded and ".HV" in c.label]
        rec("successive directions are conjugate", (bool(cj), "" if cj else "no invariant r.Hd = -d.Hd", 0.0))
        # interior converged steps solve the model: exit state is regular (g = V - H z)
        done = False
        why = "no invariant relates the residual to the step"
        for c, un, v in r.exit_vec:
            if un is None or c.guarded:
                continue
            k = v.lc.get(("g", 0))
            if k is None:
                continue
            w = scalev(addv(v, avec.AVec(shape, {("g", 0): -k})), -ONE / k)
            rs = avec.substv(resid, "g", w)
            x = post("converged interior step solves the model (|V| = radius or %s)" % c.label,
                     implies(conv, lt(dotv(rs, rs), e * e)), [lt(pp, D * D), not_(un)], w)
            if x[0]:
                done = True
                rec("an interior converged step solves the model", x)
                break
            why = x[1]
        if not done:
            rec("an interior converged step solves the model", (False, why, 0.0))


class SteihaugTree:
    """relational loop contract: structured unknowns give the run of the flattened unknowns (same initial
    state, same guard, same body for every state, same result), so everything proved of one leaf carries over"""
    tier = "quick"
    n, vary = 3, False

    def __init__(self, name, maxiter, unroll=False):
        self.name, self.maxiter, self.unroll = name, maxiter, unroll
        self.fn = [F + "steihaug", F + "tree_size"]
        self.prop = None

    @staticmethod
    def tree(x):
        return {"a": x[:1], "b": x[1:].reshape(2, 1)}

    @staticmethod
    def flatten(z):
        return jnp.concatenate([z["a"], z["b"].reshape(-1)])

    def call(self, m, g, H, D, e, tree):
        T_, F_ = (self.tree, self.flatten) if tree else (lambda x: x, lambda x: x)
        r = m.tr.steihaug(T_(g), lambda z: T_(H @ F_(z)), D, e, maxiter=self.maxiter, unroll=self.unroll)
        return F_(r.p), r.step_length, r.converged, r.norm_r, r.iter_num, r.curvature, r.limit_step, r.eps

    def trial(self, m, g, H, D, e):
        a, b = [jax.jit(lambda g, H, D, e, t=t: self.call(m, g, H, D, e, t))(g, H, D, e) for t in (False, True)]
        names = ("p", "step_length", "converged", "norm_r", "iter_num", "curvature", "limit_step", "eps")
        for k, x, y in zip(names, a, b):
            if not np.allclose(np.asarray(x, dtype=float), np.asarray(y, dtype=float), rtol=1e-6, atol=1e-8):
                return "structured unknowns: " + k, "%s instead of %s" % (np.asarray(y).tolist(), np.asarray(x).tolist())
        return None

    def replay(self, d):
        i = d["inputs"]
        r = self.trial(contract.magpi(), jnp.array(i["g"]), jnp.array(i["H"]), i["tr_radius"], i["eps"])
        print("real code:", r)
        return 1 if r else 0

    def check(self, seed=1, tier="quick", log=print, deadline=None):
        t0 = time.time()
        m = contract.magpi()
        res = {"contract": self.name, "functions": self.fn, "bounded": None, "assumes": ["steihaug on pytrees: two leaves with one and two entries stand for all"],
               "obligations": [], "violations": [], "samples": 0, "satisfied": 0, "paths": 1, "solver_s": 0.0, "backends": {}, "assumed": {}, "note": ""}
        rng = np.random.RandomState(seed + 5)
        for k in range(12 if tier == "quick" else 100):
            g, H, D, e = Steihaug.sample(self, rng, k)
            try:
                r = self.trial(m, jnp.array(g), jnp.array(H), D, e)
            except Exception as ex:  # noqa: BLE001
                r = ("exception", repr(ex)[-300:])
            res["samples"] += 1
            res["satisfied"] += 1
            if r:
                res["violations"].append({"kind": "input", "contract": self.name, "label": r[0], "detail": r[1], "inputs": dict(g=g.tolist(), H=H.tolist(), tr_radius=D, eps=e), "functions": self.fn})
                res["obligations"].append({"label": r[0], "status": "failed", "why": r[1]})
                res["wall_s"] = time.time() - t0
                return res
        try:
            self.proof(m, res, log)
        except Exception as ex:  # noqa: BLE001
            import traceback
            res["obligations"].append({"label": "extraction", "status": "failed", "why": repr(ex)[:300]})
            res["violations"].append({"kind": "obligation", "contract": self.name, "label": "extraction", "detail": traceback.format_exc()[-1500:], "functions": self.fn})
        for o in res["obligations"]:
            if o["status"] != "proved" and not res["violations"]:
                res["violations"].append({"kind": "obligation", "contract": self.name, "label": o["label"], "detail": o["why"], "functions": self.fn})
        res["wall_s"] = time.time() - t0
        return res

    def proof(self, m, res, log):
        n = self.n

        def ob(lbl, hyps, a, b):
            P = prover.Prover(timeout=10)
            t1 = time.time()
            a, b = np.asarray(a, dtype=object).reshape(-1), np.asarray(b, dtype=object).reshape(-1)
            goal = FALSE if a.shape != b.shape else and_(*[(iff if x.sort == "B" else eq)(x, y) for x, y in zip(a, b) if x is not y])
            ok = P.prove(list(hyps), goal)
            for k, c in P.stats.by.items():
                res["backends"][k] = res["backends"].get(k, 0) + c
            res["solver_s"] += P.stats.solver_s
            log("    %s %s %s" % ("proved" if ok else "failed", lbl, "" if ok else P.why[:200]))
            res["obligations"].append({"label": lbl, "status": "proved" if ok else "failed", "why": "" if ok else P.why[:400], "secs": round(time.time() - t1, 3), "kind": "inv"})

        g = np.array([t_.var("g%d" % i) for i in range(n)], dtype=object)
        H = np.array([[t_.var("H%d%d" % (min(i, j), max(i, j))) for j in range(n)] for i in range(n)], dtype=object)
        D, e = t_.var("Delta"), t_.var("eps")
        rec = []
        for tree in (False, True):
            jx = jax.make_jaxpr(lambda g, H, D, e, t=tree: self.call(m, g, H, D, e, t))(jnp.zeros(n), jnp.zeros((n, n)), 1.0, 1e-3)
            loops_ = []

            def hook(ctx, eqn, cconst, bconst, carry, loops_=loops_):
                if loops_:
                    raise interp.Unsupported("more than one loop")
                p = eqn.params
                loops_.append((ctx, p, cconst, bconst, [interp.obj(c) for c in carry], [v.aval for v in eqn.outvars]))
                return self.exit(loops_[0][5])
            ctx = interp.Ctx()
            ctx.while_hook = hook
            outs = interp.run_jaxpr(ctx, jx.jaxpr, jx.consts, [g, H, avec.arr0(D), avec.arr0(e)])
            if not loops_:
                raise interp.Unsupported("no loop")
            rec.append((loops_[0], [interp.obj(o) for o in outs]))
        (f, of), (s, os_) = rec
        hyps = [lt(0, D), lt(0, e)]

        def cat(vals, avals):
            """state of either run as one list of entries"""
            return [t for v in vals for t in interp.obj(v).reshape(-1)]
        kinds = [[str(a.dtype) for a in x[5] for _ in range(int(np.prod(a.shape)))] for x in (f, s)]
        if kinds[0] != kinds[1]:
            raise interp.Unsupported("states of the two runs do not correspond")
        ob("same initial state", hyps, cat(f[4], f[5]), cat(s[4], s[5]))
        pre = [self.exit(x[5], "s") for x in (f, s)]
        gd = [interp.closed(x[0], x[1]["cond_jaxpr"], list(x[2]) + p)[0] for x, p in zip((f, s), pre)]
        ob("same guard", hyps, interp.obj(gd[0]), interp.obj(gd[1]))
        post = [interp.closed(x[0], x[1]["body_jaxpr"], list(x[3]) + p) for x, p in zip((f, s), pre)]
        for i, (a, b) in enumerate(zip(cat(post[0], f[5]), cat(post[1], s[5]))):
            ob("same body: entry %d" % i, hyps, A(a), A(b))
        for k, a, b in zip(("p", "step_length", "converged", "norm_r", "iter_num", "curvature", "limit_step", "eps"), of, os_):
            ob("same result: " + k, hyps, a, b)

    def exit(self, avals, tag="x"):
        """an arbitrary state, the same entries for either layout"""
        k, out = 0, []
        for a in avals:
            z = np.empty(a.shape, dtype=object)
            for ix in np.ndindex(*a.shape):
                z[ix] = t_.var("%s%d" % (tag, k), "B" if a.dtype == np.bool_ else "R")
                k += 1
            out.append(z)
        return out


def default_limit():
    """the default iteration limit is ten times the number of unknowns, for sizes of common use"""
    def one(m, h, k):
        n = h.shape[0]
        g = jnp.ones(n)
        un = (lambda x: x) if k != "tree" else (lambda x: {"a": x[:1], "b": (x[1:1 + (n - 1) // 2], x[1 + (n - 1) // 2:])})
        fl = (lambda x: x) if k != "tree" else (lambda t: jnp.concatenate([t["a"], t["b"][0], t["b"][1]]))
        return m.tr.steihaug(un(g), lambda p: un(h * fl(p)), 1e9, 0.0, unroll=k == "scan").iter_num
    R = []
    for n, kinds in ((30, ("while", "scan", "tree")), (41, ("while", "tree")), (120, ("while", "tree")), (200, ("while",))):
        for k in kinds:
            R.append(Contract("steihaug.default maxiter[%d,%s]" % (n, k), [F + "steihaug", F + "tree_size"], {"s": ()}, symbolic=False, n=1, sample=lambda r: {"s": 1.0 + 0.1 * r.rand()},
                bounded="run on the real code with one badly conditioned operator that does not converge within the limit",
                run=lambda m, v, n=n, k=k: one(m, v.s * jnp.logspace(0, 10, n), k),
                ensures=lambda v, o, n=n: [("the iteration limit is ten times the number of unknowns", eq(o, 10 * n))]))
    return R


def c18():
    return default_limit() + [Steihaug("steihaug[while]", 7, False), Steihaug("steihaug[while,default maxiter]", None, False), Steihaug("steihaug[scan]", 7, True),
            SteihaugTree("steihaug[pytree]", 7), SteihaugTree("steihaug[pytree,default maxiter]", None)]



# -- C19: one trust region iteration ------------------------------------------------
HYP = ("max_tr_radius", "min_tr_radius", "rho_increase", "increase_factor", "rho_decrease", "decrease_factor", "rho_accept", "tol")


def flat(tree):
    return jnp.concatenate([jnp.ravel(x) for x in jax.tree_util.tree_leaves(tree)])


def close(a, b):
    """jnp.isclose with its documented default tolerances"""
    d = a - b
    ab = ite(le(0, b), b, -b)
    tol = q("1/100000000") + q("1/100000") * ab
    return and_(le(d, tol), le(-d, tol))


def radius_spec(D, mx, mn, rho, step, ri, rd, fi, fd):
    r = ite(lt(rho, rd), D * fd, ite(and_(lt(ri, rho), close(step, D)), minv(D * fi, mx), D))
    return maxv(r, mn)


class Stub:
    """the contract of steihaug stands for its body: the step is an arbitrary function of the
    gradient, of the operator (observed at the probe vector), of the radius and of eps"""

    def __init__(self, m, v, n, unflat):
        self.m, self.v, self.n, self.unflat = m, v, n, unflat

    def __enter__(self):
        m, v = self.m, self.v
        self.old = m.tr.steihaug

        def steihaug(grad_f, hvp, tr_radius, eps, maxiter=None, unroll=True, jit=True):
            a = (flat(grad_f), flat(hvp(self.unflat(v.probe))), jnp.asarray(tr_radius, dtype=jnp.float64), jnp.asarray(eps, dtype=jnp.float64))
            return m.tr.CgSteihaugResult(
                iter_num=v.ks(*a), converged=v.ks(*a) > 1, limit_step=v.ks(*a) > 2, step_length=v.sl(*a), curvature=v.cu(*a),
                p=self.unflat(v.p(*a)), eps=jnp.asarray(eps, dtype=jnp.float64), norm_r=v.nr(*a))
        m.tr.steihaug = steihaug
        return self

    def __exit__(self, *a):
        self.m.tr.steihaug = self.old


def small_p(seed):
    def p(g, Hq, D, e):
        return -0.3 * jnp.minimum(1.0, D) * g + 0.01 * Hq * seed
    return p


def tr_update(name, form="fun", aux=False, damping=False, approx=False, tree=False, forcing=0.5, kwargs=False, optstep=False):
    n = 3 if tree else 2
    X = {"x": (n,), "k": (), "probe": (n,)}
    ST = ("it", "value", "error", "rho", "D", "aux0", "s_it", "s_sl", "s_cu", "s_eps", "s_nr", "acc")
    X.update({k: () for k in ST})
    X.update({"grad0": (n,), "s_p": (n,)})
    X.update({k: () for k in HYP})
    if damping:
        X["lam"] = ()
    if approx:
        X["h"] = ()
    four = ((n,), (n,), (), ())
    U = {"f": (((n,), ()), ()), "p": (four, (n,)), "sl": (four, ()), "cu": (four, ()), "nr": (four, ()), "ks": (four, ())}
    if aux:
        U["a"] = (((n,), ()), ())

    def unflat_(z):
        return {"a": z[:2], "b": z[2]} if tree else z

    def objective(v):
        def f0(x, k):
            return v.f(flat(x), k)
        if aux:
            f = lambda x, k: (f0(x, k), v.a(flat(x), k))
        else:
            f = f0
        if form == "vg":
            return jax.value_and_grad(f, has_aux=aux)
        return f

    def run(m, v):
        kw = {k: getattr(v, k) for k in HYP}
        if damping:
            kw["damping_factor"] = v.lam
        if approx:
            kw.update(approx_hvp=True, fd_h=v.h)
        opt = m.tr.TR(objective(v), value_and_grad=(form == "vg"), has_aux=aux, forcing_parameter=forcing, **kw)
        st = m.tr.TrState(
            iter_num=v.it, accepted=v.acc > 0, value=v.value, grad=unflat_(v.grad0), error=v.error, rho=v.rho, tr_radius=v.D,
            aux=v.aux0 if aux else None,
            subproblem_result=m.tr.CgSteihaugResult(v.s_it, v.s_it > 3, v.s_it > 4, v.s_sl, v.s_cu, unflat_(v.s_p), v.s_eps, v.s_nr))
        x = unflat_(v.x)
        if optstep:
            import jaxopt
            x = jaxopt.OptStep(x, st)
        with Stub(m, v, n, unflat_):
            if kwargs:
                r = opt.update(x, st, k=v.k)
            else:
                r = opt.update(x, st, v.k)
        s = r.state
        sp = s.subproblem_result
        return {"x": flat(r.params), "it": s.iter_num, "acc": jnp.asarray(s.accepted), "value": s.value, "grad": flat(s.grad), "error": s.error, "rho": s.rho, "D": s.tr_radius,
                "aux": s.aux if aux else jnp.zeros(()), "s_it": sp.iter_num, "s_sl": sp.step_length, "s_cu": sp.curvature, "s_p": flat(sp.p), "s_eps": sp.eps, "s_nr": sp.norm_r}

    def terms(v):
        x, k = v.x, v.k
        g = A(*[v.f.term(x, k, d=((0, i),)) for i in range(n)])

        def hv(s):
            if approx:
                xs = x + v.h * s
                return A(*[(v.f.term(xs, k, d=((0, i),)) - g[i]) * (ONE / v.h) for i in range(n)])
            return A(*[sum([v.f.term(x, k, d=((0, i), (0, j))) * s[j] for j in range(n)], ZERO) for i in range(n)])
        Hq = hv(v.probe)
        if damping:
            Hq = Hq + v.lam * v.probe
        ng = sqrt(dot(g, g))
        pw = sqrt(ng) if forcing == 0.5 else ng
        eps = maxv(v.tol, minv(v.s_eps, minv(HALF, pw) * ng))
        a = (g, Hq, v.D, eps)
        p = v.p.arr(*a)
        model = dot(g, p) + HALF * dot(p, hv(p))
        return g, eps, a, p, model

    def requires(v):
        g, eps, a, p, model = terms(v)
        r = [lt(0, dot(g, g)), ne(model, 0), le(v.rho_accept, v.rho_decrease)]
        if approx:
            r.append(lt(0, v.h))
        return r

    def ens(v, o):
        g, eps, a, p, model = terms(v)
        y = v.f.term(v.x, v.k)
        xn = v.x + p
        yn = v.f.term(xn, v.k)
        gn = A(*[v.f.term(xn, v.k, d=((0, i),)) for i in range(n)])
        rho = (y - yn) / (-model)
        step = lt(v.min_tr_radius, v.D)
        ok = and_(step, le(v.rho_accept, rho))
        rej = and_(step, lt(rho, v.rho_accept))
        sl = v.sl.term(*a)
        E = [("accepted exactly when the ratio reaches rho_accept", and_(implies(ok, o["acc"]), implies(rej, not_(o["acc"])))),
             ("an accepted step moves the parameters by p", implies(ok, eqs(o["x"], xn))),
             ("a rejected step leaves the parameters", implies(rej, eqs(o["x"], v.x))),
             ("value, gradient and error belong to the new parameters after acceptance", implies(ok, and_(eq(o["value"], yn), eqs(o["grad"], gn), le(0, o["error"]), eq(o["error"] * o["error"], dot(gn, gn))))),
             ("value, gradient and error belong to the old parameters after rejection", implies(rej, and_(eq(o["value"], y), eqs(o["grad"], g), le(0, o["error"]), eq(o["error"] * o["error"], dot(g, g))))),
             ("an accepted step decreases the objective", implies(and_(ok, lt(model, 0), le(0, v.rho_accept)), and_(le(yn, y), le(yn, y + v.rho_accept * model)))),
             ("ratio of actual to predicted decrease", implies(step, eq(o["rho"], rho))),
             ("iteration counter", implies(step, eq(o["it"], v.it + 1))),
             ("radius rule", implies(step, eq(o["D"], radius_spec(v.D, v.max_tr_radius, v.min_tr_radius, o["rho"], sl, v.rho_increase, v.rho_decrease, v.increase_factor, v.decrease_factor)))),
             ("subproblem result is reported", implies(step, and_(eqs(o["s_p"], p), eq(o["s_sl"], sl), eq(o["s_it"], v.ks.term(*a)), eq(o["s_cu"], v.cu.term(*a)), eq(o["s_nr"], v.nr.term(*a))))),
             ("forcing term", implies(step, eq(o["s_eps"], eps))),
             ("nothing happens at the minimal radius", implies(not_(step), and_(eqs(o["x"], v.x), eqs(o["grad"], v.grad0), eqs(o["s_p"], v.s_p), iff(o["acc"], lt(0, v.acc)),
                *[eq(o[k], getattr(v, k)) for k in ("it", "value", "error", "rho", "D", "s_it", "s_sl", "s_cu", "s_eps", "s_nr")])))]
        if aux:
            E += [("auxiliary output of the new parameters", implies(ok, eq(o["aux"], v.a.term(xn, v.k)))), ("auxiliary output of the old parameters", implies(rej, eq(o["aux"], v.a.term(v.x, v.k)))),
                  ("auxiliary output kept", implies(not_(step), eq(o["aux"], v.aux0)))]
        return E

    def sample(rng):
        d = {k: rng.uniform(-1, 1, s) for k, s in X.items()}
        d.update(D=rng.uniform(0, 3) if rng.rand() < 0.8 else 0.05, max_tr_radius=rng.uniform(0.5, 3), min_tr_radius=0.1, rho_increase=rng.uniform(0, 1), increase_factor=2.0,
                 rho_decrease=rng.uniform(0.2, 1), decrease_factor=0.25, rho_accept=rng.uniform(0, 0.2), tol=rng.uniform(0, 0.5), s_eps=rng.uniform(0, 2), s_it=float(rng.randint(0, 9)), h=1e-2)
        return {k: d[k] for k in X}
    return Contract(name, [F + "TR.update", F + "TR.__post_init__", F + "update_tr_radius", "magpi.utils.make_funs_with_aux"], X, ufs=U, requires=requires, run=run, ensures=ens,
                    sample=sample, n=12, concrete={"p": small_p, "sl": lambda seed: (lambda g, h, D, e: D * (1.0 if seed % 2 else 0.5))}, tol=1e-5,
                    assumes=["TR.update: the step is an arbitrary function of the arguments handed to steihaug (whose own contract is C18)"])


def c19():
    R = [tr_update("update"), tr_update("update[forcing 1]", forcing=1.0), tr_update("update[damped]", damping=True), tr_update("update[value_and_grad]", form="vg"),
         tr_update("update[aux]", aux=True), tr_update("update[value_and_grad,aux]", form="vg", aux=True), tr_update("update[fd hvp]", approx=True),
         tr_update("update[pytree]", tree=True), tr_update("update[keyword argument]", kwargs=True, damping=True), tr_update("update[OptStep]", optstep=True)]

    # constructor
    def run(m, v):
        return jnp.asarray(m.tr.TR(lambda x: x, rho_accept=v.a, rho_decrease=v.d).rho_accept)
    R.append(Contract("constructor", F + "TR.__post_init__", {"a": (), "d": ()}, run=run, n=8,
        raises=lambda v, e: lt(v.d, v.a) if isinstance(e, ValueError) else FALSE,
        ensures=lambda v, o: [("accepted only below rho_decrease", le(v.a, v.d)), ("stored", eq(o, v.a))]))

    # initial state and restart
    for aux in (False, True):
        def run(m, v, aux=aux):
            f = (lambda x, k: (v.f(x, k), v.a(x, k))) if aux else (lambda x, k: v.f(x, k))
            opt = m.tr.TR(f, has_aux=aux, init_tr_radius=v.D0, min_tr_radius=v.mn)
            s = opt.init_state(v.x, v.k)
            import jaxopt
            st = s._replace(iter_num=v.it, tr_radius=v.D)
            s2 = opt.init_state(jaxopt.OptStep(v.z, st), v.k)
            return [{"value": t.value, "grad": t.grad, "error": t.error, "it": jnp.asarray(t.iter_num, dtype=float), "D": jnp.asarray(t.tr_radius, dtype=float), "aux": t.aux if aux else jnp.zeros(()),
                     "acc": jnp.asarray(t.accepted), "p": t.subproblem_result.p, "big": t.subproblem_result.eps > v.k} for t in (s, s2)]

        def ens(v, o, aux=aux):
            E = []
            for t, x, it, D, nm in ((o[0], v.x, ZERO, v.D0, "start"), (o[1], v.z, v.it, ite(le(v.D, v.mn), v.D0, v.D), "restart")):
                g = A(*[v.f.term(x, v.k, d=((0, i),)) for i in range(2)])
                E += [(nm + ": value", eq(t["value"], v.f.term(x, v.k))), (nm + ": gradient", eqs(t["grad"], g)),
                      (nm + ": error is the gradient norm", and_(le(0, t["error"]), eq(t["error"] * t["error"], dot(g, g)))),
                      (nm + ": counter", eq(t["it"], it)), (nm + ": radius", eq(t["D"], D)), (nm + ": nothing accepted yet", not_(t["acc"])), (nm + ": no step yet", eqs(t["p"], A(0, 0))),
                      (nm + ": forcing term starts unbounded", t["big"])]
                if aux:
                    E.append((nm + ": aux", eq(t["aux"], v.a.term(x, v.k))))
            return E
        R.append(Contract("init_state[%s]" % ("aux" if aux else "plain"), [F + "TR.init_state", "magpi.utils.make_funs_with_aux"],
            {"x": (2,), "z": (2,), "k": (), "it": (), "D": (), "D0": (), "mn": ()}, ufs={"f": (((2,), ()), ()), "a": (((2,), ()), ())}, run=run, ensures=ens, n=6))
    R.append(Contract("optimality_fun", F + "TR.optimality_fun", {"x": (2,), "k": ()}, ufs={"f": (((2,), ()), ())}, n=3,
        run=lambda m, v: m.tr.TR(lambda x, k: v.f(x, k)).optimality_fun(v.x, v.k),
        ensures=lambda v, o: [("gradient", eqs(o, A(*[v.f.term(v.x, v.k, d=((0, i),)) for i in range(2)])))]))
    return R


def c20():
    R = []
    names = ["D", "mx", "mn", "rho", "step", "ri", "rd", "fi", "fd"]
    X = {k: () for k in names}

    def run(m, v):
        return m.tr.update_tr_radius(v.D, v.mx, v.mn, v.rho, v.step, v.ri, v.rd, v.fi, v.fd)

    def sample(rng):
        return dict(D=rng.uniform(0, 3), mx=rng.uniform(0.5, 3), mn=rng.uniform(0, 0.5), rho=rng.uniform(-1, 2), step=rng.uniform(0, 1), ri=rng.uniform(0, 1), rd=rng.uniform(0, 1),
                    fi=rng.uniform(1, 3), fd=rng.uniform(0, 1))

    def sample2(rng):
        d = sample(rng)
        d["D"] = rng.uniform(d["mn"], d["mx"])
        d["rd"] = rng.uniform(0, d["ri"])
        d["step"] = d["D"] if rng.rand() < 0.6 else d["D"] * 0.5
        return d
    R.append(Contract("update_tr_radius.rule", F + "update_tr_radius", X, run=run, sample=sample, n=20,
        points=[sample2] * 10,
        ensures=lambda v, o: [("rule", eq(o, radius_spec(v.D, v.mx, v.mn, v.rho, v.step, v.ri, v.rd, v.fi, v.fd)))]))

    def req(v):
        return [lt(0, v.mn), le(v.mn, v.D), le(v.D, v.mx), lt(0, v.fd), le(v.fd, 1), le(1, v.fi), le(v.rd, v.ri)]
    R.append(Contract("update_tr_radius.bounds", F + "update_tr_radius", X, requires=req, run=run, sample=sample2, n=30,
        ensures=lambda v, o: [("stays within [min, max]", and_(le(v.mn, o), le(o, v.mx))),
                              ("poor agreement never enlarges", implies(lt(v.rho, v.rd), le(o, v.D))),
                              ("poor agreement shrinks by the factor, down to the minimum", implies(lt(v.rho, v.rd), eq(o, maxv(v.D * v.fd, v.mn)))),
                              ("enlarged only by a boundary step with good agreement", implies(lt(v.D, o), and_(lt(v.ri, v.rho), close(v.step, v.D)))),
                              ("good agreement at the boundary enlarges up to the maximum", implies(and_(lt(v.ri, v.rho), eq(v.step, v.D)), eq(o, maxv(minv(v.D * v.fi, v.mx), v.mn)))),
                              ("otherwise unchanged", implies(and_(le(v.rd, v.rho), le(v.rho, v.ri)), eq(o, v.D))),
                              ("positive", lt(0, o))]))
    # a history: any sequence of updates stays in the interval (the bound is an invariant)
    R.append(Contract("update_tr_radius.history", F + "update_tr_radius", dict(X, rho2=(), step2=()), requires=req,
        run=lambda m, v: m.tr.update_tr_radius(run(m, v), v.mx, v.mn, v.rho2, v.step2, v.ri, v.rd, v.fi, v.fd),
        sample=lambda rng: dict(sample2(rng), rho2=rng.uniform(-1, 2), step2=rng.uniform(0, 3)), n=10,
        ensures=lambda v, o: [("invariant", and_(le(v.mn, o), le(o, v.mx)))]))
    R.append(Contract("update_tr_radius.defaults", F + "update_tr_radius", {"D": (), "rho": (), "step": ()},
        requires=lambda v: [le(q("1/10000"), v.D), le(v.D, 2)],
        run=lambda m, v: (lambda t: m.tr.update_tr_radius(v.D, t.max_tr_radius, t.min_tr_radius, v.rho, v.step, t.rho_increase, t.rho_decrease, t.increase_factor, t.decrease_factor))(m.tr.TR(lambda x: x)),
        sample=lambda rng: dict(D=rng.uniform(0.001, 2), rho=rng.uniform(-1, 2), step=rng.uniform(0, 2)), n=20,
        ensures=lambda v, o: [("within the default bounds", and_(le(q("1/10000"), o), le(o, 2))), ("halts shrinking", implies(lt(v.rho, q("1/4")), le(o, v.D))),
                              ("default rule", eq(o, radius_spec(v.D, T(2), q("1/10000"), v.rho, v.step, q("3/4"), q("1/4"), T(2), q("1/4"))))]))
    return R
