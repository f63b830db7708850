"""C25 rejection sampling (magpi.sampling), C26 batching and iterators (magpi.opt)."""
import itertools
import time

import jax
import jax.numpy as jnp

from .lib import *
from vk import avec, contract, front, interp, prover, rng
from vk.rng import vk_key

S = "magpi.sampling."
F = "magpi.opt."


def contracts(prop):
    return {"C25": c25, "C26": c26}[prop]()


def seed(X):
    def f(r):
        d = {k: r.uniform(-2, 2, s) for k, s in X.items()}
        d["seed"] = float(r.randint(0, 10000)) / 64
        return d
    return f


def pick(idx, rows, f):
    """rows[idx] for a symbolic index"""
    r = rows[-1]
    for i in range(len(rows) - 2, -1, -1):
        r = ite(eq(idx, i), rows[i], r)
    return r


def idx_of(i, N):
    return or_(*[eq(i, k) for k in range(N)])


def c26():
    R = []
    for N, bs in ((4, 2), (5, 2), (3, 3), (4, 1), (3, 2), (8, 3)):
        X = {"seed": (), "x": (N,), "y": (N, 2)}

        def run(m, v, N=N, bs=bs):
            return m.opt.batches_without_replacement(vk_key(v.seed), {"i": jnp.arange(N), "x": v.x, "y": v.y}, bs)

        def ens(v, o, N=N, bs=bs):
            nb = N // bs
            if np.shape(o["i"]) != (nb, bs) or np.shape(o["x"]) != (nb, bs) or np.shape(o["y"]) != (nb, bs, 2):
                return [("N // batch_size batches of the requested size", FALSE)]
            I = list(np.asarray(o["i"], dtype=object).reshape(-1))
            E = [("indices are rows of the data", and_(*[idx_of(i, N) for i in I])),
                 ("no row twice in an epoch", and_(*[ne(a, b) for k, a in enumerate(I) for b in I[:k]]))]
            for b in range(nb):
                for j in range(bs):
                    i = o["i"][b, j]
                    E.append(("all leaves use the same row (batch %d, entry %d)" % (b, j), and_(
                        *[implies(eq(i, k), and_(eq(o["x"][b, j], v.x[k]), eqs(o["y"][b, j], v.y[k]))) for k in range(N)])))
            return E
        R.append(Contract("without_replacement[%d,%d]" % (N, bs), F + "batches_without_replacement", X, run=run, ensures=ens, sample=seed(X), n=8))
    for N, nb, bs, rep in ((3, 2, 2, True), (4, 2, 2, False), (3, 1, 4, True), (3, 2, 3, False)):
        X = {"seed": (), "x": (N,), "y": (N, 2)}

        def run(m, v, N=N, nb=nb, bs=bs, rep=rep):
            d = {"i": jnp.arange(N), "x": v.x, "y": v.y}
            if rep:
                return m.opt.batches_with_replacement(vk_key(v.seed), d, nb, bs)
            return m.opt.batches_with_replacement(vk_key(v.seed), d, nb, bs, replace_within_batch=False)

        def ens(v, o, N=N, nb=nb, bs=bs, rep=rep):
            if np.shape(o["i"]) != (nb, bs) or np.shape(o["x"]) != (nb, bs) or np.shape(o["y"]) != (nb, bs, 2):
                return [("requested number and size of batches", FALSE)]
            E = [("indices are rows of the data", and_(*[idx_of(i, N) for i in np.asarray(o["i"], dtype=object).reshape(-1)]))]
            if not rep:
                E.append(("no row twice in a batch", and_(*[ne(o["i"][b, j], o["i"][b, k]) for b in range(nb) for j in range(bs) for k in range(j)])))
            for b in range(nb):
                for j in range(bs):
                    i = o["i"][b, j]
                    E.append(("all leaves use the same row (batch %d, entry %d)" % (b, j), and_(
                        *[implies(eq(i, k), and_(eq(o["x"][b, j], v.x[k]), eqs(o["y"][b, j], v.y[k]))) for k in range(N)])))
            return E
        R.append(Contract("with_replacement[%d,%d,%d,%s]" % (N, nb, bs, rep), F + "batches_with_replacement", X, run=run, ensures=ens, sample=seed(X), n=8))

    # a plain array is a tree with one leaf
    def run(m, v):
        k, i = vk_key(v.seed), jnp.arange(4)
        f = lambda d: (m.opt.batches_without_replacement(k, d, 2), m.opt.batches_with_replacement(k, d, 3, 2), m.opt.batches_with_replacement(k, d, 1, 2, replace_within_batch=False))
        return f(i), f(v.x), f((v.y,)), m.opt.axis_size(v.x), m.opt.axis_size(v.y, 1)

    def ens(v, o):
        E = [("axis size", and_(eq(o[3], 4), eq(o[4], 3)))]
        for n, (i, x, (y,)) in enumerate(zip(*o[:3])):
            if np.shape(x) != np.shape(i) or np.shape(y) != np.shape(i) + (3,):
                return [("shapes", FALSE)]
            for k in np.ndindex(*np.shape(i)):
                E.append(("sampler %d, entry %s" % (n, k), and_(idx_of(i[k], 4), eq(x[k], pick(i[k], v.x, None)), *[eq(y[k][c], pick(i[k], v.y[:, c], None)) for c in range(3)])))
        return E
    X = {"seed": (), "x": (4,), "y": (4, 3)}
    R.append(Contract("batches.single leaf", [F + "batches_without_replacement", F + "batches_with_replacement", F + "axis_size"], X, run=run, ensures=ens, sample=seed(X), n=8))

    # rows of any rank and leaves of any dtype, in nested trees
    def run(m, v):
        d = {"i": jnp.arange(4), "n": [v.x, {"z": v.z}], "w": (v.w, 2 * jnp.arange(4, dtype=jnp.int32)[:, None, None]), "b": jnp.arange(4) > 1}
        k = vk_key(v.seed)
        R = [m.opt.batches_without_replacement(k, d, 2), m.opt.batches_with_replacement(k, d, 2, 2), m.opt.batches_with_replacement(k, d, 2, 2, False)]
        R.append(jax.tree_util.tree_map(lambda *z: jnp.stack(z), *list(m.opt.make_iterator(k, 1, lambda _: R[0]))))
        return [(o["i"], o["n"][0], o["n"][1]["z"], o["w"][0], o["w"][1], jnp.where(o["b"], 1.0, 0.0)) for o in R]

    def ens(v, o):
        E = []
        for n, (i, x, z, w, t, b) in zip(("without replacement", "with replacement", "distinct in a batch", "iterator"), o):
            if (np.shape(i), np.shape(x), np.shape(z), np.shape(w), np.shape(t), np.shape(b)) != ((2, 2), (2, 2), (2, 2, 2, 2), (2, 2, 1, 2, 1), (2, 2, 1, 1), (2, 2)):
                return [("shapes", FALSE)]
            for k in np.ndindex(2, 2):
                E.append(("%s: entry %s is one row of the data" % (n, k), and_(idx_of(i[k], 4), eq(t[k][0, 0], 2 * i[k]), eq(b[k], ite(lt(1, i[k]), 1, 0)), *[implies(eq(i[k], r), and_(
                    eq(x[k], v.x[r]), eqs(z[k], v.z[r]), eqs(w[k], v.w[r]))) for r in range(4)])))
        return E
    X = {"seed": (), "x": (4,), "z": (4, 2, 2), "w": (4, 1, 2, 1)}
    R.append(Contract("batches.row shapes", [F + "batches_without_replacement", F + "batches_with_replacement", F + "make_iterator"], X, run=run, ensures=ens, sample=seed(X), n=8))

    for epochs, nb, add in ((1, 3, False), (3, 2, False), (3, 2, True), (2, 1, True), (2, 3, True), (0, 2, False)):
        def run(m, v, epochs=epochs, nb=nb, add=add):
            def batch_fn(key):
                key = jax.random.key_data(key) if jnp.issubdtype(jnp.asarray(key).dtype, jax.dtypes.prng_key) else key
                return {"key": jnp.broadcast_to(key.astype(float), (nb, 2)), "j": jnp.arange(nb), "x": v.x[:nb]}
            out = []
            for b in m.opt.make_iterator(vk_key(v.seed), epochs, batch_fn, add):
                sub = None
                if add:
                    sub, b = b
                    sub = jax.random.key_data(sub) if jnp.issubdtype(jnp.asarray(sub).dtype, jax.dtypes.prng_key) else sub
                    sub = sub.astype(float)
                out.append((b["key"], b["j"], b["x"]) + ((sub,) if add else ()))
            return out

        def differ(a, b):
            return or_(ne(a[0], b[0]), ne(a[1], b[1]))

        def ens(v, o, epochs=epochs, nb=nb, add=add):
            if len(o) != epochs * nb or any(np.shape(t[0]) != (2,) for t in o):
                return [("epochs x batches items", FALSE)]
            E = [("number of items", TRUE)]
            for e in range(epochs):
                for j in range(nb):
                    t = o[e * nb + j]
                    E.append(("item %d of epoch %d is batch %d" % (j, e, j), and_(eq(t[1], j), eq(t[2], v.x[j]), eqs(t[0], o[e * nb][0]))))
            for e in range(epochs):
                for f in range(e):
                    E.append(("epochs %d and %d are shuffled independently" % (f, e), differ(o[e * nb][0], o[f * nb][0])))
            if add:
                for a in range(len(o)):
                    for b in range(a):
                        E.append(("keys of items %d and %d differ" % (b, a), differ(o[a][3], o[b][3])))
                    for e in range(epochs):
                        E.append(("key of item %d differs from the shuffling key of epoch %d" % (a, e), differ(o[a][3], o[e * nb][0])))
            return E
        X = {"seed": (), "x": (3,)}
        R.append(Contract("make_iterator[%d epochs,%d batches%s]" % (epochs, nb, ",rng" if add else ""), F + "make_iterator", X, run=run, ensures=ens, sample=seed(X), n=3))

    # larger data sets: bounded (the real generator is run, nothing is proved)
    BND = "sampled on the real generator: 8 keys (quick), 40 (thorough), N <= 1000, batch size <= 64"
    for N, bs in ((120, 10), (257, 16), (1000, 32), (101, 3), (64, 64)):
        def run(m, v, N=N, bs=bs):
            key = vk_key(v.seed)
            d = {"i": jnp.arange(N), "x": 3.0 * jnp.arange(N) + v.x, "y": jnp.stack([jnp.arange(N), -jnp.arange(N)], -1) * 2.0}
            out = []
            for o, B, n in ((m.opt.batches_without_replacement(key, d, bs), N // bs, None), (m.opt.batches_with_replacement(key, d, 7, bs), 7, None),
                            (m.opt.batches_with_replacement(key, d, 7, bs, replace_within_batch=False), 7, 1)):
                i = np.asarray(o["i"])
                ok = i.shape == (B, bs) and o["x"].shape == (B, bs) and o["y"].shape == (B, bs, 2)
                out += [float(ok), float(i.min() >= 0 and i.max() < N), float(np.allclose(o["x"], 3.0 * i + float(v.x)) and np.allclose(o["y"], np.stack([i, -i], -1) * 2.0)),
                        float(all(len(set(r)) == len(r) for r in (i.reshape(1, -1) if B == N // bs and len(out) == 0 else i if n else [[0]])))]
            return out
        X = {"seed": (), "x": ()}
        R.append(Contract("batches.large[%d,%d]" % (N, bs), [F + "batches_without_replacement", F + "batches_with_replacement"], X, run=run, sample=seed(X), n=8, symbolic=False, bounded=BND,
            ensures=lambda v, o: [(l + " (%s)" % w, eq(o[4 * k + j], 1)) for k, w in enumerate(("without replacement", "with replacement", "no replacement within a batch"))
                                  for j, l in enumerate(("shapes", "indices are rows", "leaves use the same row", "no row twice"))]))

    for epochs, nb in ((2, 150), (1, 1100), (40, 3)):
        def run(m, v, epochs=epochs, nb=nb):
            raw = lambda k: tuple(np.asarray(jax.random.key_data(k) if jnp.issubdtype(k.dtype, jax.dtypes.prng_key) else k).tolist())
            used = []

            def batch_fn(k):
                used.append(raw(k))
                return {"j": np.arange(nb)}
            keys, order = [], []
            for k, b in m.opt.make_iterator(vk_key(v.seed), epochs, batch_fn, True):
                keys.append(raw(k))
                order.append(int(b["j"]))
            return [float(len(set(keys + used)) == epochs * nb + epochs), float(order == list(range(nb)) * epochs)]
        R.append(Contract("make_iterator.long[%d epochs,%d batches]" % (epochs, nb), F + "make_iterator", {"seed": ()}, run=run, sample=seed({"seed": ()}), n=1, symbolic=False,
            bounded="sampled on the real generator: one key (quick), several (thorough)",
            ensures=lambda v, o: [("keys are pairwise different", eq(o[0], 1)), ("every batch of every epoch in order", eq(o[1], 1))]))

    def run(m, v):
        tree = {"a": jnp.zeros((3, 2)), "b": jnp.zeros((3, 5))}
        bad = {"a": jnp.zeros((3, 2)), "b": jnp.zeros((4, 2))}
        r = []
        for f in (lambda: m.opt.axis_size(bad), lambda: m.opt.batches_without_replacement(jax.random.PRNGKey(0), bad, 2), lambda: m.opt.batches_with_replacement(jax.random.PRNGKey(0), bad, 1, 2),
                  lambda: m.utils.tree_dim(bad), lambda: m.utils.tree_single_dtype({"a": jnp.zeros(2, dtype=jnp.float32), "b": jnp.zeros(2, dtype=jnp.int32)})):
            try:
                f()
                r.append(0.0)
            except (AssertionError, ValueError):
                r.append(1.0)
        return [v.u * 0 + m.opt.axis_size(tree), v.u * 0 + m.opt.axis_size(bad, 1), v.u * 0 + m.utils.tree_dim(tree), v.u * 0 + m.utils.tree_dim(bad, 1)] + [v.u * 0 + t for t in r] + [
            v.u * 0 + float(m.opt.check_axis_size(tree)), v.u * 0 + float(m.opt.check_axis_size(bad)), v.u * 0 + float(m.opt.check_axis_size(tree, 1)),
            v.u * 0 + float(m.utils.tree_single_dtype(tree) == jnp.zeros(1).dtype), v.u * 0 + float(m.utils.tree_single_dtype({}) is None)]
    R.append(Contract("axis_size", [F + "axis_size", F + "check_axis_size", "magpi.utils.tree_dim", "magpi.utils.tree_single_dtype"], {"u": ()}, run=run, n=2,
        ensures=lambda v, o: [("common size", and_(eq(o[0], 3), eq(o[1], 2), eq(o[2], 3), eq(o[3], 2))), ("different sizes or dtypes are rejected", and_(*[eq(t, 1) for t in o[4:9]])),
                              ("check", and_(eq(o[9], 1), eq(o[10], 0), eq(o[11], 0))), ("dtype", and_(eq(o[12], 1), eq(o[13], 1)))]))
    return R



# -- rejection sampling -------------------------------------------------------------
class Rejection:
    """loop contract: at every loop head each lane holds one proposal and one uniform number, drawn
    from two different children of a key that is used for nothing else; a lane is redrawn exactly
    while u > pdf(proposal)/m, and the accepted proposal is returned"""
    tier = "quick"
    bounded = None

    def __init__(self, name, tree, lanes=2):
        self.name, self.tree, self.lanes = name, tree, lanes
        self.fn = [S + "rejection_sampling"]
        self.prop = None

    # -- numeric side ------------------------------------------------------------
    CASES = ["linear", "flat", "square", "disk", "tree", "slow"]

    def trial(self, m, case, sd):
        n = 4000
        key = jax.random.PRNGKey(sd)
        U = jax.random.uniform
        f = m.sampling.rejection_sampling
        if case == "linear":
            z, cdf = f(key, lambda x: 2 * x, lambda k: U(k), n, 2), lambda x: x ** 2
        elif case == "flat":
            z, cdf = f(key, lambda x: 1.0 + 0 * x, lambda k: U(k), n, 3), lambda x: x
        elif case == "slow":
            z, cdf = f(key, lambda x: 2 * x, lambda k: U(k), n, 12), lambda x: x ** 2
        elif case == "square":
            z, cdf = f(key, lambda x: 3 * (1 - x) ** 2, lambda k: U(k), n, 4), lambda x: 1 - (1 - x) ** 3
        elif case == "disk":
            s = f(key, lambda x: jnp.where(x @ x <= 1, 1 / jnp.pi, 0.0), lambda k: 2 * U(k, (2,)) - 1, n, 1)
            if s.shape != (n, 2):
                return "shape", str(s.shape)
            if bool(jnp.any(jnp.sum(s ** 2, -1) > 1)):
                return "sample of density zero", ""
            z, cdf = jnp.sum(s ** 2, -1), lambda x: x
        else:
            s = f(key, lambda p: 2 * p["a"] * p["b"][0] * 2, lambda k: (lambda u: {"a": u[0], "b": u[1:]})(U(k, (2,))), n, 4)
            if s["a"].shape != (n,) or s["b"].shape != (n, 1):
                return "shape", str(jax.tree_util.tree_map(jnp.shape, s))
            c = float(np.corrcoef(np.asarray(s["a"]), np.asarray(s["b"][:, 0]))[0, 1])
            if abs(c) > 5.5 / n ** 0.5:
                return "components of one proposal", "correlation %g" % c
            z, cdf = s["a"], lambda x: x ** 2
        z = np.asarray(z)
        if z.shape != (n,):
            return "shape", str(z.shape)
        if len(np.unique(z)) < 0.99 * n:
            return "independent lanes", "only %d different samples of %d" % (len(np.unique(z)), n)
        c = float(np.corrcoef(z[:-1], z[1:])[0, 1])
        if abs(c) > 5.5 / n ** 0.5:
            return "independent lanes", "correlation of neighbours %g" % c
        F_ = np.sort(cdf(z))
        D = np.max(np.abs(F_ - (np.arange(n) + 0.5) / n)) * n ** 0.5
        if D > 2.6:
            return "distributed according to the density", "Kolmogorov-Smirnov statistic %g" % D
        return None

    def replay(self, d):
        i = d["inputs"]
        r = self.trial(contract.magpi(), i["case"], i["seed"])
        print("real code:", r)
        return 1 if r else 0

    def check(self, seed=1, tier="quick", log=print, deadline=None):
        t0 = time.time()
        m = contract.magpi()
        res = {"contract": self.name, "functions": self.fn, "bounded": None,
               "assumes": ["jax.random: different keys give independent draws", "termination of the rejection loop is almost sure, not proved"],
               "obligations": [], "violations": [], "samples": 0, "satisfied": 0, "paths": 1, "solver_s": 0.0, "backends": {}, "assumed": {}, "note": ""}
        import multiprocessing.pool
        for k, case in enumerate(self.CASES * (1 if tier == "quick" else 4)):
            pool = multiprocessing.pool.ThreadPool(1)
            try:
                r = pool.apply_async(self.trial, (m, case, seed + k)).get(60)
            except multiprocessing.TimeoutError:
                r = ("terminates", "no result after 60 s")
            except Exception as ex:  # noqa: BLE001
                r = ("exception", repr(ex)[-300:])
            res["samples"] += 1
            res["satisfied"] += 1
            if r:
                res["violations"].append({"kind": "input", "contract": self.name, "label": r[0], "detail": r[1], "inputs": {"case": case, "seed": seed + k}, "functions": self.fn})
                res["obligations"].append({"label": r[0], "status": "failed", "why": r[1]})
                res["wall_s"] = time.time() - t0
                return res
        try:
            self.proof(m, res, log)
        except Exception as ex:  # noqa: BLE001
            import traceback
            res["obligations"].append({"label": "extraction", "status": "failed", "why": repr(ex)[:300]})
            res["violations"].append({"kind": "obligation", "contract": self.name, "label": "extraction", "detail": traceback.format_exc()[-1500:], "functions": self.fn})
        for o in res["obligations"]:
            if o["status"] != "proved" and not res["violations"]:
                res["violations"].append({"kind": "obligation", "contract": self.name, "label": o["label"], "detail": o["why"], "functions": self.fn})
        if not res["obligations"]:
            res["violations"].append({"kind": "obligation", "contract": self.name, "label": "no obligations generated", "detail": "", "functions": self.fn})
        res["wall_s"] = time.time() - t0
        return res

    # -- proof -------------------------------------------------------------------------
    def proof(self, m, res, log):
        n = self.lanes
        s = front.UF(self.name + ":s", ((2,),), (2,))
        pdf = front.UF(self.name + ":pdf", ((2,),), ())

        def sample_fn(key):
            key = jax.random.key_data(key) if jnp.issubdtype(jnp.asarray(key).dtype, jax.dtypes.prng_key) else key
            z = s(key.astype(float))
            return {"a": z[0], "b": z[1:]} if self.tree else z

        def dens(z):
            return pdf(jnp.concatenate([z["a"][None], z["b"]])) if self.tree else pdf(z)

        def call(sd, mm):
            r = m.sampling.rejection_sampling(vk_key(sd), dens, sample_fn, n, mm)
            return jnp.concatenate([r["a"][:, None], r["b"]], -1) if self.tree else r
        jx = jax.make_jaxpr(call)(0.5, 2.0)
        M = t_.var("m")

        def ob(lbl, hyps, goal):
            P = prover.Prover(timeout=10)
            t1 = time.time()
            ok = P.prove(list(hyps), goal)
            for b, k in P.stats.by.items():
                res["backends"][b] = res["backends"].get(b, 0) + k
            res["solver_s"] += P.stats.solver_s
            log("    %s %s %s" % ("proved" if ok else "failed", lbl, "" if ok else P.why[:200]))
            res["obligations"].append({"label": lbl, "status": "proved" if ok else "failed", "why": "" if ok else P.why[:400], "secs": round(time.time() - t1, 3), "kind": "inv"})
            return ok

        def keys_in(t):
            return {u for u in t_.walk(t) if rng.is_key(u)}

        def leafkeys(t, root):
            """keys a component is drawn from: maximal key terms"""
            out = set()

            def go(u):
                if rng.is_key(u) or u is root:
                    out.add(u)
                    return
                for c in t_.children(u):
                    go(c)
            go(t)
            return out
        state = {"loops": 0}

        def hook(ctx, eqn, cconst, bconst, carry):
            p = eqn.params
            carry = [interp.obj(c) for c in carry]
            sym = [i for i, c in enumerate(carry) if any(keys_in(t) for t in c.reshape(-1))]
            if not sym:
                return None
            state["loops"] += 1
            batched = all(c.ndim >= 1 and c.shape[0] == n for c in carry)
            lanes = range(n) if batched else [None]

            def lane(c, l):
                return list(c.reshape(-1)) if l is None else list(c.reshape(n, -1)[l])
            # abstraction: the initial state as a function of the lane key
            par, pre, heads = {}, [np.array(c, dtype=object, order="C") for c in carry], {}
            for l in lanes:
                ks = set()
                for c in carry:
                    for t in lane(c, l):
                        ks |= leafkeys(t, None)
                parents = {k.args[3][0] for k in ks if k.args[0] == "rng:split"}
                good = len(parents) == 1 and all(k.args[0] == "rng:split" for k in ks)
                if len(ks) == 1:
                    parents, good = set(ks), True     # the state is a function of one key
                ob("lane %s: state is drawn from children of one key" % l, [], TRUE if good else FALSE)
                if not good:
                    raise interp.Unsupported("keys of the loop state")
                par[l] = parents.pop()
                heads[l] = t_.var("kappa%s_%d" % ("" if l is None else l, state["loops"]))
                memo = {}
                for c in pre:
                    fl = c.reshape(1, -1) if l is None else c.reshape(n, -1)   # a view of the copy
                    for i in range(fl.shape[1]):
                        fl[l or 0, i] = t_.subst(fl[l or 0, i], {par[l]: heads[l]}, memo)
            for a in lanes:
                for b in lanes:
                    if a is not None and a < b:
                        ob("lanes %s and %s use different keys" % (a, b), [], TRUE if par[a] is not par[b] else FALSE)
                for k, other in enumerate(state.setdefault("parents", [])):
                    if l is None:
                        ob("samples %d and %d use different keys" % (k, len(state["parents"])), [], TRUE if other is not par[l] else FALSE)
                if l is None:
                    state["parents"].append(par[l])
            gs = list(interp.obj(interp.closed(ctx, p["cond_jaxpr"], list(cconst) + pre)[0]).reshape(-1))
            g = t_.or_(*gs)
            facts0 = list(ctx.facts)
            post = [interp.obj(c) for c in interp.closed(ctx, p["body_jaxpr"], list(bconst) + pre)]
            # components that hold no draw and change (a counter, say): nothing is known about them
            aux = [i for i, (c, o) in enumerate(zip(pre, post)) if i not in sym and any(a is not b for a, b in zip(c.reshape(-1), o.reshape(-1)))]
            if aux:
                for i in aux:
                    if any(v.sort == "B" for v in pre[i].reshape(-1)):
                        raise interp.Unsupported("logical state that holds no draw")
                    pre[i] = np.array([t_.var("aux%d_%d_%d" % (state["loops"], i, j)) for j in range(pre[i].size)], dtype=object).reshape(pre[i].shape)
                gs = list(interp.obj(interp.closed(ctx, p["cond_jaxpr"], list(cconst) + pre)[0]).reshape(-1))
                g = t_.or_(*gs)
                post = [interp.obj(c) for c in interp.closed(ctx, p["body_jaxpr"], list(bconst) + pre)]
            raw = post
            if batched and len(gs) == n > 1:
                # a while with one predicate per lane: a lane whose predicate is false keeps its state
                post = [np.array([[t_.ite(gs[l], x, y) for x, y in zip(c.reshape(n, -1)[l], o.reshape(n, -1)[l])] for l in range(n)], dtype=object).reshape(o.shape) for c, o in zip(post, pre)]
            elif len(gs) != 1:
                raise interp.Unsupported("loop predicate of %d entries" % len(gs))
            for l in lanes:
                cur = [t for i, c in enumerate(pre) for t in lane(c, l) if i not in aux]
                new = [t for i, c in enumerate(post) for t in lane(c, l) if i not in aux]
                gl = [gs[l if batched and len(gs) == n else 0]]
                sub_ = {t for c in cur + gl for t in t_.walk(c)}
                us = [t for t in sub_ if t.op == "app" and t.args[0] == "rng:uniform"]
                ok = len(us) == 1
                ob("lane %s: one uniform number" % l, [], TRUE if ok else FALSE)
                if not ok:
                    raise interp.Unsupported("no single uniform number in the loop state")
                u = us[0]
                ps = {t for t in sub_ if t.op == "app" and t.args[0] == s.name}
                args = {t.args[3] for t in ps}
                ob("lane %s: one proposal" % l, [], TRUE if len(args) == 1 and len(ps) == 2 else FALSE)
                arg = args.pop()
                skey = rng.key_of(arg[0], arg[1])
                z = [t_.app(s.name, (i,), (), arg) for i in range(2)]
                quot = t_.app(pdf.name, (), (), z) / M
                cont = lt(quot, u)
                # the draws; the next key is the one whose state the loop body computes
                raw_l = [t for i, c in enumerate(raw) for t in lane(c, l) if i not in aux]
                ukey = u.args[3][0]
                cands = {k for t in raw_l for k in keys_in(t) if k is not heads[l] and heads[l] in rng.path(k)}
                cands = sorted(cands, key=lambda k: len(rng.path(k)))
                same = [k for k in cands if [t_.subst(t, {heads[l]: k}, {}) for t in cur] == raw_l]
                if not (same or cands):
                    raise interp.Unsupported("no next key in the loop state")
                k1 = (same or cands)[0]
                fresh = all(rng.independent(a_, b_) and heads[l] in rng.path(a_) and a_ is not heads[l] for a_, b_ in itertools.permutations((ukey, skey, k1), 2))
                ob("lane %s: proposal, uniform number and next round use different keys" % l, [], TRUE if fresh else FALSE)
                memo = {}
                redrawn = [t_.subst(t, {heads[l]: k1}, memo) for t in cur]
                for i, (a, b, c) in enumerate(zip(cur, new, redrawn)):
                    ob("lane %s: component %d is redrawn while rejected" % (l, i), facts0 + [cont, g, lt(ZERO, M)], eq(b, c))
                    if batched:
                        ob("lane %s: component %d is kept once accepted" % (l, i), facts0 + [not_(cont), g, lt(ZERO, M)], eq(b, a))
                ob("lane %s: the loop goes on while rejected" % l, facts0 + [cont, lt(ZERO, M)], g)
                state.setdefault("lanes", []).append((z, cont))
            # exit
            ob("the loop ends once every lane is accepted", facts0 + [not_(c) for _, c in state["lanes"][-len(list(lanes)):]] + [lt(ZERO, M)], not_(g))
            ctx.facts.append(not_(g))
            return pre

        ctx = interp.Ctx()
        ctx.while_hook = hook
        sd = t_.var("seed")
        outs = interp.run_jaxpr(ctx, jx.jaxpr, jx.consts, [avec.arr0(sd), avec.arr0(M)])
        o = interp.obj(outs[0])
        ob("one sample per lane", [], TRUE if o.shape == (n, 2) and state["loops"] >= 1 else FALSE)
        for l in range(n):
            z, cont = state["lanes"][l]
            ob("lane %d returns its accepted proposal" % l, list(ctx.facts) + [lt(ZERO, M)], and_(eqs(o[l], A(*z)), not_(cont)))
        res["assumed"] = dict(ctx.assumed)


def c25():
    return [Rejection("rejection_sampling", False), Rejection("rejection_sampling[pytree]", True), Rejection("rejection_sampling[one lane]", False, 1)]
