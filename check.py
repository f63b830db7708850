#!/usr/bin/env python3
"""check.py --property Cxx [--tier quick|thorough] [--only substr] [-j N] [-v]"""
import argparse
import json
import multiprocessing as mp
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ.setdefault("XLA_FLAGS", "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

FILES = {}


def load(prop):
    import importlib

    import props

    mods = props.MODULES[prop]
    out = []
    for m in mods:
        mod = importlib.import_module("props." + m)
        out += mod.contracts(prop)
    seen = set()
    for c in out:
        assert c.name not in seen, "duplicate contract " + c.name
        seen.add(c.name)
        c.prop = prop
    return out


def work(arg):
    prop, name, seed, tier, deadline, verbose = arg
    try:
        cs = {c.name: c for c in load(prop)}
        c = cs[name]
        check = getattr(c, "check", None)
        from vk.contract import check_contract

        lines = []
        if check is not None:
            r = check(seed=seed, tier=tier, log=lines.append, deadline=deadline)
        else:
            r = check_contract(c, seed=seed, tier=tier, log=lines.append, deadline=deadline)
        r["log"] = lines
        return r
    except Exception as e:  # noqa: BLE001
        import traceback

        return {"contract": name, "functions": [], "obligations": [], "violations": [
            {"kind": "obligation", "contract": name, "label": "contract could not be evaluated",
             "detail": traceback.format_exc()[-2000:], "functions": []}],
            "wall_s": 0, "log": [], "samples": 0, "satisfied": 0, "solver_s": 0, "backends": {}, "assumed": {},
            "paths": 0, "bounded": None, "assumes": []}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--only", default=None)
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    prop = a.property
    limit = 690 if a.tier == "quick" else 3000
    deadline = t0 + limit
    names = [c.name for c in load(prop) if a.tier == "thorough" or c.tier == "quick"]
    if a.only:
        names = [n for n in names if a.only in n]
    tasks = [(prop, n, a.seed, a.tier, deadline, a.v) for n in names]
    results = []
    ctx = mp.get_context("spawn")
    if a.j <= 1 or len(tasks) <= 1:
        it = map(work, tasks)
        pool = None
    else:
        pool = ctx.Pool(min(a.j, len(tasks)), maxtasksperchild=30)
        it = pool.imap_unordered(work, tasks, chunksize=1)
    stop = deadline + 60
    try:
        while True:
            try:
                if pool is None:
                    r = next(it)
                else:
                    r = it.next(timeout=max(5, stop - time.time()))
            except StopIteration:
                break
            except mp.TimeoutError:
                if any(x["kind"] == "input" for r in results for x in r["violations"]):
                    print("stopped early: a failing input is already known")
                    break
                done = {r["contract"] for r in results}
                for n in names:
                    if n not in done:
                        results.append({"contract": n, "functions": [], "obligations": [], "violations": [
                            {"kind": "obligation", "contract": n, "label": "time budget exhausted", "detail": "", "functions": []}],
                            "wall_s": 0, "log": [], "samples": 0, "satisfied": 0, "solver_s": 0, "backends": {},
                            "assumed": {}, "paths": 0, "bounded": None, "assumes": []})
                break
            results.append(r)
            if any(x["kind"] == "input" for x in r["violations"]):
                stop = min(stop, time.time() + 120)
            nob = len(r["obligations"])
            nok = sum(o["status"] == "proved" for o in r["obligations"])
            print("%-52s %3d/%3d obligations  %2d paths  %3d/%3d samples  %6.1fs %s" % (
                r["contract"], nok, nob, r["paths"], r["satisfied"], r["samples"], r["wall_s"],
                "VIOLATED" if r["violations"] else ""), flush=True)
            if a.v:
                for l in r["log"]:
                    print(l)
    finally:
        if pool is not None:
            pool.terminate()
    import report

    sys.exit(report.finish(prop, a.tier, a.seed, results, time.time() - t0, partial=bool(a.only)))


if __name__ == "__main__":
    main()
