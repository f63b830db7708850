"""Evidence, known findings, VIOLATION lines."""
import hashlib
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))


def known():
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    return json.load(open(path)).get("findings", [])


def finish(prop, tier, seed, results, wall, partial=False):
    ev = os.path.join(HERE, "evidence")
    rdir = os.path.join(ev, "replay")
    os.makedirs(rdir, exist_ok=True)
    viol = [x for r in results for x in r["violations"]]
    kf = [k for k in known() if k["property"] == prop]
    new, hits = [], []
    for x in viol:
        h = next((k for k in kf if k["contract"] == x["contract"] and k["label"] == x["label"]), None)
        (hits if h else new).append((x, h))
    shown = set()
    for x, h in hits:
        if h["what"] not in shown:
            print("KNOWN-FINDING: property=%s %s" % (prop, h["what"]))
            shown.add(h["what"])
    nob = sum(len(r["obligations"]) for r in results)
    nok = sum(o["status"] == "proved" for r in results for o in r["obligations"])
    be = {}
    for r in results:
        for k, n in r["backends"].items():
            be[k] = be.get(k, 0) + n
    fns = sorted({f for r in results for f in r["functions"]})
    bounded = sorted({"%s: %s" % (r["contract"], r["bounded"]) for r in results if r.get("bounded")})
    assumed = sorted({k for r in results for k in r["assumed"]})
    assumes = sorted({x for r in results for x in r.get("assumes", [])})
    import props

    level = props.LEVEL.get(prop, "proof")
    doc = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "obligations": nob, "discharged": nok,
            "checker_cmd": "/opt/venv/bin/python /verif/check.py --property %s --tier %s" % (prop, tier),
            "trusted_base": [
                "JAX make_jaxpr (extraction) and JAX autodiff rules",
                "vk.interp (jaxpr semantics over the reals; cross-checked against the real code on every sample)",
                "vk.poly exact rational normal form", "z3 5.3.2", "cvc5 1.4.2"],
            "contracts": len(results), "functions_under_contract": fns,
            "leaf_goals_by_backend": be,
            "solver_s": round(sum(r["solver_s"] for r in results), 2),
            "paths": sum(r["paths"] for r in results),
            "real_code_samples": sum(r["samples"] for r in results),
            "samples_meeting_precondition": sum(r["satisfied"] for r in results),
            "bounded_contracts": bounded,
            "per_contract": [{"contract": r["contract"], "functions": r["functions"],
                              "obligations": len(r["obligations"]),
                              "discharged": sum(o["status"] == "proved" for o in r["obligations"]),
                              "paths": r["paths"], "samples": r["satisfied"],
                              "wall_s": round(r["wall_s"], 2)} for r in sorted(results, key=lambda r: r["contract"])],
        },
        "assumptions": ["machine floating point arithmetic is treated as exact real arithmetic",
                        "numeric literals stand for the simplest rational (or rational multiple of pi) that rounds to them",
                        "uninterpreted user functions are smooth with symmetric mixed partial derivatives"]
        + ["dependency contract assumed: " + k for k in assumed] + assumes
        + ["bounded: " + b for b in bounded],
        "wall_s": round(wall, 2), "violations": len(new),
        "known_findings": len(hits),
    }
    if not partial:
        with open(os.path.join(ev, prop + ".json"), "w") as f:
            json.dump(doc, f, indent=1)
    print("%s: %d contracts, %d/%d obligations discharged %s, %.1fs" % (prop, len(results), nok, nob, be, wall))
    if not results or (nob == 0 and not new):
        print("no obligations were generated")
        path = os.path.join(rdir, "%s_none.json" % prop)
        json.dump({"property": prop, "detail": "no obligations"}, open(path, "w"))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
        return 1
    if not new:
        return 0
    new.sort(key=lambda p: p[0]["kind"] != "input")
    done = set()
    for x, _ in new:
        if x["contract"] in done:
            continue
        done.add(x["contract"])
        hsh = hashlib.sha1(json.dumps([prop, x["contract"], x["label"]]).encode()).hexdigest()[:10]
        path = os.path.join(rdir, "%s_%s.json" % (prop, hsh))
        with open(path, "w") as f:
            json.dump(dict(x, property=prop, replay_cmd="/opt/venv/bin/python /verif/replay.py %s" % path), f, indent=1)
        print("failed obligation: %s / %s: %s" % (x["contract"], x["label"], " ".join(str(x["detail"]).split())[-200:]))
        print("VIOLATION property=%s replay=%s%s" % (
            prop, path, "" if x["kind"] == "input" else " no-failing-input-found"))
    return 1
