#!/usr/bin/env python3
"""replay.py FILE: re-run one recorded counterexample against /repo"""
import json
import sys

import check  # noqa: F401  (environment)


def main():
    d = json.load(open(sys.argv[1]))
    print(json.dumps({k: d[k] for k in d if k not in ("detail",)}, indent=1))
    if d["kind"] != "input":
        print(d["detail"])
        return 1
    from vk import contract

    c = next(c for c in check.load(d["property"]) if c.name == d["contract"])
    if hasattr(c, "replay"):
        return c.replay(d)
    v = contract.spec_ns(c)
    req = [contract.lift(x) for x in (c.requires(v) if c.requires else [])]
    t = contract.try_point(c, contract.magpi(), v, req, d["inputs"], d.get("uf_seed", 0))
    print("real code:", t.status, t.label, t.detail)
    return 1 if t.status == "fail" else 0


if __name__ == "__main__":
    sys.exit(main())
