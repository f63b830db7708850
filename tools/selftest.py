#!/usr/bin/env python3
"""Setup step: checks that the tools are there and that the prover accepts true and rejects false goals."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check  # noqa: E402,F401  (environment)

import z3  # noqa: E402
import cvc5  # noqa: E402
from vk import prover  # noqa: E402
from vk.terms import *  # noqa: E402,F403
from vk.terms import var, sqrt, sin, cos, le, lt, eq, implies, ite, maxv, absv, and_, or_, T, app  # noqa: E402

x, y, z = var("x"), var("y"), var("z")
GOOD = [
    ([], eq((x + y) ** 2, x * x + 2 * x * y + y * y)),
    ([lt(0, x)], eq(sqrt(x) * sqrt(x), x)),
    ([], eq(sin(x) ** 2 + cos(x) ** 2, 1)),
    ([], le(2 * x * y, x * x + y * y)),
    ([le(0, x), le(x, 1)], le(x * x, x)),
    ([], le(x, maxv(x, y))),
    ([eq(x, y)], eq(app("f", (), (), (x,)), app("f", (), (), (y,)))),
    ([], le(0, absv(x))),
    ([lt(0, x), lt(0, y)], lt(0, x / y)),
    ([], le(0, x * x * sqrt(absv(y)) + z * z)),
    ([lt(0, x)], lt(0, x + absv(y) * sqrt(x * x + y * y))),
]
BAD = [
    ([], eq((x + y) ** 2, x * x + x * y + y * y)),
    ([], eq(sqrt(x * x), x)),
    ([], eq(sin(x) + cos(x), 1)),
    ([], le(x * y, x * x + y)),
    ([le(0, x)], le(x * x, x)),
    ([], le(maxv(x, y), x)),
    ([], eq(app("f", (), (), (x,)), app("f", (), (), (y,)))),
    ([], lt(0, absv(x))),
    ([lt(0, x)], lt(0, x / y)),
    ([le(x, y), le(y, z)], lt(x, z)),
    ([le(0, x), le(0, y)], eq(x * y, 0)),
    ([], lt(0, x * x * sqrt(absv(y)) + z * z)),
    ([], le(0, x * y * y + z * z)),
]


def main():
    bad = 0
    for exp, goals in ((True, GOOD), (False, BAD)):
        for h, g in goals:
            P = prover.Prover(timeout=5.0)
            r = P.prove(h, g)
            if r != exp:
                print("selftest: expected %s for %s" % (exp, g))
                bad += 1
    import extraction
    n, wrong = extraction.run()
    for name, got, ref in wrong:
        print("selftest: extraction of %s: %s, JAX %s" % (name, got, ref))
    bad += len(wrong)
    print("selftest: extraction of %d groups of JAX operations agrees with JAX on %d" % (n, n - len(wrong)))
    print("selftest: z3 %s, cvc5 %s, %d goals, %d wrong" % (z3.get_version_string(), cvc5.__version__, len(GOOD) + len(BAD), bad))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
