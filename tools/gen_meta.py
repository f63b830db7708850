#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
Q, R, M, D, I, K, O = ("magpi/%s.py" % f for f in ("quaternions", "r_fun", "model", "domain", "integrate", "calc", "ode"))
TR, OPT, UT, SA, SP, SI = ("magpi/%s.py" % f for f in ("tr", "opt", "utils", "sampling", "spline", "surface_integral"))

# id: (title, statement, quantifier over, quantifier text, why tests can't, files, mechanism[(name, where)])
P = {}
P["C01"] = ("Quaternion arithmetic is the quaternion division algebra",
 "The arithmetic operators on quaternions (sum, difference, negation, product, conjugate, absolute value, reciprocal, quotient, equality, and their mixed forms with plain numbers on either side) satisfy the laws of the real quaternion algebra: Hamilton product, associativity, distributivity, multiplicative norm, two-sided inverses. Adding or subtracting a plain number acts on all four components, and subtracting a quaternion from a number is the negative of subtracting the number from it.",
 ["inputs"], "all real component values of all operands (non-zero divisor where one is divided by)",
 "The tests multiply a few fixed quaternions; the laws are universally quantified over operands.", [Q],
 [("Quaternion operators", Q + ":Quaternion")])
P["C02"] = ("Quaternion rotations are the rotations their parameters denote",
 "Rotating a vector by a non-zero quaternion preserves lengths, inner products and orientation, does not depend on the quaternion's scale, and composing rotations equals rotating by the product. Quaternions built from Euler angles or an axis and angle denote exactly that rotation, for any non-zero axis length; reflection is the involutive isometry that flips the normal.",
 ["inputs"], "all non-zero quaternions, all vectors, all angles, all non-zero axes",
 "Tests check a few right-angle rotations about coordinate axes with unit axes.", [Q],
 [("quaternion_rotation / quaternion_reflection", Q), ("from_euler_angles / from_axis_angle", Q + ":Quaternion")])
P["C03"] = ("Quaternion exponential, logarithm and powers are consistent",
 "The quaternion exponential has the modulus, direction and angle prescribed by the scalar and vector part, is inverted by the logarithm away from the negative real axis, and maps negation to inversion. Powers with a real or quaternion exponent equal exp(exponent times log(base)), integer powers equal repeated products, and real quaternions behave like real numbers.",
 ["inputs"], "all quaternions where the function is defined, including those with zero vector part",
 "Tests evaluate two or three values; the degenerate (vector part zero) branch and all other operands are never sampled.", [Q],
 [("exp/log/pow and their double-where guards", Q)])
P["C04"] = ("Set operations on distance functions describe the intended set",
 "For every R-function system, conjunction, disjunction, negation, xor, implication, equivalence and difference of two implicit functions have the sign of the corresponding set operation for all operand values, De Morgan duality holds, and no operation produces a non-finite value. Combining implicit functions pointwise therefore describes exactly the intersection, union, complement or difference of the sets.",
 ["inputs", "configurations"], "all operand values of any sign or zero and all admissible system parameters",
 "Tests compare values for a few geometries on a grid; sign correctness must hold for all operand pairs and parameters.", [R],
 [("RFun.conjunction/disjunction/…", R), ("union/intersection/compl/difference", R)])
P["C05"] = ("Primitive shapes: sign and zero set match the solid",
 "The implicit functions of the primitive solids (cuboid, cube, sphere, ellipsoid, cylinder) are positive exactly in the interior, zero exactly on the surface and negative exactly outside, for every size and centering option. They are finite everywhere.",
 ["inputs", "configurations"], "all points and all positive extents, dimensions 1-4 (sphere, ellipsoid, cuboid), both centering options, all R-function systems used for combination",
 "Tests evaluate some points for a few fixed sizes.", [R],
 [("cuboid, cube, sphere, ellipsoid, cylinder", R)])
P["C06"] = ("Geometric transforms of implicit functions move the solid exactly",
 "Translating, scaling, rotating, reflecting, projecting or revolving an implicit function gives the function whose value at a point is that of the original at the inversely transformed point, so the described solid is the transformed solid. Scaling with normalization additionally multiplies by the scale so distances stay distances.",
 ["inputs", "programs"], "every implicit function (arbitrary user function), every point, every transformation parameter incl. integer-valued angles",
 "Tests use one or two shapes and a few angles; the law must hold for every function and parameter.", [R],
 [("translate, scale, rotate2d, rotate3d, reflect, project, revolution", R)])
P["C07"] = ("Normalized distance functions have unit slope on the boundary",
 "First-order normalization of an implicit function keeps its zero set and sign and gives it gradient of norm one at every regular boundary point. The primitive distance functions, their R-conjunctions/disjunctions away from corners, and their rigid transforms are normalized the same way.",
 ["inputs", "programs"], "every smooth implicit function, every regular zero of it, every order/parameter",
 "Tests never differentiate on the boundary for general functions.", [R],
 [("normalize_1st_order", R), ("RFun systems", R)])
P["C08"] = ("Hard boundary and initial conditions hold for any network",
 "A model wrapped to satisfy a Dirichlet condition takes exactly the prescribed value wherever the distance function vanishes, and a model wrapped with an initial condition takes exactly the prescribed initial state at the initial time, whatever the inner network, its parameters and its arguments are. Elsewhere the result is the distance function times the network plus the boundary value, respectively the exponential blend from initial state to network with the given rate.",
 ["programs", "inputs", "configurations"], "every inner model, every boundary/initial function, every point, every batching and argument-position setting",
 "Tests use a few concrete networks and points.", [M],
 [("impose_dirichlet_bc, impose_ic decorators", M)])
P["C09"] = ("Hard Neumann conditions hold for any network",
 "A model wrapped to satisfy a Neumann condition has exactly the prescribed outward normal derivative at every boundary point where the distance function is normalized, whatever the inner network is. The wrapper passes extra arguments through to the network, the distance function and the flux function.",
 ["programs", "inputs"], "every smooth inner model and distance function with unit normal derivative on its zero set, dimensions 1-3, scalar- and vector-valued models",
 "Tests use one concrete geometry and network.", [M],
 [("impose_neumann_bc", M)])
P["C10"] = ("Domain maps land in the domain and on its boundary",
 "The maps from the unit cube onto a domain (hypercube, disk, annulus, ball, triangle, parallelogram, polyline) send every parameter into the closed domain, and the boundary maps send every parameter onto its boundary. Batched evaluation keeps the batch axes (also those of length one) and equals pointwise evaluation.",
 ["inputs", "configurations"], "all parameters in the unit cube, all domain extents",
 "Tests sample random points of one domain each.", [D],
 [("transform_* functions and Domain.transform/transform_bnd", D)])
P["C11"] = ("Domain maps carry uniform samples to uniform samples",
 "Each map from the unit cube onto a domain, and each boundary map onto the boundary, has constant area (length, volume) density, so uniformly distributed parameters give uniformly distributed points. For the cube boundary, disk, annulus and sphere maps, distinct interior parameters give distinct points.",
 ["inputs", "configurations"], "all parameters (away from measure-zero seams) and all domain extents",
 "A finite sample cannot establish a density.", [D],
 [("transform_* Jacobians", D)])
P["C12"] = ("Normals are outward unit normals; membership matches the set",
 "At every boundary point of a domain the normal vector has length one, is orthogonal to the face or sphere through the point and points outward; points off the boundary are rejected as documented. The membership test gives one answer per point, for single points and batches: true for every interior point, false for every point outside the closed domain, and the box counts its boundary.",
 ["inputs", "configurations"], "all points, all domain extents, including edges, corners and batches",
 "Tests check face centres of one cube and a few circle points.", [D],
 [("Hypercube/Disk/Sphere normal_vec, includes", D)])
P["C13"] = ("Quadrature rules have their stated order on any mesh",
 "Each one-dimensional quadrature rule returns nodes inside the given panels and weights such that the weighted sum integrates every polynomial up to the rule's degree exactly over the mesh, on every (also non-uniform) mesh. Weights are positive and sum to the mesh length.",
 ["inputs", "configurations"], "all meshes (2-6 nodes, arbitrary positive panel widths), rules midpoint, trapezoid, Simpson, Gauss-Legendre 1-7",
 "Tests integrate a few functions on uniform meshes with tolerance.", [I],
 [("midpoint, trap, simpson, gauss", I)])
P["C14"] = ("Multi-dimensional integration is the product quadrature of its rule",
 "Integration over a box, disk, annulus or ball equals the sum over the tensor grid of rule nodes of weight, geometry Jacobian and integrand value, for every integrand, every mesh and every rule; extra arguments reach the integrand. It is linear in the integrand and exact for polynomials within the rule's degree.",
 ["programs", "inputs", "configurations"], "every integrand (scalar or array valued), every mesh and domain extent, 1-3 dimensions",
 "Tests integrate a few known functions.", [I],
 [("integrate, integrate_disk, integrate_sphere", I)])
P["C15"] = ("Differential operators compute the mathematical operator",
 "Derivative, Laplacian, Hessian diagonal, divergence, curl and value-with-Jacobian of any smooth function equal the textbook combination of its partial derivatives at every point, in every supported dimension and output shape; a structured output is treated leaf by leaf. Arguments are selected by name or by position, negative positions count from the end, and the selected argument may be passed by keyword; a selection that does not exist is an error, never a zero. The vector calculus identities (curl grad = 0, div curl = 0, div grad = Laplacian) follow.",
 ["programs", "inputs"], "every smooth function, every point, every argument selection supported",
 "Tests differentiate a few concrete functions.", [K],
 [("derivative, laplace, divergence, curl, hessian_diag", K)])
P["C16"] = ("Hessian-vector products equal the true Hessian times the vector",
 "The Hessian-vector product of any smooth function with any vector equals the second-derivative matrix applied to that vector, including optional damping, auxiliary outputs and structured parameters, and the value and gradient returned along with it are those of the function. The product is linear and symmetric.",
 ["programs", "inputs"], "every smooth function, every point and vector",
 "Tests use a few concrete functions.", [K],
 [("hvp, hvp_forward_over_reverse, value_grad_hvp", K)])
P["C17"] = ("ODE integration applies the chosen one-step method on any time grid",
 "Integrating an ODE returns one state per requested time, the first being the initial value and each next one being one step of the chosen method from the previous time with exactly the time difference, on non-uniform and decreasing grids too. The Runge-Kutta step is the classical fourth-order step (exact for quartic solutions), the Euler step the explicit Euler step, for any structured state, and derivatives through the solver follow the same recursion.",
 ["programs", "inputs", "configurations"], "every right-hand side, every initial state and time grid, every unroll setting",
 "Tests integrate one or two equations on uniform grids within a tolerance.", [O],
 [("odeint, rk4, explicit_euler", O)])
exec(open(os.path.join(HERE, "tools", "meta_extra.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "meta_extra.py")) else None

NA = globals().get("NA", {})
NOTE = globals().get("NOTE", {})
TECH = "contract-based deductive verification: weakest-precondition style VCs generated from the jaxpr of the real functions, discharged by exact normal form, z3 and cvc5"
BASE = ("Every obligation of the function contracts is discharged for all real inputs, re-extracted from /repo on each run. Assumes real arithmetic for floats, "
        "JAX tracing/autodiff, the listed dependency contracts; array shapes are instantiated at the sizes listed in DESIGN.md.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for pid in sorted(P):
            t, s, over, qt, why, files, mech = P[pid]
            assert len(t) <= 80, (pid, len(t))
            f.write(json.dumps({"id": pid, "title": t, "statement": s, "quantifier": {"over": over, "text": qt},
                "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}) + "\n")
    py = "/opt/venv/bin/python check.py --property %s --tier %s"
    man = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/selftest.py", "checks": [
        {"property": p, "quick_cmd": py % (p, "quick"), "thorough_cmd": py % (p, "thorough"), "evidence_file": "evidence/%s.json" % p,
         "technique": TECH, "level": "proof", "level_note": (BASE + " " + NOTE.get(p, "")).strip()} for p in sorted(P) if p not in NA],
        "not_applicable": [{"property": p, "reason": NA[p]} for p in sorted(NA)],
        "notes": "The engine is in vk/, the contracts in props/. No hooks are needed in /repo: contracts are attached to the imported functions of /repo's working tree."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    how = {}
    exec(open(os.path.join(HERE, "tools", "how.py")).read(), how)
    tm = open(os.path.join(HERE, "tools", "DESIGN.tmpl")).read()
    props = []
    for pid in sorted(P):
        n = "  *Not applicable*: " + NA[pid] if pid in NA else how["HOW"][pid]
        props.append("* **%s %s** (%s). %s" % (pid, P[pid][0], ", ".join(P[pid][5]), n))
    seeds = []
    sd = os.path.join(HERE, "seeded")
    caught = how.get("CAUGHT", {})
    for b in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        mj = os.path.join(sd, b, "meta.json")
        if os.path.exists(mj):
            m = json.load(open(mj))
            seeds.append("* `%s` (%s): %s — %s" % (b, m["property"], m["what_it_breaks"], caught.get(b, "caught by " + m["property"])))
    open(os.path.join(HERE, "DESIGN.md"), "w").write(tm.replace("@@PROPS@@", "\n".join(props)).replace("@@SEEDS@@", "\n".join(seeds)))


main()
