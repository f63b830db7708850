HOW = {
"C01": "Each operator's result components are proved equal to the textbook polynomial/rational expression in the operand components (nf); algebra laws as lemmas over two/three symbolic quaternions. Rounding contracts (`props/rounding.py`): the division's partial operations are shown to stay in their domain in machine arithmetic.",
"C02": "Rotation, reflection and constructors are proved against the Rodrigues/Euler matrices with symbolic angles (sin/cos as algebraic generators with s^2+c^2=1); isometry, orientation (triple product), composition, scale invariance as separate postconditions.",
"C03": "exp/log/pow extracted with their `where` guards; case split on vanishing vector part; log/exp inversion via acos/cos cancellation axioms; integer powers compared with repeated products. Rounding contracts (`props/rounding.py`): every root, logarithm, acos of log/exp/pow/arg stays in its domain under any monotone rounding (interval analysis of the jaxpr, all machine inputs).",
"C04": "Sign postconditions of every operation for every system (symbolic alpha, orders m, p instantiated 1..8) by case split + z3 NRA; definedness obligations for every division/root; set-level combinators over uninterpreted implicit functions. Rounding contracts (`props/rounding.py`): no operation of any shipped system leaves the domain of its root for any rounding, including equal and neighbouring operands.",
"C05": "Sign trichotomy of the primitive implicit functions against the set predicate for symbolic point and extents (dims 1-4). Rounding contracts (`props/rounding.py`): values and derivatives of every primitive are defined under rounding; the centre and degenerate points are part of the contract.",
"C06": "Transforms over an uninterpreted implicit function `phi`: result is `phi` applied to the inversely transformed point (congruence + nf).",
"C07": "jacfwd through the real code over uninterpreted phi; at phi=0, |grad phi|>0 the gradient norm is one; primitives and transforms likewise. Modular: the contract (at a zero of the active operand the operation has that operand's derivative) is proved for the shipped systems; set operations and cuboids (every face, 1-4 dims) are proved over any system with that contract.",
"C08": "Wrappers over uninterpreted network, distance, boundary and initial functions; every calling form and argument routing.",
"C09": "Gradient of the wrapped uninterpreted network contracted with the outward normal, with hypotheses phi=0, |grad phi|=1.",
"C10": "Postcondition membership of the image point for symbolic parameters in [0,1]^k and symbolic domain extents; boundary maps with case split on the (symbolic) face index. Dimensions to 7, polylines to 7 points, batches of 17 rows; the largest boundary batches as bounded numeric stand-ins (labelled bounded, not counted as proved). Rounding contracts (`props/rounding.py`): the roots of the boundary and domain maps; membership at parameters within a few ulps of 0 and 1 as a sampled stand-in (labelled bounded).",
"C11": "Jacobian (by JAX autodiff of the real map) of the map; its (Gram) determinant is proved equal to measure/1 everywhere, i.e. independent of the parameter; injectivity as a relational postcondition over two parameters.",
"C12": "Normal direction/length per face, edge and corner by case split; rejection of off-boundary points; membership iff.",
"C13": "Nodes and weights are symbolic functions of a symbolic mesh; exactness on monomials up to the degree, positivity, nodes within panels. For Gauss 2..7 the abscissae/weights are taken abstractly as any roots meeting the moment equations (`abstract`) and the actual tables are checked to meet these to 1e-14 (`panels`, numeric).",
"C14": "Arrays and pytree integrands, 1-4 dimensions. Result equals the tensor-product sum over uninterpreted integrand values at the rule's nodes, for symbolic meshes; linearity and polynomial exactness as corollaries.",
"C15": "Operators applied to an uninterpreted smooth function; outcome equals the combination of its partial-derivative symbols; argument selection by name, position, negative position and keyword; structured outputs leaf by leaf; unknown selections rejected.",
"C16": "Same with second derivative symbols, symmetric Hessian; every product mode, flat arrays to six unknowns and structured unknowns (dict, tuple, list, nested, custom nodes, scalars).",
"C17": "One-step methods with uninterpreted right-hand side; odeint with an uninterpreted one-step method on symbolic time grids (1-6 symbolic nodes, plus 33 and 121 nodes, both unroll settings): recursion, initial value; quartic exactness; sensitivities.",
"C18": "The loop body is extracted with gradient, iterate, residual, direction as abstract vectors of a real inner product space and the Hessian as an abstract symmetric operator (so: every dimension, `vk/avec.py`, `vk/loops.py`); loop invariants (residual = gradient + H z, conjugacy, norms, model decrease, definedness) are proved initial and inductive, and the postconditions follow from invariant and exit condition. Both loop forms (while and unrolled scan) and the default iteration limit. `SteihaugTree` proves relationally that structured unknowns give the run of the flattened ones.",
"C19": "TR.update/init_state/optimality_fun over an uninterpreted objective, symbolic state and hyperparameters; steihaug is replaced by its contract (an arbitrary function of the values handed to it, the operator observed at a symbolic probe vector), every branch of the bookkeeping is proved. Objective forms: function, value-and-grad, aux, damping, finite difference Hessian, pytrees, keyword arguments, restart.",
"C20": "Radius rule and limits for symbolic arguments, `isclose` by its documented definition; two-step composition as a lemma.",
"C21": "basis against the B-spline axioms per cell for symbolic nodes (also with multiplicities) and symbolic input; derivatives in both modes against the derivative recursion; make_grid in closed form; activation over uninterpreted base activation.",
"C22": "Layers with symbolic kernels and biases and an uninterpreted activation, 1-4 layers, batched and single inputs.",
"C23": "integrate_surface and integrate_surface_elements over uninterpreted parametrization, integrand and quadrature rule (weights/nodes as functions of the interval) on symbolic meshes (1-3 elements per direction); additivity with the real gauss rules.",
"C24": "Every entry of source_tensor (orders 0-3, with x-derivatives) and charge_tensor (orders 0-3, scalar/vector) against the closed form; potential/curl over symbolic tensors; end-to-end exactness for symbolic polynomial charges; charges over uninterpreted distance function and magnetization.",
"C25": "jax.random as abstract keys (`vk/rng.py`); the rejection loop is extracted, the state at every loop head is proved to be the same function of the lane's current key, redrawn exactly while the own uniform number exceeds density/bound, with proposal, uniform number and next round on different keys. Termination is almost sure and not proved.",
"C26": "jax.random as abstract keys with contracts for split, permutation and choice; index sets as symbolic integers; data sizes 3-5, rows of any rank and dtype, batch sizes 1-4, 0-3 epochs; larger data and long epochs (up to 1100 batches) as bounded numeric stand-in.",
}
