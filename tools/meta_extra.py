P["C18"] = ("Trust region subproblem solver returns a safe, model-decreasing step",
 "For every gradient, every symmetric Hessian operator (also indefinite ones), every positive radius and tolerance, the step of the trust region subproblem solver is well defined, lies in the trust region, never increases the quadratic model, and strictly decreases it unless the gradient already meets the tolerance. The solver stops early only because the tolerance is met, the boundary is reached or the curvature is not positive, and then reports convergence; an interior converged step solves the model to the tolerance, and the search directions are conjugate.",
 ["inputs", "programs", "configurations"], "every dimension, gradient, symmetric operator, radius, tolerance and iteration limit, any number of iterations",
 "Tests run a few iterations on one or two quadratics; the guarantees are loop invariants over all iterations and operators.", [TR],
 [("steihaug loop", TR + ":steihaug")])
P["C19"] = ("Trust region update accepts only sufficient decrease and keeps state true",
 "A trust region update moves the parameters by the subproblem step exactly when the ratio of actual to predicted decrease reaches the acceptance threshold, and otherwise leaves them unchanged; an accepted step never increases the objective. Value, gradient, gradient norm and auxiliary output of the new state belong to the returned parameters, the subproblem gets the gradient and the (optionally damped or finite difference) Hessian product at the current parameters, and at the minimal radius nothing changes. Restarting from a previous result continues from its state.",
 ["programs", "inputs", "histories"], "every objective (with or without auxiliary output, own gradient or not, extra arguments), every state and every admissible parameter setting",
 "Tests minimise a few functions; a single wrong branch in the bookkeeping still converges there.", [TR, UT],
 [("TR.update, init_state, optimality_fun", TR + ":TR"), ("make_funs_with_aux", UT)])
P["C20"] = ("The trust region radius follows the rule and stays within its limits",
 "After every update the radius shrinks by the decrease factor exactly when the ratio is below the decrease threshold, grows by the increase factor (capped by the maximum) exactly when the ratio exceeds the increase threshold and the step reached the boundary, and is otherwise unchanged; it never falls below the minimum nor grows beyond the maximum. Hence it stays within the limits along every history of updates.",
 ["inputs", "histories"], "every radius, ratio, step size and parameter setting; by induction every sequence of updates",
 "Tests check single values.", [TR],
 [("update_tr_radius", TR)])
P["C21"] = ("Spline basis is the B-spline basis; the activation adds it to the base",
 "On every grid (also with repeated nodes) the spline basis functions are nonnegative, vanish outside their support and the grid, sum to one where the basis is complete and reproduce linear functions, and their derivatives are finite and are those of B-splines in forward and reverse mode. Grids start and end where requested, increase and are symmetric with power spacing, and the spline activation is the base activation plus the spline with the given coefficients, per input with its own grid, equal to the base activation after initialization.",
 ["inputs", "configurations"], "every input, every increasing grid and multiplicity pattern, degrees 0-3, every coefficient",
 "Tests plot a basis on one grid.", [SP],
 [("basis, _base_fun", SP), ("make_grid", SP), ("SplineActivation", SP)])
P["C22"] = ("The multilayer perceptron computes the layered function of its parameters",
 "The network applies, layer by layer, kernel and bias of that layer and the activation between layers but not after the last, for every parameter value and every layer list, and returns a scalar per input for a single output neuron. The constructor returns parameters of the requested layer sizes that fit the returned model.",
 ["inputs", "configurations"], "every parameter value, input, activation, number and size of layers",
 "Tests only look at shapes.", [M],
 [("MLP, mlp", M)])
P["C25"] = ("Rejection sampling draws independent samples from the given density",
 "Each returned sample is a proposal whose own uniform number is at most density divided by the bound, each round redraws proposal and uniform number from fresh keys that are used for nothing else, an accepted sample is never replaced, and different samples use different keys. So the samples are independent and distributed according to the density.",
 ["programs", "histories", "inputs"], "every density, every proposal function (arrays or pytrees), every seed and any number of rejection rounds",
 "Tests cannot check a distribution law; a reused key or a swapped comparison passes histogram-free tests.", [SA],
 [("rejection_sampling loop", SA)])
P["C26"] = ("Batches use every row at most once, keep rows together, and never reuse keys",
 "Batching without replacement yields the requested number of full batches of rows of the data in which no row occurs twice, and batching with replacement yields rows of the data (distinct within a batch when requested); all leaves of the data use the same row. The iterator yields every batch of every epoch in order, shuffles every epoch with a fresh key, and hands out pairwise different keys; inconsistent sizes are rejected.",
 ["inputs", "histories", "configurations"], "every seed, data, batch size, number of epochs and batches",
 "Tests look at one seed; key reuse or a dropped epoch is invisible there.", [OPT, UT],
 [("batches_without_replacement, batches_with_replacement", OPT), ("make_iterator", OPT), ("axis_size, tree_dim", OPT + ", " + UT)])
P["C23"] = ("Surface integrals equal the weighted sum of f times the area element",
 "Integrating over a parametrized surface equals the sum over the quadrature nodes of weight times integrand at the surface point times the length of the cross product of the tangents, for every surface, integrand, mesh and quadrature rule, including structured and vector-valued integrands and extra arguments. The element-wise integrals use exactly the elements of the mesh with the image of the element centre handed to the integrand, and add up to the integral over the whole surface.",
 ["programs", "inputs", "configurations"], "every smooth parametrization and integrand, every mesh, every quadrature rule",
 "Tests do not cover surface integrals; the law must hold for every surface.", [SI],
 [("integrate_surface, integrate_surface_elements", SI), ("center, midpoints", SI)])
P["C24"] = ("Single layer potential is the quadrature of the Taylor-expanded charge",
 "The single layer potential built from source and charge tensors equals one over four pi times the quadrature over the surface of the Taylor-expanded charge (about the element centres) divided by the distance to the target point, exactly so for polynomial charges up to the chosen order; with the derivative tensor it gives the gradient and the curl of that potential. The surface charges of the scalar and vector potential are m.n minus the normal derivative, respectively m x n minus the normal derivative, with the outward normal of the distance function, and the normalized shortcut agrees with them on the boundary.",
 ["programs", "inputs", "configurations"], "every surface, mesh, quadrature rule, target point off the nodes, scalar or vector charge, every order",
 "No tests exist for these functions; the law must hold for every geometry and charge.", [SI],
 [("source_tensor, charge_tensor", SI), ("single_layer_potential, curl_single_layer_potential", SI), ("scalar_potential_charge, vector_potential_charge", SI)])
