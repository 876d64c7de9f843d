"""Writes properties.jsonl (kept as code so that statements stay reviewable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))


PX = "pyproximal/proximal/"
PJ = "pyproximal/projection/"
OP = "pyproximal/optimization/"
UT = "pyproximal/utils/"

prop("C01", "Convex proximal operators return the exact minimiser",
     "For every convex functional of the library (L1 with scalar, per-row or shifted variants, L2 with or without operator, data and linear term, Euclidean norm, L21, L21+L1, Huber, circular Huber, quadratic, convolutional L2), evaluating the functional gives its documented value and applying its proximal operator with step tau>0 to x returns the unique minimiser of tau*f(z)+1/2||z-x||^2. For operator-based quadratics this holds for every solver option offered, up to the accuracy of the inner linear solver. Arrays of integers are treated as the real vectors they stand for: the answer is not rounded to integers.",
     ["inputs", "configurations"],
     "all real (and, where supported, complex) x, all z competing with the returned point, all positive tau and parameters, all small operators/data, at the array sizes listed per obligation",
     "The tests check Moreau's identity or one closed-form value on a few random vectors; an operator wrong on a sliver of inputs (ties, thresholds, zero groups) or inconsistent with its own value passes them.",
     [PX + f for f in ("L1.py", "L2.py", "Euclidean.py", "L21.py", "L21_plus_L1.py", "Huber.py", "Quadratic.py")],
     [("soft thresholding", PX + "L1.py:_softthreshold"), ("L2 normal equations / factorisation / cgls", PX + "L2.py:L2.prox"),
      ("group shrinkage", PX + "L21.py:L21.prox"), ("Huber branch", PX + "Huber.py:Huber.prox")])

prop("C02", "Nonconvex penalties: prox returns a global minimiser of the proximal problem",
     "For every nonconvex penalty of the library (L0, logarithmic penalties, SCAD, Geman, exponential-type, relaxed Mumford-Shah, quadratic envelopes of the cardinality) the value is the documented one, and the point returned by the proximal operator attains a value of tau*f(z)+1/2||z-x||^2 not larger than that of any other point, within the parameter range in which the penalty's formula is documented, also when the point is given as an array of integers.",
     ["inputs", "configurations"],
     "all x, all competing z, all positive tau and admissible penalty parameters, at vectors of 1-3 entries",
     "Tests compare against a grid search for a handful of x with fixed parameters; a wrong branch boundary or a wrong local minimiser outside those values is invisible to them.",
     [PX + f for f in ("L0.py", "Log.py", "SCAD.py", "Geman.py", "ETP.py", "RelaxedMS.py", "QuadraticEnvelope.py")],
     [("hard threshold", PX + "L0.py:_hardthreshold"), ("stationary point selection", PX + "Log.py:Log.prox"),
      ("cubic root", PX + "Geman.py:Geman._find_local_minima"), ("Lambert W root", PX + "ETP.py:ETP.prox"),
      ("envelope threshold search", PX + "QuadraticEnvelope.py:QuadraticEnvelopeCardIndicator.prox")])

prop("C03", "Projections return the nearest point of their set",
     "Every projection of the library (box, hyperplane-with-box, simplex in all its engines and axis layouts, L0, L1,0 and L1 balls, Euclidean ball, half-space, affine set, Hankel matrices, pairwise-distance intersection) returns a point of the set for every input, no point of the set is closer to the input, and a point already in the set is returned unchanged. Iterative projections satisfy this up to their stated tolerance. The projection of an array of integers is that of the same real vector, not rounded.",
     ["inputs", "configurations"],
     "all inputs, all feasible competitors and all set parameters (including degenerate ones such as zero radius), at the listed sizes, axes and engines",
     "Tests project a few random vectors and check membership only; nearest-ness, degenerate radii, every axis/engine combination and boundary inputs are not quantified over.",
     [PJ + f for f in ("Box.py", "Simplex.py", "L0.py", "L1.py", "Euclidean.py", "HalfSpace.py", "AffineSet.py", "Hankel.py", "Intersection.py")] +
     [PX + "Simplex.py", PX + "_Simplex_numba.py", PX + "_Simplex_cuda.py"],
     [("bisection on the hyperplane multiplier", PJ + "Box.py:HyperPlaneBoxProj.__call__"), ("largest-entries selection", PJ + "L0.py:L0BallProj.__call__"),
      ("per-row simplex kernels", PX + "_Simplex_numba.py:simplex_jit"), ("radial scaling", PJ + "Euclidean.py:EuclideanBallProj.__call__")])

prop("C04", "Indicator functions agree with their sets and ignore the step size",
     "For every set-indicator functional, evaluation answers true exactly for points of the set (within the stated tolerance) and false otherwise, the proximal operator equals the projection on the set whatever the positive step size, and its output is always reported as a member.",
     ["inputs", "configurations"],
     "all inputs, all set parameters, all pairs of positive step sizes, at the listed sizes and layouts",
     "Tests evaluate membership on one point inside and one outside; the equivalence needs every point, and independence of tau needs every tau.",
     [PX + f for f in ("Box.py", "Simplex.py", "Euclidean.py", "HalfSpace.py", "AffineSet.py", "Hankel.py", "Intersection.py", "L0.py", "L1.py", "Nuclear.py", "GenericIntersection.py")],
     [("membership tests", PX + "Simplex.py:_Simplex.__call__"), ("membership tests", PX + "Box.py:Box.__call__")])

prop("C05", "Dual proximal operators satisfy the Moreau decomposition",
     "For every proximal operator and every x and tau>0, prox of tau*f at x plus tau times the dual prox with step 1/tau at x/tau equals x; this holds for operators with a hand-written dual prox, for those inheriting the default one, and for operators that only define the dual one. For convex functionals the dual prox is the proximal operator of the convex conjugate, and the adjoint view of an operator swaps the two.",
     ["inputs", "configurations"],
     "all x, all positive tau, all parameters, at the listed sizes; abstract operators for the generic identities",
     "Tests call the identity with one tau on random vectors; a dual that is right only for one tau or one regime satisfies them.",
     ["pyproximal/ProxOperator.py"] + [PX + f for f in ("L1.py", "L21.py", "Euclidean.py")],
     [("default dual prox", "pyproximal/ProxOperator.py:ProxOperator._proxdual_moreau"), ("default prox from dual", "pyproximal/ProxOperator.py:ProxOperator._prox_moreau"),
      ("box dual", PX + "L1.py:L1.proxdual"), ("group dual", PX + "L21.py:L21.proxdual")])

prop("C06", "Operator calculus: composed functionals have composed value, prox and gradient",
     "Adding a vector, scaling by a positive number, composing with an affine scaling, stacking over blocks or index sets, and composing with (semi-)orthogonal operators yield functionals whose value is the mathematical composition and whose proximal operator (and gradient where offered) is that of the composed functional, for whatever functional is composed. Chaining two functionals applies the first proximal operator and then the second.",
     ["inputs", "programs"],
     "arbitrary (abstract) inner functionals, all x, tau, scalings, shifts, block layouts and small orthogonal matrices; nested compositions of depth two",
     "Tests compose one concrete functional with one constant; the calculus rules are claims about every inner functional and every constant.",
     ["pyproximal/ProxOperator.py", PX + "VStack.py", PX + "Orthogonal.py"],
     [("sum rule", "pyproximal/ProxOperator.py:_SumOperator"), ("scaling rule", "pyproximal/ProxOperator.py:_PostcompositionOperator"),
      ("precomposition rule", "pyproximal/ProxOperator.py:_PrecompositionOperator"), ("block rule", PX + "VStack.py:VStack.prox"),
      ("semi-orthogonal rule", PX + "Orthogonal.py:Orthogonal.prox")])

prop("C07", "Gradients are the derivatives of the values",
     "For every functional that offers a gradient (L2 with its optional terms, quadratic, convolutional L2, Euclidean norm away from zero, composed functionals, low-rank bilinear misfits) the gradient returned at x is the derivative of the value at x in every direction. For a functional without its own gradient the default gradient is that of its Moreau envelope.",
     ["inputs", "configurations"],
     "all points and directions, all operators, data, weights and parameters at the listed sizes",
     "Tests use finite differences at one random point in one random direction with a tolerance.",
     ["pyproximal/ProxOperator.py", PX + "L2.py", PX + "Quadratic.py", PX + "Euclidean.py", PX + "Nonlinear.py", UT + "bilinear.py"],
     [("L2 gradient", PX + "L2.py:L2.grad"), ("Moreau-envelope gradient", "pyproximal/ProxOperator.py:ProxOperator.grad"),
      ("bilinear gradients", UT + "bilinear.py:LowRankFactorizedMatrix.gradx")])

prop("C08", "Calls never modify the caller's arrays and repeat identically",
     "No evaluation, proximal operator, dual proximal operator, gradient, projection or solver run changes any array the caller supplied (inputs, data, weights, centres, starting points, list arguments), even when an operator returns its own input. Repeating a call of a stateless operator with the same arguments gives the same result, and a later call does not change a result returned earlier.",
     ["inputs", "histories"],
     "all inputs and parameters; two-call histories; identity-like operators whose application returns the very array it was given",
     "Tests rarely compare inputs before and after, and never with aliasing operators; in-place arithmetic bugs are silent in them.",
     ["pyproximal/ProxOperator.py", PX + "L2.py", PX + "Orthogonal.py", PJ + "Intersection.py", PX + "_Dykstra.py", OP + "primaldual.py", OP + "sr3.py", OP + "primal.py"],
     [("in-place accumulation", OP + "primaldual.py:PrimalDual"), ("in-place shift", PX + "Orthogonal.py:Orthogonal.__call__"),
      ("in-place sweeps", PJ + "Intersection.py:IntersectionProj.__call__")])

prop("C09", "Evaluation counters, schedules, caches and warm starts follow the call history",
     "Operators with call-dependent parameters use, at the k-th proximal evaluation, exactly the k-th element of the user's schedule (and the value uses the current one), and internal caches (matrix factorisations, resolved radii, warm starts) never change the result with respect to a fresh operator (beyond the starting guess of an inner solver whose number of iterations is limited): for any sequence of step sizes and inputs each result is the proximal point for that call's own arguments.",
     ["histories", "inputs"],
     "all call sequences up to length 3 over prox and value with arbitrary step sizes (equal, different, returning to an earlier one) and inputs",
     "Tests call an operator once or twice with the same step; stale caches and off-by-one counters need particular histories.",
     [PX + f for f in ("L0.py", "L1.py", "L2.py", "RelaxedMS.py", "Quadratic.py", "TV.py", "Nonlinear.py")],
     [("call counter", PX + "L1.py:L1._increment_count"), ("factorisation cache", PX + "L2.py:L2.prox"), ("radius schedule", PX + "L0.py:L0Ball.prox")])

prop("C10", "Invalid step sizes and parameters are rejected",
     "Every proximal and dual proximal operator raises an error whenever the step (or any element of an array of steps) is zero or negative, and never for positive steps. Constructors and solvers reject the parameter values their documentation excludes and accept all others.",
     ["inputs", "configurations"],
     "every operator class; all step sizes in the sign regions; all parameter values around the documented bounds; weight vectors of any length",
     "Tests check one or two operators with tau=-1; a lost check in one class or a wrong boundary is invisible.",
     ["pyproximal/ProxOperator.py", PX + "SCAD.py", PX + "Log.py", PX + "ETP.py", PX + "Geman.py", OP + "primal.py"],
     [("positivity check", "pyproximal/ProxOperator.py:_check_tau"), ("weights check", OP + "primal.py:GeneralizedProximalGradient")])

prop("C11", "Spectral operators act on singular values only",
     "Nuclear norm, nuclear ball, singular-value penalties and the rank envelope evaluate the underlying vector functional on the singular values of the matrix, and their proximal operators keep the singular vectors and replace the singular values by the vector proximal point (in the documented order for weighted norms), for tall, wide and square matrices.",
     ["inputs", "configurations"],
     "all matrices up to 2x3/3x2 given by an arbitrary singular value decomposition, all step sizes and weights",
     "Tests compare with cvx-like formulas on one random square-ish matrix and miss shape and weight-order slips.",
     [PX + "Nuclear.py", PX + "SingularValuePenalty.py", PJ + "Nuclear.py", PX + "QuadraticEnvelope.py"],
     [("singular value shrinkage", PX + "Nuclear.py:Nuclear.prox"), ("spectral lift", PX + "SingularValuePenalty.py:SingularValuePenalty.prox")])

prop("C12", "Proximal point and gradient solvers perform the documented iteration",
     "Proximal point, proximal gradient (plain, relaxed, both accelerations, fixed or per-iteration regularisation weights), its accelerated wrapper, the generalised (multi-term) and the Anderson-accelerated variants compute exactly the iterates of the documented algorithm from the given start for arbitrary functionals.",
     ["inputs", "configurations"],
     "arbitrary (abstract) proximal operators and gradients, all starts, steps, weights and relaxation parameters, up to 3 iterations, every option combination",
     "Tests compare final answers of two solvers on one convex problem; an algorithm with a wrong momentum or weight still converges there.",
     [OP + "primal.py"],
     [("proximal gradient step", OP + "primal.py:ProximalGradient"), ("multi-term averaging", OP + "primal.py:GeneralizedProximalGradient"),
      ("Anderson mixing", OP + "primal.py:AndersonProximalGradient")])

prop("C13", "Splitting solvers perform the documented iteration",
     "HQS, ADMM, ADMM with a quadratic term, linearised ADMM, Douglas-Rachford, PPXA, consensus ADMM, TwIST and plug-and-play compute exactly the iterates of the documented algorithm for arbitrary functionals, for either update order, every way of supplying initial values and every relaxation or weight setting.",
     ["inputs", "configurations"],
     "arbitrary (abstract) proximal operators, all starts, steps, weights, small operators, up to 3 iterations, every option combination",
     "Tests only compare converged answers of one or two configurations on one problem.",
     [OP + "primal.py", OP + "pnp.py"],
     [("ADMM", OP + "primal.py:ADMM"), ("linearised ADMM", OP + "primal.py:LinearizedADMM"), ("Douglas-Rachford", OP + "primal.py:DouglasRachfordSplitting"),
      ("PPXA", OP + "primal.py:PPXA"), ("consensus", OP + "primal.py:ConsensusADMM"), ("TwIST", OP + "primal.py:TwIST")])

prop("C14", "Primal-dual solvers perform the documented iteration and step adaptation",
     "The primal-dual solver computes exactly the documented iterates for arbitrary functionals and operators, for either update order, fixed or per-iteration steps, any over-relaxation, dual start and added linear term. The adaptive variant rebalances its steps from the true primal and dual residuals, keeps the product of the two steps constant, and reports the steps it used.",
     ["inputs", "configurations"],
     "arbitrary (abstract) proximal operators, all small operators including non-square ones and identity, all steps, starts and linear terms, up to 3 iterations",
     "Tests compare the converged solution on one problem with default options.",
     [OP + "primaldual.py"],
     [("Chambolle-Pock iteration", OP + "primaldual.py:PrimalDual"), ("residual balancing", OP + "primaldual.py:AdaptivePrimalDual")])

prop("C15", "Backtracking accepts only steps satisfying the descent condition",
     "Whenever backtracking stops before its trial limit, the returned point is the proximal-gradient point for the returned step size and satisfies the quadratic upper bound (descent) condition; the step is the largest one of the geometric sequence that does, steps never increase, and at most the given number of trials is made.",
     ["inputs", "histories"],
     "arbitrary (abstract) smooth parts, gradients and proximal operators, all starting points and steps, up to 3 trials, both the vector and the bilinear line search",
     "Tests run backtracking on one quadratic where any condition ends up accepting.",
     [OP + "primal.py", OP + "palm.py"],
     [("line search", OP + "primal.py:_backtracking"), ("bilinear line search", OP + "palm.py:_backtracking")])

prop("C16", "Alternating linearised solvers perform the documented block updates",
     "The alternating (and inertial alternating) proximal solvers update x with y fixed and then y with the new x, each block using its own gradient, step rule and proximal operator, with the documented inertia and either Lipschitz-based or line-searched steps. The low-rank bilinear misfit used with them has matching value, partial gradients and valid block Lipschitz constants.",
     ["inputs", "configurations"],
     "arbitrary (abstract) bilinear misfits and proximal operators, all starts, scaling and inertia constants, up to 2 iterations, all combinations of fixed/line-searched blocks and missing proximal operators",
     "Tests only compare the final misfit of a toy factorisation with default options.",
     [OP + "palm.py", UT + "bilinear.py"],
     [("PALM", OP + "palm.py:PALM"), ("iPALM", OP + "palm.py:iPALM"), ("Lipschitz constants", UT + "bilinear.py:LowRankFactorizedMatrix.lx")])

prop("C17", "Bregman, SR3 and segmentation drivers solve the subproblems they document",
     "Bregman iterations solve each inner problem with the accumulated linear term of the documented algorithm (warm or cold started) and accumulate it with the gradient of the data term; SR3 alternates the exact relaxed least-squares update and the shrinkage with the documented extrapolation; segmentation minimises the documented cost with step sizes satisfying the convergence bound and returns the arg-max labels.",
     ["inputs", "configurations"],
     "arbitrary (abstract) functionals and inner solvers, all data and parameters, up to 3 outer iterations, small operators",
     "Tests run these drivers once and compare loosely with another solver or not at all.",
     [OP + "bregman.py", OP + "sr3.py", OP + "segmentation.py"],
     [("Bregman update", OP + "bregman.py:Bregman"), ("relaxed split", OP + "sr3.py:SR3"), ("segmentation set-up", OP + "segmentation.py:Segment")])

prop("C18", "Sums of functionals and intersections of sets follow Dykstra's scheme",
     "The proximal operator of a sum of functionals and the projection on an intersection follow Dykstra's algorithm (sequential for two terms, parallel with normalised weights otherwise) for arbitrary terms, stop only when the iterates have settled, return the exact answer for a single term, and evaluate a sum as the sum of values restricted to the feasible sets.",
     ["inputs", "configurations", "histories"],
     "arbitrary (abstract) proximal operators and projections, 1-3 terms, all weights, steps and starts, up to 3 iterations, repeated calls",
     "Tests compare converged answers for specific pairs; correction terms, weights handling and repeated use are not covered.",
     [PX + "_Dykstra.py", PX + "Sum.py", PJ + "GenericIntersection.py", PX + "GenericIntersection.py"],
     [("two-set Dykstra", PX + "_Dykstra.py:dykstra_two"), ("parallel Dykstra prox", PX + "_Dykstra.py:parallel_dykstra_prox"),
      ("cyclic Dykstra projection", PX + "_Dykstra.py:parallel_dykstra_projection")])

prop("C19", "Callbacks, iteration limits, tolerances and logging behave as documented",
     "Every solver performs exactly the requested number of iterations unless its stopping tolerance is met, calls the callback once per iteration with that iteration's iterate(s) and returns the last one; a tolerance stops it exactly at the first iteration meeting the documented criterion; turning logging on or adding a callback changes no result.",
     ["configurations", "histories", "inputs"],
     "all solvers, arbitrary (abstract) functionals, all iteration counts up to 3, all tolerances and starts",
     "Tests do not compare runs with and without logging/callbacks nor the exact stopping iteration.",
     [OP + f for f in ("primal.py", "primaldual.py", "palm.py", "bregman.py", "segmentation.py")],
     [("stopping rules", OP + "primal.py:ProximalPoint"), ("callbacks", OP + "primal.py:ADMM")])

prop("C20", "Fixed points of the solvers are solutions of the stated problem",
     "For every solver: a point that satisfies the optimality conditions of the minimised problem is left unchanged by the iterations of the solver started there (with the matching auxiliary variables); for a convex problem, a state that an iteration leaves unchanged satisfies the optimality conditions; and for a convex problem with admissible steps, a plain (not accelerated) iteration of the proximal point, proximal gradient, Douglas-Rachford, ADMM (in all its variants) and primal-dual methods never moves the state further from a solution, in the norm the method is contractive in. All of this for any admissible steps, weights and relaxation.",
     ["inputs", "configurations"],
     "quadratic data terms and abstract or L1 regularisers with arbitrary data, steps, relaxation and weights; small sizes",
     "Tests check approximate convergence for one setting; the fixed-point equivalence is about every problem instance and parameter.",
     [OP + "primal.py", OP + "primaldual.py"],
     [("solver iterations", OP + "primal.py"), ("primal-dual iteration", OP + "primaldual.py:PrimalDual")])

prop("C21", "Total-variation functional and its prox are consistent with TV denoising",
     "The total-variation functional evaluates the sum of gradient magnitudes times its weight, and its proximal operator performs the documented dual accelerated gradient iterations on the TV-denoising problem with exactly the weight sigma times step (also in its stopping test), leaving constant signals unchanged and preserving the mean; one-dimensional signals are accepted with dims=None.",
     ["inputs", "configurations"],
     "values: all signals of 2-4 samples and arrays of up to 4 dimensions with 2-3 samples each; prox: all signals of 2-4 samples and 2x2 ... 2x2x2x2 arrays with fixed gradient directions and symbolic magnitudes, up to 3 inner iterations",
     "Tests compare the operator to a fixed reference image within a loose tolerance.",
     [PX + "TV.py"],
     [("TV value", PX + "TV.py:TV.__call__"), ("dual FGP iterations", PX + "TV.py:TV.prox")])

prop("C22", "Diagnostic utilities accept exactly the correct operators",
     "The Moreau test answers true exactly when the decomposition holds within its tolerance for the operator given, and the gradient tests pass for every operator whose gradient is the derivative of its value and fail (or raise, as requested) when the tested component is off by more than the tolerance, without altering the operator's result.",
     ["inputs", "programs"],
     "arbitrary (abstract) operators, all inputs, all random component choices",
     "The utilities are what the tests are built on; nothing tests that they can fail.",
     [UT + "moreau.py", UT + "gradtest.py"],
     [("Moreau test", UT + "moreau.py:moreau"), ("gradient test", UT + "gradtest.py:gradtest_proximal")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
