"""Writes properties.jsonl (kept as a script so that long statements stay readable)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=["optimistix/" + f for f in files], mechanism=[dict(name=a, where="optimistix/" + b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where="optimistix/" + c) for a, b, c in state], observe_at=observe, hook_needed=None)))


p("C01", "A reported outcome is truthful for every solver and every run",
  "A solve is reported successful only if the solver itself declared convergence with its success code for the iterate that is returned, and that iterate has no NaN or infinite entry. "
  "A failure code issued by the solver is reported unchanged, a non-finite iterate (at any step, including the initial guess) is reported as non-finite, and running out of steps without either is reported as such. "
  "This holds for all four entry points (fixed point, root finding, least squares, minimisation).",
  ["programs", "histories", "configurations"], "all user-written solvers (arbitrary init/step/terminate/postprocess behaviour, including non-finite iterates), all run lengths, all step budgets, all four entry points",
  "Tests run the shipped solvers on a few dozen problems that converge; they never vary the solver's own stop/failure reports or let an iterate turn non-finite exactly when the solver stops.",
  ["_iterate.py", "_solution.py", "_fixed_point.py", "_root_find.py", "_least_squares.py", "_minimise.py"],
  [("termination and finiteness check after every step", "_iterate.py:_iterate"), ("loop condition and final result selection", "_iterate.py:_iterate")],
  ["Solution.result", "Solution.value"])

p("C02", "Step budget, step count and the returned iterate agree with the run",
  "A solve takes exactly the steps up to and including the first one after which the solver stops or fails (none if it already stops on the initial guess) and never more than the step budget, with no limit if the budget is None. "
  "The reported step count is the number of steps taken, the reported budget is the one given, and the returned value, auxiliary output and state are those of the last step passed once through the solver's post-processing. "
  "Every step receives the iterate and state produced by the previous one, together with the function arguments, options and tags the caller supplied.",
  ["programs", "histories", "configurations"], "all user-written solvers, all run lengths, all budgets (including 0, 1 and None), both adjoints, all four entry points",
  "Tests look at final values of converging solves; step counts, the zero-step case, post-processing hand-over and the frame of what each step receives are unobserved.",
  ["_iterate.py", "_adjoint.py"],
  [("while loop carrying iterate, state, aux and step count", "_iterate.py:_iterate"), ("statistics and solution assembly", "_iterate.py:iterative_solve")],
  ["Solution.stats", "Solution.value", "Solution.aux", "Solution.state"])

p("C03", "Throwing and non-throwing solves differ only in raising on failure",
  "With throwing enabled a solve raises exactly when its outcome is not successful, and the error carries the message of that outcome; with throwing disabled it never raises on account of the outcome. "
  "Whenever nothing is raised, both modes return identical solutions.",
  ["programs", "histories", "configurations"], "all user-written solvers and outcomes, all four entry points, all solver families reachable from each entry point",
  "Tests exercise a handful of failing solves; the equivalence quantifies over every solver and outcome and over all conversions between problem types.",
  ["_iterate.py", "_root_find.py", "_fixed_point.py", "_least_squares.py", "_minimise.py", "_solution.py"],
  [("error raised on the result", "_iterate.py:iterative_solve"), ("forwarding of the flag", "_root_find.py:root_find, _fixed_point.py:fixed_point, _least_squares.py:least_squares")],
  ["exceptions", "Solution"])

p("C04", "Problem conversions pose the same mathematical problem",
  "A fixed-point problem given to a root finder is the root problem f(y)-y; a root problem given to a minimiser is the minimisation of the solver's norm of f, and given to a least-squares solver the residual f itself; a least-squares problem given to a minimiser is half the sum of squared residuals. "
  "Arguments, options, step budget, throw flag and auxiliary outputs pass through unchanged, the initial guess is converted to floating point, and structure mismatches between a fixed-point map and its input are rejected. "
  "A root problem solved by a least-squares solver or minimiser is only reported successful if the solver stopped and the most recently evaluated residual has norm below the absolute tolerance.",
  ["inputs", "programs", "configurations"], "all user functions, initial guesses and arguments, all solvers of each family, each supported (problem, solver family) pair",
  "Tests check that conversions still converge on nice problems, which is insensitive to the posed objective, to dropped options and to spurious success away from a root.",
  ["_fixed_point.py", "_root_find.py", "_least_squares.py", "_minimise.py", "_misc.py"],
  [("function wrappers", "_root_find.py:_to_minimise_fn, _to_lstsq_fn; _fixed_point.py:_ToRootFn; _least_squares.py:_ToMinimiseFn"), ("extra near-zero termination condition", "_root_find.py:_ToRoot.terminate")],
  ["calls made to the solver", "Solution"])

p("C05", "Implicit derivatives solve the implicit function equation",
  "With implicit differentiation the derivative of the returned value with respect to the arguments and to anything the function closes over is the solution of the linearised optimality condition at the returned value: f=0 for roots, f(y)-y=0 for fixed points, gradient of the objective =0 for minimisation and least squares. "
  "This holds whichever solver family produced the value, in forward and reverse mode, and the derivative with respect to the initial guess and options is zero.",
  ["inputs", "programs", "configurations"], "all differentiable user functions with a nonsingular linearised condition, all returned values, every (problem, solver family) pair",
  "Tests compare with finite differences on a few problems with the matching solver family; conversions between families and quantities closed over are sampled thinly.",
  ["_adjoint.py", "_root_find.py", "_fixed_point.py", "_least_squares.py", "_minimise.py", "_ad.py"],
  [("implicit function rule", "_ad.py:implicit_jvp"), ("optimality conditions", "_root_find.py:_rewrite_fn, _minimise.py:_rewrite_fn, _least_squares.py:_rewrite_fn, _fixed_point.py:_rewrite_fn")],
  ["jvp/vjp of Solution.value"])

p("C06", "Safeguarded solvers never return a worse point than they were given",
  "For minimisers and least-squares solvers that use a backtracking line search, or a trust region whose model predicts no increase, no step ever increases the objective: every iterate is at least as good as the one before and hence as the initial guess, even if trial evaluations return NaN or infinity.",
  ["inputs", "histories", "configurations"], "all objective functions (including ones returning NaN/inf at trial points), all run lengths, every built-in solver with backtracking (BFGS, DFP, L-BFGS, nonlinear CG) and every trust-region solver (Levenberg-Marquardt, dogleg) ",
  "Tests compare the final point with a known minimum; an occasional uphill step on a well-behaved problem is invisible.",
  ["_solver/gradient_methods.py", "_solver/quasi_newton.py", "_solver/limited_memory_bfgs.py", "_solver/gauss_newton.py", "_solver/nonlinear_cg.py", "_solver/backtracking.py", "_solver/trust_region.py"],
  [("accept/reject of the trial point", "_solver/backtracking.py:BacktrackingArmijo.step, _solver/trust_region.py:_AbstractTrustRegion.step"), ("keeping y on rejection", "accepted/rejected branches in the step methods")],
  ["iterates of the interactive step API", "Solution.value"])

p("C07", "Each step's auxiliary output and trial bookkeeping belong to the right point",
  "The auxiliary output a step returns is the one the user function produces at the iterate that step was given. "
  "A step either moves to the trial point fixed by the previous step or, on rejection, keeps the iterate unchanged, and function values and derivatives used for later decisions are always those of the current iterate.",
  ["inputs", "histories", "configurations"], "all functions with auxiliary output, all accept/reject histories, every search/descent-based minimiser and least-squares solver, Newton, chord, fixed-point iteration, Nelder-Mead and optax",
  "Tests use constant auxiliary outputs, so attributing them (or cached values) to the wrong iterate is invisible.",
  ["_solver/gradient_methods.py", "_solver/quasi_newton.py", "_solver/limited_memory_bfgs.py", "_solver/gauss_newton.py", "_solver/newton_chord.py", "_solver/fixed_point.py", "_solver/nelder_mead.py", "_solver/optax.py"],
  [("accepted/rejected branches", "step methods"), ("previous auxiliary output kept in the state", "step methods")],
  ["return values of init/step"])

p("C08", "Backtracking line search accepts exactly on sufficient decrease",
  "Except on the very first step, a trial point is accepted if and only if the directional derivative towards it is not positive and the objective decreases by at least the slope fraction of it; trial values that are NaN or +infinity are rejected. "
  "After acceptance the step size is reset to its initial value, and after rejection it shrinks by exactly the decrease factor, so consecutive rejections try geometrically shrinking steps along the same direction.",
  ["inputs", "histories", "configurations"], "all function values, gradients, points and parameter choices, for gradient, Hessian and least-squares function information",
  "Line-search decisions are not observed by tests; a wrong slope, sign or reset only slows convergence.",
  ["_solver/backtracking.py", "_search.py"],
  [("Armijo condition", "_solver/backtracking.py:BacktrackingArmijo.step"), ("directional derivative", "_search.py:FunctionInfo.*.compute_grad_dot")],
  ["search.step return values"])

p("C09", "Trust-region searches accept and resize by the stated ratio tests",
  "Apart from the first step, a trial point is accepted if and only if the actual change is at most the low cutoff times the predicted change; the step size is multiplied by the high constant if the change beats the high cutoff of a negative prediction, by the low constant on rejection, and is otherwise unchanged. "
  "The predicted change is that of the linear model, respectively of the quadratic model built from the gradient and (Gauss-Newton) Hessian at the current point.",
  ["inputs", "histories", "configurations"], "all function values, gradients, Hessians/Jacobians, points and parameter choices, linear and classical trust regions, minimisation and least-squares information",
  "As for line searches: only convergence speed would change in tests.",
  ["_solver/trust_region.py", "_search.py"],
  [("ratio tests", "_solver/trust_region.py:_AbstractTrustRegion.step"), ("models", "_solver/trust_region.py:*.predict_reduction, _search.py")],
  ["search.step return values"])

p("C10", "BFGS and DFP updates keep a positive-definite secant approximation",
  "After each accepted step with positive curvature the (inverse) Hessian approximation is symmetric positive definite, satisfies the secant equation for the latest step, and equals the textbook BFGS (respectively DFP) formula; with non-positive curvature, on the first step and on rejected steps it is unchanged. "
  "Direct and inverse modes represent the same sequence of approximations, starting from the identity.",
  ["inputs", "histories", "configurations"], "all gradients, steps and curvature values, all histories of accepts/rejects, both update families and both representations, several pytree structures",
  "Tests only see convergence, which survives non-symmetric, non-secant or stale approximations.",
  ["_solver/quasi_newton.py"],
  [("update formulas", "_solver/quasi_newton.py:_AbstractBFGS/_AbstractDFP update"), ("curvature safeguard", "_solver/quasi_newton.py")],
  ["function information handed to searches and descents"])

p("C11", "L-BFGS equals BFGS on the retained curvature pairs",
  "The operator used by limited-memory BFGS is exactly the BFGS recursion over the most recent history_length accepted positive-curvature pairs (older pairs have no effect) starting from the scaled identity, in both the inverse and the direct representation. "
  "It satisfies the secant equation for the newest pair and is symmetric positive definite.",
  ["inputs", "histories", "configurations"], "all gradients and steps, histories shorter than, equal to and longer than the memory, memory lengths 1..3, both representations",
  "Tests see convergence only; wrap-around of the memory and the compact representation are not compared with the recursion.",
  ["_solver/limited_memory_bfgs.py"],
  [("ring buffer of pairs", "_solver/limited_memory_bfgs.py"), ("two-loop / compact products", "_solver/limited_memory_bfgs.py")],
  ["function information handed to searches and descents"])

p("C12", "Nonlinear CG directions are descent directions built from the chosen formula",
  "Each direction is the negative gradient plus beta times the previous direction, falling back to the negative gradient whenever that combination would not be a descent direction; so the directional derivative along every proposed step is never positive. "
  "The Polak-Ribiere (clipped at zero), Fletcher-Reeves, Hestenes-Stiefel and Dai-Yuan betas equal their textbook formulas and are zero when their denominator vanishes; in particular the Hestenes-Stiefel direction is conjugate to the latest gradient change.",
  ["inputs", "histories", "configurations"], "all gradients and previous directions, all four formulas and user-supplied ones",
  "Tests use two problems and judge convergence; a wrong sign in a beta is masked by the steepest-descent fallback.",
  ["_solver/nonlinear_cg.py"],
  [("beta formulas", "_solver/nonlinear_cg.py"), ("descent safeguard", "_solver/nonlinear_cg.py:NonlinearCGDescent.query")],
  ["descent.query/step", "beta functions"])

p("C13", "Newton, damped and dogleg steps solve their model subproblems",
  "The Newton step solves the (Gauss-)Newton system, the damped step solves it with the identity scaled by the reciprocal step size added, where the damping is capped at a huge value as the step size vanishes; the indirect damped step is the Newton step for step sizes of at least one and otherwise a damped step whose length is the step size times that of the Newton step, up to the root finder's tolerance if its search succeeds. "
  "The dogleg step lies on the path from zero via the Cauchy point to the Newton point, never leaves the trust region, equals the Newton step when that and the Cauchy point fit, and is finite.",
  ["inputs", "configurations"], "all Jacobians/Hessians and gradients for which the linear solve succeeds, all step sizes, least-squares and minimisation information",
  "Tests judge solver convergence; a step outside the region or off the path is corrected by later iterations.",
  ["_solver/gauss_newton.py", "_solver/levenberg_marquardt.py", "_solver/dogleg.py"],
  [("newton_step", "_solver/gauss_newton.py:newton_step"), ("damped_newton_step", "_solver/levenberg_marquardt.py"), ("path following", "_solver/dogleg.py:DoglegDescent.step")],
  ["descent.query/step"])

p("C14", "Bisection keeps a bracket and only stops near a sign change",
  "From a guess inside the interval, the bracketing interval always contains a sign change of the function, lies within the previous one and is halved by every step after the first; every evaluated point is inside it. "
  "It stops only when function value and step are within tolerance; an interval without a sign change raises an error unless checking is disabled or expansion is requested, and expansion only returns an interval with a sign change.",
  ["inputs", "histories", "configurations"], "all continuous or discontinuous scalar functions, all intervals, both orientations, all option combinations, all run lengths",
  "Tests use a few monotone functions; endpoints that are roots, flipped orientation with expansion, and the invariant itself are not checked.",
  ["_solver/bisection.py"],
  [("bracket update", "_solver/bisection.py:Bisection.step"), ("containment check and expansion", "_solver/bisection.py:Bisection.init")],
  ["iterates", "exceptions", "Solution"])

p("C15", "Newton and chord iterations take Newton steps, respect bounds and stop honestly",
  "Each Newton iterate is the previous one minus the solution of the system with the Jacobian at the current iterate (for chord: at the initial iterate), clipped to the bounds when bounds are given. "
  "In Cauchy mode success is reported exactly when step and residual are within tolerance; otherwise, from the second step on, when the scaled step is negligible or its convergence-rate estimate is within kappa, while a rate that is above two or not finite is reported as divergence. A failed linear solve is reported as that failure.",
  ["inputs", "histories", "configurations"], "all functions and Jacobians, all linear-solver outcomes, both termination modes, with and without bounds, several structures",
  "Tests use convergent problems; failure propagation and the termination arithmetic are not exercised for all rates.",
  ["_solver/newton_chord.py"],
  [("linear solve and clipping", "_solver/newton_chord.py:_NewtonChord.step"), ("rate-based termination", "_solver/newton_chord.py:_NewtonChord.terminate")],
  ["iterates", "Solution.result"])

p("C16", "Fixed-point iteration iterates the map and stops on small relative change",
  "Every step replaces the iterate by the function value at it (by the damped average of both if a damping factor is given), and success is reported if and only if the change measured in the solver's norm, scaled componentwise by atol + rtol*|new value|, is below one.",
  ["inputs", "histories", "configurations"], "all maps (including ones returning NaN/inf), all iterates, norms, tolerances and pytree structures",
  "A few contractive maps are tested for the final value only.",
  ["_solver/fixed_point.py"],
  [("step and relative error", "_solver/fixed_point.py:FixedPointIteration.step"), ("termination", "_solver/fixed_point.py:FixedPointIteration.terminate")],
  ["iterates", "Solution.result"])

p("C17", "Golden-section search keeps an ordered, shrinking, golden bracket",
  "The bracket always consists of three ordered points inside the given interval with the middle one no worse than any evaluated point that was dropped beyond it, every new trial point lies inside the bracket, and every step shrinks the bracket by the golden ratio while keeping its proportions. "
  "For a unimodal function the bracket always contains the minimiser; the initial guess is ignored.",
  ["inputs", "histories", "configurations"], "all scalar functions and intervals (any sign and offset of the lower end), all run lengths",
  "Two intervals are tested, both near zero and only for the final value.",
  ["_solver/golden.py"],
  [("bracket update", "_solver/golden.py:GoldenSearch.step"), ("initial golden point", "_solver/golden.py:GoldenSearch.init")],
  ["iterates", "function evaluations"])

p("C18", "Nelder-Mead tracks its simplex exactly and its best value never worsens",
  "After every step the stored vertex values are the function values at the stored vertices, the returned iterate is a vertex of least value and that value never increases from step to step. "
  "A step is one of reflection, expansion, contraction or shrink with the standard coefficients, replacing only the worst vertex except for a shrink, which keeps the best vertex; the initial simplex consists of the guess and one perturbation along each coordinate.",
  ["inputs", "histories", "configurations"], "all functions, all simplices and value orderings (including ties), dimensions 1..3, all run lengths",
  "Tests judge convergence on small problems within a loose tolerance; bookkeeping errors and degenerate simplices still pass.",
  ["_solver/nelder_mead.py"],
  [("simplex update", "_solver/nelder_mead.py:NelderMead.step"), ("initial simplex", "_solver/nelder_mead.py:NelderMead.init")],
  ["iterates", "function evaluations"])

p("C19", "Best-so-far wrappers return the best evaluated iterate with its own aux",
  "The value returned by a best-so-far wrapper is an evaluated point whose loss (objective, sum of squared residuals, or squared fixed-point defect) is the least among all points the wrapped solver reported, the earliest on ties, and the auxiliary output is the one of that point. "
  "Apart from this the wrapped solver runs exactly as it would alone.",
  ["programs", "histories", "configurations"], "all wrapped solvers (arbitrary iterates and reports, including NaN losses), all run lengths, all four wrappers",
  "Tests wrap well-behaved solvers whose last iterate is the best one.",
  ["_solver/best_so_far.py"],
  [("comparison and bookkeeping", "_solver/best_so_far.py:_AbstractBestSoFarSolver.step/postprocess")],
  ["Solution.value", "Solution.aux"])

p("C20", "Convergence is declared only when both iterate and objective have settled",
  "Gradient descent, nonlinear CG and quasi-Newton methods stop successfully only after an accepted step (never the first) for which the changes of iterate and function value are both below tolerance, componentwise scaled by atol + rtol*|value| and measured in the solver's norm; Gauss-Newton methods likewise, or on the first step if the residual itself is within tolerance. "
  "Nelder-Mead, golden-section search and optax wrappers apply the same criterion to, respectively, the differences of all vertices and values to the best one, the two interior points and their values, and the update and the change of value. "
  "A change that is NaN never counts as settled.",
  ["inputs", "histories", "configurations"], "all iterates, function values and tolerances, all built-in norms and user norms, every solver using this criterion",
  "Tests only see that converged runs are close to the optimum; stopping early on one of the two criteria is rarely visible.",
  ["_misc.py", "_solver/gradient_methods.py", "_solver/quasi_newton.py", "_solver/limited_memory_bfgs.py", "_solver/gauss_newton.py", "_solver/nelder_mead.py", "_solver/optax.py", "_solver/golden.py"],
  [("criterion", "_misc.py:cauchy_termination"), ("use after accepted steps", "step methods")],
  ["terminate flag"])

p("C21", "Optax wrapper applies exactly the updates of the wrapped transformation",
  "Each step evaluates value and gradient at the current iterate, passes them (with the iterate and the value) to the wrapped gradient transformation, and adds the returned updates to the iterate; the transformation's own state is threaded through unchanged. "
  "It stops only when the applied update and the change in objective are both within tolerance.",
  ["programs", "inputs", "histories"], "all gradient transformations (arbitrary init/update behaviour), all objectives, all run lengths",
  "Tests run two optax optimisers to convergence.",
  ["_solver/optax.py"],
  [("step", "_solver/optax.py:OptaxMinimiser.step"), ("termination", "_solver/optax.py:OptaxMinimiser.terminate")],
  ["iterates"])

p("C22", "The SciPy-compatible front end solves the problem it was given",
  "The SciPy-style minimise runs BFGS on fun(x, *args) from x0 with tolerance tol (both relative and absolute), the requested norm and iteration limit, rejects unknown methods and options and starting points that are not vectors, and never raises on numerical failure. "
  "The reported success flag, status, x, fun, jac, iteration count and hess_inv are those of that run: success exactly if the solve succeeded, and (given a limit of at least one) fun and jac the objective and its gradient at x.",
  ["inputs", "configurations", "histories"], "all objectives, starting points, extra arguments, tolerances, limits and norms",
  "Tests call it on two problems with default options.",
  ["compat/_impl.py"],
  [("option handling and result assembly", "compat/_impl.py:minimize")],
  ["OptimizeResults"])

p("C23", "Box utilities never produce infeasible points",
  "For a point within its bounds, moving by the proposed step times the computed feasible step length stays within the bounds (with a positive offset, points strictly inside stay strictly inside), without offset a full step is allowed whenever it is feasible, and steps that reduce an existing violation are not blocked. "
  "Clipping returns the nearest point of the box and leaves points inside unchanged.",
  ["inputs", "configurations"], "all points, steps, bounds (including infinite ones) and offsets, several pytree structures",
  "Tests use a few hand-picked values.",
  ["_misc.py", "_solver/newton_chord.py"],
  [("feasible step length", "_misc.py:feasible_step_length"), ("clipping", "_misc.py:tree_clip")],
  ["return values"])

p("C24", "Linear-solver failures surface as the failure of the solve",
  "If the linear solve inside a step fails, the whole solve ends with that failure code instead of continuing or reporting success, for Newton/chord and for every least-squares or quasi-Newton method that solves linear systems; if it succeeds, it never causes a failure report.",
  ["fault_sequences", "programs", "histories"], "all linear solvers and all patterns of their success and failure, every solver that performs linear solves",
  "Tests use well-posed systems; a failing inner solve is exercised in one place.",
  ["_solver/newton_chord.py", "_solver/gauss_newton.py", "_solver/levenberg_marquardt.py", "_solver/dogleg.py", "_solver/quasi_newton.py"],
  [("result promotion and propagation", "descent query/step and solver step methods")],
  ["Solution.result"])

p("C25", "Gradient descent and fixed learning rates step by exactly rate times direction",
  "Gradient descent moves by minus the learning rate times the gradient at the current iterate (normalised if so configured), every search-based method's next trial point is the current iterate plus the descent's step for the search's step size, and gradients computed in forward and reverse mode agree.",
  ["inputs", "histories", "configurations"], "all objectives and iterates, learning rates, both autodiff modes, searches and descents supplied by the user",
  "Tests judge convergence only.",
  ["_solver/gradient_methods.py", "_solver/learning_rate.py", "_misc.py"],
  [("steepest descent", "_solver/gradient_methods.py:SteepestDescent"), ("trial point", "step methods")],
  ["iterates and function evaluations"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as fh:
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        fh.write(json.dumps(q, ensure_ascii=False) + "\n")
