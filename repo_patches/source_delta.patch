From dce1a1a468fd2139b68682448977be9c2545c8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:23 +0000
Subject: [PATCH 01/11] fix: offset the initial middle point of GoldenSearch by
 the lower bound

The golden-ratio middle point was computed as a length rather than as a point in
the interval, so any search with a nonzero lower bound started outside it.
---
 optimistix/_solver/golden.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optimistix/_solver/golden.py b/optimistix/_solver/golden.py
index bb5ca05..e04c1e7 100644
--- a/optimistix/_solver/golden.py
+++ b/optimistix/_solver/golden.py
@@ -81,7 +81,7 @@ class GoldenSearch(AbstractMinimiser[Float[Array, ""], Aux, _GoldenSearchState])
         # length a and b, respectively. The ratio of their lengths, b / a, is equal
         # to the golden ratio.
         golden_ratio = (1 + math.sqrt(5)) / 2
-        middle = (upper - lower) / (golden_ratio + 1)
+        middle = lower + (upper - lower) / (golden_ratio + 1)
 
         f_middle, _ = fn(middle, args)
 
-- 
2.43.0


From d447f68c8bf04261b7499c9ea633f9c4b490c2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:23 +0000
Subject: [PATCH 02/11] fix: honour the norm option in compat.minimize

The option was accepted and then silently replaced by the max norm.
---
 optimistix/compat/_impl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optimistix/compat/_impl.py b/optimistix/compat/_impl.py
index ee15e42..0ed2e8d 100644
--- a/optimistix/compat/_impl.py
+++ b/optimistix/compat/_impl.py
@@ -97,14 +97,14 @@ def minimize(
     else:
         options = dict(options)
     max_steps = options.pop("maxiter", None)
-    options.pop("norm", max_norm)
+    norm = options.pop("norm", max_norm)
     if len(options) != 0:
         raise ValueError(f"Unsupported options: {set(options.keys())}")
 
     def wrapped_fn(y, args):
         return fun(y, *args)
 
-    solver = BFGS(rtol=tol, atol=tol, norm=max_norm)
+    solver = BFGS(rtol=tol, atol=tol, norm=norm)
     sol = minimise(wrapped_fn, solver, x0, args, max_steps=max_steps, throw=False)
     status = jnp.where(
         sol.result == RESULTS.successful,
-- 
2.43.0


From 7540a8f18c8182733cde186a8a52aaebcd318c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:23 +0000
Subject: [PATCH 03/11] fix: read best and worst NelderMead vertices from the
 updated simplex

The indices refer to the simplex after the replacement or shrink, but were used
to index the simplex from before it.
---
 optimistix/_solver/nelder_mead.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optimistix/_solver/nelder_mead.py b/optimistix/_solver/nelder_mead.py
index d3ff013..8ee5af7 100644
--- a/optimistix/_solver/nelder_mead.py
+++ b/optimistix/_solver/nelder_mead.py
@@ -384,8 +384,8 @@ class NelderMead(AbstractMinimiser[Y, Aux, _NelderMeadState[Y, Aux]]):
         f_best = -f_best_neg
         (f_worst, f_second_worst), (worst_index, _) = lax.top_k(f_new_simplex, 2)
         _structured_index = lambda a, b: jtu.tree_map(lambda _, x: x[b], y, a)
-        best = _structured_index(simplex, best_index)
-        worst = _structured_index(simplex, worst_index)
+        best = _structured_index(new_simplex, best_index)
+        worst = _structured_index(new_simplex, worst_index)
         new_state = _NelderMeadState(
             simplex=new_simplex,
             f_simplex=f_new_simplex,
-- 
2.43.0


From 80090f3c4f8d5825c5e6740be3620ad7cd729250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:23 +0000
Subject: [PATCH 04/11] fix: return the auxiliary output matching y from
 NelderMead steps

The auxiliary output was that of whichever vertex was evaluated last, and was
all zeros on the first step. Wrappers that read function values out of it, such
as BestSoFarMinimiser, then trusted a value belonging to a different point.
---
 optimistix/_solver/nelder_mead.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/optimistix/_solver/nelder_mead.py b/optimistix/_solver/nelder_mead.py
index 8ee5af7..8d4d6fc 100644
--- a/optimistix/_solver/nelder_mead.py
+++ b/optimistix/_solver/nelder_mead.py
@@ -344,7 +344,7 @@ class NelderMead(AbstractMinimiser[Y, Aux, _NelderMeadState[Y, Aux]]):
             shrink=shrink,
         )
 
-        def shrink_simplex(best, new_vertex, simplex, first_pass):
+        def shrink_simplex(best, new_vertex, simplex, first_pass, aux):
             # This is just `best + shrink_const * (simplex - best)` but returns
             # a buffer. `best` is passed t
             shrink_simplex = jtu.tree_map(
@@ -356,21 +356,29 @@ class NelderMead(AbstractMinimiser[Y, Aux, _NelderMeadState[Y, Aux]]):
             # compute f_simplex, return simplex
             simplex = tree_where(first_pass, simplex, shrink_simplex)
             unwrapped_simplex = jtu.tree_map(lambda _, x: x[...], y, simplex)
-            f_simplex, _ = jax.vmap(lambda x: fn(x, args))(unwrapped_simplex)
-            return f_simplex, simplex
-
-        def update_simplex(best, new_vertex, simplex, first_pass):
+            f_simplex, aux = jax.vmap(lambda x: fn(x, args))(unwrapped_simplex)
+            best_aux = jtu.tree_map(lambda x: x[jnp.argmin(f_simplex)], aux)
+            # The initial `y` is the zeroth vertex.
+            init_aux = jtu.tree_map(lambda x: x[0], aux)
+            prev_aux = tree_where(first_pass, init_aux, state.aux)
+            return f_simplex, simplex, best_aux, prev_aux
+
+        def update_simplex(best, new_vertex, simplex, first_pass, aux):
             simplex = jtu.tree_map(
                 lambda _, a, b: a.at[worst_index].set(b), best, simplex, new_vertex
             )
             f_simplex = state.f_simplex.at[worst_index].set(f_new_vertex)
-            return f_simplex, simplex
+            new_best = jnp.argmin(f_simplex).astype(worst_index.dtype) == worst_index
+            best_aux = tree_where(new_best, aux, state.aux)
+            return f_simplex, simplex, best_aux, state.aux
 
-        f_new_simplex, new_simplex = lax.cond(
+        # The state holds the `aux` of the best vertex, which is the `y` that we return.
+        # Meanwhile the `aux` that we return is that of the `y` we were called with.
+        f_new_simplex, new_simplex, best_aux, prev_aux = lax.cond(
             shrink,
             shrink_simplex,
             update_simplex,
-            *(best, new_vertex, state.simplex, state.first_pass),
+            *(best, new_vertex, state.simplex, state.first_pass, aux),
         )
         #
         # TODO(raderj): only 1 value is updated when not shrinking. This implies
@@ -395,7 +403,7 @@ class NelderMead(AbstractMinimiser[Y, Aux, _NelderMeadState[Y, Aux]]):
             stats=stats,
             result=state.result,
             first_pass=jnp.array(False),
-            aux=aux,
+            aux=best_aux,
             step=state.step + 1,
         )
         try:
@@ -408,7 +416,7 @@ class NelderMead(AbstractMinimiser[Y, Aux, _NelderMeadState[Y, Aux]]):
         else:
             out = best
 
-        return out, new_state, aux
+        return out, new_state, prev_aux
 
     def terminate(
         self,
-- 
2.43.0


From b605c6b427ffb0f19d76f27a4f3d61cb6251db50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:23 +0000
Subject: [PATCH 05/11] fix: correct the sign of the Hestenes-Stiefel and
 Dai-Yuan denominators

---
 optimistix/_solver/nonlinear_cg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optimistix/_solver/nonlinear_cg.py b/optimistix/_solver/nonlinear_cg.py
index 73ed02b..d9a8ecf 100644
--- a/optimistix/_solver/nonlinear_cg.py
+++ b/optimistix/_solver/nonlinear_cg.py
@@ -52,7 +52,7 @@ def hestenes_stiefel(grad: Y, grad_prev: Y, y_diff_prev: Y) -> Scalar:
     [`optimistix.NonlinearCGDescent`][]."""
     grad_diff = (grad**ω - grad_prev**ω).ω
     numerator = tree_dot(grad, grad_diff)
-    denominator = -tree_dot(y_diff_prev, grad_diff)
+    denominator = tree_dot(y_diff_prev, grad_diff)
     # Triggers at initialisation and convergence, as above.
     pred = jnp.abs(denominator) > jnp.finfo(denominator.dtype).eps
     safe_denom = jnp.where(pred, denominator, 1)
@@ -63,7 +63,7 @@ def dai_yuan(grad: Y, grad_prev: Y, y_diff_prev: Y) -> Scalar:
     """The Dai--Yuan formula for β. Used with [`optimistix.NonlinearCG`][] and
     [`optimistix.NonlinearCGDescent`][]."""
     numerator = sum_squares(grad)
-    denominator = -tree_dot(y_diff_prev, (grad**ω - grad_prev**ω).ω)
+    denominator = tree_dot(y_diff_prev, (grad**ω - grad_prev**ω).ω)
     # Triggers at initialisation and convergence, as above.
     pred = jnp.abs(denominator) > jnp.finfo(denominator.dtype).eps
     safe_denom = jnp.where(pred, denominator, 1)
-- 
2.43.0


From b1f834d9a3839e2482da75f9d2fca2670c5bcb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:23 +0000
Subject: [PATCH 06/11] fix: check termination and finiteness against the new
 iterate

The check after each step received the new state but the old y, so a solve could
be reported as successful while returning a non-finite value.
---
 optimistix/_iterate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optimistix/_iterate.py b/optimistix/_iterate.py
index 7b1c94e..b365207 100644
--- a/optimistix/_iterate.py
+++ b/optimistix/_iterate.py
@@ -235,7 +235,7 @@ def _iterate(inputs):
         y, num_steps, dynamic_state, _, _, _ = carry
         state = eqx.combine(static_state, dynamic_state)
         new_y, new_state, aux = solver.step(fn, y, args, options, state, tags)
-        new_terminate, new_result = terminate_and_result(y, new_state)
+        new_terminate, new_result = terminate_and_result(new_y, new_state)
         new_dynamic_state, new_static_state = eqx.partition(new_state, eqx.is_array)
         assert eqx.tree_equal(static_state, new_static_state) is True
         return new_y, num_steps + 1, new_dynamic_state, aux, new_terminate, new_result
-- 
2.43.0


From 0e6ccec880138443ca607847aa858eefd8a6a421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:23 +0000
Subject: [PATCH 07/11] fix: avoid NaN steps from DoglegDescent

Use the stable form of the quadratic formula for each sign of b, and take the
(zero) Newton step when both the Newton and the Cauchy step are zero.
---
 optimistix/_solver/dogleg.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/optimistix/_solver/dogleg.py b/optimistix/_solver/dogleg.py
index 090d496..4ffa826 100644
--- a/optimistix/_solver/dogleg.py
+++ b/optimistix/_solver/dogleg.py
@@ -167,7 +167,7 @@ class DoglegDescent(
                 # use slightly different formulas when `b >=` and `b < 0`.
                 # See https://github.com/fortran-lang/stdlib/issues/674 for a number of
                 # references.
-                t_interp = jnp.where(b >= 0, quadratic_1, quadratic_2)
+                t_interp = jnp.where(b >= 0, quadratic_2, quadratic_1)
                 result = RESULTS.successful
             else:
                 root_find_options = {"lower": jnp.array(1.0), "upper": jnp.array(2.0)}
@@ -188,8 +188,11 @@ class DoglegDescent(
             """Return the Newton step."""
             return newton, RESULTS.successful
 
+        # Strict inequality, so that we don't interpolate when both steps are zero.
         index = jnp.where(
-            state.cauchy_norm > scaled_step_size, 0, jnp.where(step_size < 1, 1, 2)
+            state.cauchy_norm > scaled_step_size,
+            0,
+            jnp.where(state.newton_norm > scaled_step_size, 1, 2),
         )
         y_diff, root_result = lax.switch(
             index,
-- 
2.43.0


From 2bc4a45de60828943c308356154c68ffb638df28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:23 +0000
Subject: [PATCH 08/11] fix: accept a root at the lower endpoint in Bisection

A root exactly at the lower end of the interval was rejected if the function was
positive at the upper end.
---
 optimistix/_solver/bisection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/optimistix/_solver/bisection.py b/optimistix/_solver/bisection.py
index 85858a6..aa8f192 100644
--- a/optimistix/_solver/bisection.py
+++ b/optimistix/_solver/bisection.py
@@ -146,9 +146,9 @@ class Bisection(AbstractRootFinder[Scalar, Scalar, Aux, _BisectionState]):
                     args=args,
                 )
             else:
-                lower_neg = lower_val < 0
-                upper_neg = upper_val < 0
-                root_not_contained = lower_neg == upper_neg
+                increasing = (lower_val <= 0) & (upper_val >= 0)
+                decreasing = (lower_val >= 0) & (upper_val <= 0)
+                root_not_contained = jnp.invert(increasing | decreasing)
                 flip = eqx.error_if(
                     flip,
                     root_not_contained,
-- 
2.43.0


From f99490f21c6fd9ce0c8c23b006b7d5ca746aae9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:23 +0000
Subject: [PATCH 09/11] fix: differentiate the root function when root finding
 with a minimiser

The implicit function theorem was applied to the gradient of the norm of the
root function. Its Hessian is singular for norms such as max_norm, so gradients
failed or were silently zero.
---
 optimistix/_root_find.py | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/optimistix/_root_find.py b/optimistix/_root_find.py
index 4efe33a..f9137c3 100644
--- a/optimistix/_root_find.py
+++ b/optimistix/_root_find.py
@@ -4,13 +4,13 @@ import equinox as eqx
 import jax.numpy as jnp
 import jax.tree_util as jtu
 from equinox import AbstractVar
-from jaxtyping import PyTree
+from jaxtyping import PyTree, Scalar
 
 from ._adjoint import AbstractAdjoint, ImplicitAdjoint
 from ._custom_types import Aux, Fn, MaybeAuxFn, Out, SolverState, Y
 from ._iterate import AbstractIterativeSolver, iterative_solve
 from ._least_squares import AbstractLeastSquaresSolver
-from ._minimise import AbstractMinimiser, minimise
+from ._minimise import AbstractMinimiser
 from ._misc import inexact_asarray, NoneAux, OutAsArray, tree_full_like
 from ._solution import Solution
 
@@ -36,6 +36,19 @@ def _to_minimise_fn(root_fn, norm, y, args):
     return norm(root), (root, aux)
 
 
+# Like `_rewrite_fn`, but with the root function wrapped in `_to_minimise_fn`.
+def _minimise_rewrite_fn(root, _, inputs):
+    minimise_fn, _, _, args, *_ = inputs
+    del inputs
+    _, (f_val, _) = minimise_fn(root, args)
+    return f_val
+
+
+# Keep `optx.implicit_jvp` is happy.
+if _minimise_rewrite_fn.__globals__["__name__"].startswith("jaxtyping"):
+    _minimise_rewrite_fn = _minimise_rewrite_fn.__wrapped__  # pyright: ignore[reportFunctionMemberAccess]
+
+
 def _to_lstsq_fn(root_fn, y, args):
     root, aux = root_fn(y, args)
     return root, (root, aux)
@@ -177,19 +190,29 @@ def root_find(
     fn = OutAsArray(fn)
 
     if isinstance(solver, AbstractMinimiser):
-        del tags
-        sol = minimise(
-            eqx.Partial(_to_minimise_fn, fn, solver.norm),
+        y0 = jtu.tree_map(inexact_asarray, y0)
+        minim_fn = OutAsArray(eqx.Partial(_to_minimise_fn, fn, solver.norm))
+        minim_fn = eqx.filter_closure_convert(minim_fn, y0, args)  # pyright: ignore
+        minim_fn = cast(Fn[Y, Scalar, Aux], minim_fn)
+        f_struct, aux_struct = minim_fn.out_struct  # pyright: ignore[reportFunctionMemberAccess]
+        if options is None:
+            options = {}
+
+        sol = iterative_solve(
+            minim_fn,
             _MinimToRoot(solver),  # pyright: ignore
             y0,
             args,
             options,
-            has_aux=True,
             max_steps=max_steps,
             adjoint=adjoint,
             throw=throw,
+            tags=tags,
+            f_struct=f_struct,
+            aux_struct=aux_struct,
+            rewrite_fn=_minimise_rewrite_fn,
         )
-        _, aux = sol.aux
+        _, aux = sol.aux  # pyright: ignore[reportGeneralTypeIssues]
         sol = eqx.tree_at(lambda s: s.aux, sol, aux)
         return sol
     elif isinstance(solver, AbstractLeastSquaresSolver):
-- 
2.43.0


From f9b6420ee6eeed4c8b910a4325701a21a480e6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:23 +0000
Subject: [PATCH 10/11] fix: pair best-so-far losses with the point they were
 evaluated at

Some solvers do not evaluate the function at the y passed to step. GoldenSearch
ignores the initial y, so its first loss was attributed to the wrong point.
---
 optimistix/_solver/best_so_far.py | 32 +++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/optimistix/_solver/best_so_far.py b/optimistix/_solver/best_so_far.py
index c2cb405..f111061 100644
--- a/optimistix/_solver/best_so_far.py
+++ b/optimistix/_solver/best_so_far.py
@@ -27,11 +27,13 @@ class _BestSoFarState(eqx.Module, Generic[Y, Aux, SolverState]):
 
 def _auxmented(fn, y, args):
     out, aux = fn(y, args)
-    return out, (out, aux)
+    # Also record `y`, as depending on the solver then the `aux` returned from a step may
+    # correspond to either the `y` at the start or the `y` at the end of that step.
+    return out, (y, out, aux)
 
 
 class _AbstractBestSoFarSolver(AbstractIterativeSolver, Generic[Y, Out, Aux]):
-    solver: AbstractVar[AbstractIterativeSolver[Y, Out, tuple[Out, Aux], Any]]
+    solver: AbstractVar[AbstractIterativeSolver[Y, Out, tuple[Y, Out, Aux], Any]]
 
     @abc.abstractmethod
     def _to_loss(self, y: Y, f: Out) -> Scalar: ...
@@ -61,8 +63,10 @@ class _AbstractBestSoFarSolver(AbstractIterativeSolver, Generic[Y, Out, Aux]):
         aux = tree_full_like(aux_struct, 0)
         loss = jnp.array(jnp.inf)
         auxmented_fn = eqx.Partial(_auxmented, fn)
+        y_struct = jax.eval_shape(lambda: y)
+        auxmented_struct = (y_struct, f_struct, aux_struct)
         state = self.solver.init(
-            auxmented_fn, y, args, options, f_struct, (f_struct, aux_struct), tags
+            auxmented_fn, y, args, options, f_struct, auxmented_struct, tags
         )
         return _BestSoFarState(best_y=y, best_aux=aux, best_loss=loss, state=state)
 
@@ -76,12 +80,12 @@ class _AbstractBestSoFarSolver(AbstractIterativeSolver, Generic[Y, Out, Aux]):
         tags: frozenset[object],
     ) -> tuple[Y, _BestSoFarState, Aux]:
         auxmented_fn = eqx.Partial(_auxmented, fn)
-        new_y, new_state, (f, new_aux) = self.solver.step(
+        new_y, new_state, (f_y, f, new_aux) = self.solver.step(
             auxmented_fn, y, args, options, state.state, tags
         )
-        loss = self._to_loss(y, f)
+        loss = self._to_loss(f_y, f)
         pred = loss < state.best_loss
-        best_y = tree_where(pred, y, state.best_y)
+        best_y = tree_where(pred, f_y, state.best_y)
         best_aux = tree_where(pred, new_aux, state.best_aux)
         best_loss = jnp.where(pred, loss, state.best_loss)
         new_state = _BestSoFarState(
@@ -123,10 +127,10 @@ class BestSoFarMinimiser(  # pyright: ignore
     copy of the best `y` seen, and returns that.
     """
 
-    solver: AbstractMinimiser[Y, tuple[Scalar, Aux], Any]
+    solver: AbstractMinimiser[Y, tuple[Y, Scalar, Aux], Any]
 
     # Explicitly declare to keep pyright happy.
-    def __init__(self, solver: AbstractMinimiser[Y, tuple[Scalar, Aux], Any]):
+    def __init__(self, solver: AbstractMinimiser[Y, tuple[Y, Scalar, Aux], Any]):
         self.solver = solver
 
     def _to_loss(self, y: Y, f: Scalar) -> Scalar:
@@ -161,11 +165,11 @@ class BestSoFarLeastSquares(  # pyright: ignore
     makes a copy of the best `y` seen, and returns that.
     """
 
-    solver: AbstractLeastSquaresSolver[Y, Out, tuple[Out, Aux], Any]
+    solver: AbstractLeastSquaresSolver[Y, Out, tuple[Y, Out, Aux], Any]
 
     # Explicitly declare to keep pyright happy.
     def __init__(
-        self, solver: AbstractLeastSquaresSolver[Y, Out, tuple[Out, Aux], Any]
+        self, solver: AbstractLeastSquaresSolver[Y, Out, tuple[Y, Out, Aux], Any]
     ):
         self.solver = solver
 
@@ -201,10 +205,10 @@ class BestSoFarRootFinder(  # pyright: ignore
     makes a copy of the best `y` seen, and returns that.
     """
 
-    solver: AbstractRootFinder[Y, Out, tuple[Out, Aux], Any]
+    solver: AbstractRootFinder[Y, Out, tuple[Y, Out, Aux], Any]
 
     # Explicitly declare to keep pyright happy.
-    def __init__(self, solver: AbstractRootFinder[Y, Out, tuple[Out, Aux], Any]):
+    def __init__(self, solver: AbstractRootFinder[Y, Out, tuple[Y, Out, Aux], Any]):
         self.solver = solver
 
     def _to_loss(self, y: Y, f: Out) -> Scalar:
@@ -239,10 +243,10 @@ class BestSoFarFixedPoint(  # pyright: ignore
     makes a copy of the best `y` seen, and returns that.
     """
 
-    solver: AbstractFixedPointSolver[Y, tuple[Y, Aux], Any]
+    solver: AbstractFixedPointSolver[Y, tuple[Y, Y, Aux], Any]
 
     # Explicitly declare to keep pyright happy.
-    def __init__(self, solver: AbstractFixedPointSolver[Y, tuple[Y, Aux], Any]):
+    def __init__(self, solver: AbstractFixedPointSolver[Y, tuple[Y, Y, Aux], Any]):
         self.solver = solver
 
     def _to_loss(self, y: Y, f: Y) -> Scalar:
-- 
2.43.0


From b58bbb6a72f03b1ff050838fd2182080f9bc05a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:18 +0000
Subject: [PATCH 11/11] fix: return the auxiliary output of the initial guess
 from the first NelderMead step

The guess is not in general the zeroth vertex of the initial simplex: for an array
with several elements it comes last. Look it up instead of assuming its position.
---
 optimistix/_solver/nelder_mead.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/optimistix/_solver/nelder_mead.py b/optimistix/_solver/nelder_mead.py
index 8d4d6fc..dd4de1f 100644
--- a/optimistix/_solver/nelder_mead.py
+++ b/optimistix/_solver/nelder_mead.py
@@ -358,8 +358,14 @@ class NelderMead(AbstractMinimiser[Y, Aux, _NelderMeadState[Y, Aux]]):
             unwrapped_simplex = jtu.tree_map(lambda _, x: x[...], y, simplex)
             f_simplex, aux = jax.vmap(lambda x: fn(x, args))(unwrapped_simplex)
             best_aux = jtu.tree_map(lambda x: x[jnp.argmin(f_simplex)], aux)
-            # The initial `y` is the zeroth vertex.
-            init_aux = jtu.tree_map(lambda x: x[0], aux)
+            # The initial `y` may be any one of the vertices.
+            is_init = jtu.tree_map(
+                lambda x, s: jnp.all(x[None] == s, axis=tuple(range(1, s.ndim))),
+                y,
+                unwrapped_simplex,
+            )
+            init_index = jnp.argmax(jtu.tree_reduce(jnp.logical_and, is_init))
+            init_aux = jtu.tree_map(lambda x: x[init_index], aux)
             prev_aux = tree_where(first_pass, init_aux, state.aux)
             return f_simplex, simplex, best_aux, prev_aux
 
-- 
2.43.0

