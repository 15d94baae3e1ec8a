From 996d4e3a06276929139abbad49bed0280fa46bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:45 +0000
Subject: [PATCH 01/16] fix: increments of interpolations over PyTree-valued
 solutions

evaluate(t0, t1) subtracted the two evaluations with a bare '-', which raises a
TypeError whenever the interpolated value is a PyTree rather than an array.
---
 diffrax/_global_interpolation.py | 12 +++++++++---
 diffrax/_local_interpolation.py  |  4 ++--
 diffrax/_solver/dopri8.py        |  2 +-
 diffrax/_solver/kencarp3.py      |  2 +-
 diffrax/_solver/tsit5.py         |  2 +-
 5 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/diffrax/_global_interpolation.py b/diffrax/_global_interpolation.py
index 278d7c5..c0fb44b 100644
--- a/diffrax/_global_interpolation.py
+++ b/diffrax/_global_interpolation.py
@@ -131,7 +131,9 @@ class LinearInterpolation(AbstractGlobalInterpolation):
         """
 
         if t1 is not None:
-            return self.evaluate(t1, left=left) - self.evaluate(t0, left=left)
+            return (
+                self.evaluate(t1, left=left) ** ω - self.evaluate(t0, left=left) ** ω
+            ).ω
         index, fractional_part = self._interpret_t(t0, left)
 
         def _index(_ys):
@@ -253,7 +255,9 @@ class CubicInterpolation(AbstractGlobalInterpolation):
         """
 
         if t1 is not None:
-            return self.evaluate(t1, left=left) - self.evaluate(t0, left=left)
+            return (
+                self.evaluate(t1, left=left) ** ω - self.evaluate(t0, left=left) ** ω
+            ).ω
         index, frac = self._interpret_t(t0, left)
 
         d, c, b, a = self.coeffs
@@ -344,7 +348,9 @@ class DenseInterpolation(AbstractGlobalInterpolation):
         self, t0: RealScalarLike, t1: RealScalarLike | None = None, left: bool = True
     ) -> PyTree[Shaped[Array, "?*shape"], "Y"]:
         if t1 is not None:
-            return self.evaluate(t1, left=left) - self.evaluate(t0, left=left)
+            return (
+                self.evaluate(t1, left=left) ** ω - self.evaluate(t0, left=left) ** ω
+            ).ω
         t = t0 * self.direction
         t_bounded = self._nan_if_out_of_bounds(t)
         out = self._get_local_interpolation(t_bounded, left).evaluate(
diff --git a/diffrax/_local_interpolation.py b/diffrax/_local_interpolation.py
index 1f35d1d..70219c2 100644
--- a/diffrax/_local_interpolation.py
+++ b/diffrax/_local_interpolation.py
@@ -81,7 +81,7 @@ class ThirdOrderHermitePolynomialInterpolation(AbstractLocalInterpolation):
     ) -> PyTree[Array]:
         del left
         if t1 is not None:
-            return self.evaluate(t1) - self.evaluate(t0)
+            return (self.evaluate(t1) ** ω - self.evaluate(t0) ** ω).ω
 
         t = linear_rescale(self.t0, t0, self.t1)
 
@@ -128,7 +128,7 @@ class FourthOrderPolynomialInterpolation(AbstractLocalInterpolation):
     ) -> PyTree[Array]:
         del left
         if t1 is not None:
-            return self.evaluate(t1) - self.evaluate(t0)
+            return (self.evaluate(t1) ** ω - self.evaluate(t0) ** ω).ω
 
         t = linear_rescale(self.t0, t0, self.t1)
 
diff --git a/diffrax/_solver/dopri8.py b/diffrax/_solver/dopri8.py
index 958d881..0f38e7a 100644
--- a/diffrax/_solver/dopri8.py
+++ b/diffrax/_solver/dopri8.py
@@ -296,7 +296,7 @@ class _Dopri8Interpolation(AbstractLocalInterpolation):
     ) -> Y:
         del left
         if t1 is not None:
-            return self.evaluate(t1) - self.evaluate(t0)
+            return (self.evaluate(t1) ** ω - self.evaluate(t0) ** ω).ω
         t = linear_rescale(self.t0, t0, self.t1)
         coeffs = _vmap_polyval(jnp.asarray(self.eval_coeffs, dtype=t.dtype), t) * t
         with jax.numpy_dtype_promotion("standard"):
diff --git a/diffrax/_solver/kencarp3.py b/diffrax/_solver/kencarp3.py
index cda0448..6bcb8d4 100644
--- a/diffrax/_solver/kencarp3.py
+++ b/diffrax/_solver/kencarp3.py
@@ -112,7 +112,7 @@ class KenCarpInterpolation(AbstractLocalInterpolation):
     ) -> PyTree:
         del left
         if t1 is not None:
-            return self.evaluate(t1) - self.evaluate(t0)
+            return (self.evaluate(t1) ** ω - self.evaluate(t0) ** ω).ω
 
         t = linear_rescale(self.t0, t0, self.t1)
         explicit_k, implicit_k = self.k
diff --git a/diffrax/_solver/tsit5.py b/diffrax/_solver/tsit5.py
index 7dc7a14..789e9ce 100644
--- a/diffrax/_solver/tsit5.py
+++ b/diffrax/_solver/tsit5.py
@@ -118,7 +118,7 @@ class _Tsit5Interpolation(AbstractLocalInterpolation):
     ) -> Y:
         del left
         if t1 is not None:
-            return self.evaluate(t1) - self.evaluate(t0)
+            return (self.evaluate(t1) ** ω - self.evaluate(t0) ** ω).ω
 
         t = linear_rescale(self.t0, t0, self.t1)
 
-- 
2.43.0


From 5aa842e180609747a9fd97bd8b74f1fcba236158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:09 +0000
Subject: [PATCH 02/16] fix: rescaling of dt in VirtualBrownianTree with a
 PyTree shape

The dt of a Levy-area-carrying increment was identified with 'z is x.dt', which
never matches once the Brownian motion is a PyTree; dt was then scaled by
sqrt(t1 - t0) instead of (t1 - t0).
---
 diffrax/_brownian/tree.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/diffrax/_brownian/tree.py b/diffrax/_brownian/tree.py
index 8a43066..b54f7ba 100644
--- a/diffrax/_brownian/tree.py
+++ b/diffrax/_brownian/tree.py
@@ -314,13 +314,9 @@ class VirtualBrownianTree(AbstractBrownianPath):
             dtype = jnp.result_type(z)
             return jnp.astype(sqrt_len, dtype) * z
 
-        def is_dt(z):
-            return z is x.dt
-
-        dt, other = eqx.partition(x, is_dt)
-        dt_normalized = jtu.tree_map(mult, dt)
-        other_normalized = jtu.tree_map(sqrt_mult, other)
-        return eqx.combine(dt_normalized, other_normalized)
+        # `dt` may be a PyTree, with the same structure as `self.shape`.
+        out = jtu.tree_map(sqrt_mult, x)
+        return eqx.tree_at(lambda b: b.dt, out, jtu.tree_map(mult, x.dt))
 
     @eqx.filter_jit
     def evaluate(
-- 
2.43.0


From 3c4d9a28261cd1bc8462d800720be47166934bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:52 +0000
Subject: [PATCH 03/16] fix: save t1 under SaveAt(steps=n, t1=True) when no
 steps are made

With t0 == t1 (or an event already triggered at t0) no steps are made, so the
final value is not saved via steps, and needs to be saved via t1.
---
 diffrax/_integrate.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index 8241fa9..7273495 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -849,14 +849,17 @@ def loop(
             # We're not saving the final value via `steps`,
             # so we might need to save it via `t1`.
             t1_saved_via_steps = False
-        elif subsaveat.steps == 1:
-            # We're definitely saving the final value via `steps`,
-            # so we can skip saving it via `t1`.
+        elif subsaveat.steps == 1 and not subsaveat.t1:
+            # We're definitely saving the final value via `steps` (or there were no
+            # steps at all, in which case there is nothing to save).
             t1_saved_via_steps = True
         else:
             # We might be saving the final value via `steps`,
-            # so we might need to save it via `t1`.
-            t1_saved_via_steps = final_state.num_accepted_steps % subsaveat.steps == 0
+            # so we might need to save it via `t1`. (In particular we may not have made
+            # any steps at all.)
+            t1_saved_via_steps = (final_state.num_accepted_steps > 0) & (
+                final_state.num_accepted_steps % subsaveat.steps == 0
+            )
         if event is None or event.root_finder is None:
             if type(t1_saved_via_steps) is bool:
                 t1_not_saved_via_steps = not t1_saved_via_steps
-- 
2.43.0


From 1789564895df9845ff7c901a8b2674ed8f29bc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:10 +0000
Subject: [PATCH 04/16] fix: do not duplicate the final value with
 SaveAt(steps=...) and a root-finding event

With an event with a root finder, the final value was always written a second time
under steps=n, even when it had not been deleted for lying after the event time
(no event triggered, or a boolean event, which occurs at the end of a step).
---
 diffrax/_integrate.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index 7273495..d3fb48f 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -860,17 +860,16 @@ def loop(
             t1_saved_via_steps = (final_state.num_accepted_steps > 0) & (
                 final_state.num_accepted_steps % subsaveat.steps == 0
             )
-        if event is None or event.root_finder is None:
-            if type(t1_saved_via_steps) is bool:
-                t1_not_saved_via_steps = not t1_saved_via_steps
-            else:
-                t1_not_saved_via_steps = jnp.logical_not(t1_saved_via_steps)
-            pred = subsaveat.t1 & t1_not_saved_via_steps
+        if type(t1_saved_via_steps) is bool:
+            t1_not_saved_via_steps = not t1_saved_via_steps
         else:
+            t1_not_saved_via_steps = jnp.logical_not(t1_saved_via_steps)
+        pred = subsaveat.t1 & t1_not_saved_via_steps
+        if event is not None and event.root_finder is not None:
             # If we're using an event with a root finder, and are saving steps,
-            # then we need to write the final value here because we deleted the
-            # last value after the event time above.
-            pred = subsaveat.t1 | t1_saved_via_steps
+            # then we need to write the final value here if we deleted the last value
+            # after the event time above.
+            pred = pred | (t1_saved_via_steps & (final_state.tprev > tfinal))
         if pred is not False:
             save_state = _save(
                 tfinal, yfinal, args, subsaveat.fn, save_state, repeat=1, pred=pred
-- 
2.43.0


From eafcc0be592e53c760ab5754e1625cc3992db2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:13 +0000
Subject: [PATCH 05/16] fix: direction of the drift when solving backwards in
 time with SRK methods

The stochastic Runge--Kutta solvers used the (normalised, positive) step length as
the control for the drift, rather than the drift's own control, and so integrated the
drift in the wrong direction when t1 < t0.
---
 diffrax/_solver/srk.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/diffrax/_solver/srk.py b/diffrax/_solver/srk.py
index ddb0309..69cc3f8 100644
--- a/diffrax/_solver/srk.py
+++ b/diffrax/_solver/srk.py
@@ -362,6 +362,9 @@ class AbstractSRK(AbstractSolver[_SolverState]):
 
         # time increment
         h = t1 - t0
+        # ...and the corresponding control for the drift. (Not necessarily equal to `h`,
+        # e.g. they differ by a sign when integrating backwards in time.)
+        h_control = drift.contr(t0, t1)
 
         # First the drift related stuff
         a = self._embed_a_lower(self.tableau.a, dtype)
@@ -545,7 +548,7 @@ class AbstractSRK(AbstractSolver[_SolverState]):
             z_j = (y0**ω + _drift_result**ω + _diffusion_result**ω).ω
 
             def compute_and_insert_kf_j(_h_kfs_in):
-                h_kf_j = drift.vf_prod(t0 + c_j * h, z_j, args, h)
+                h_kf_j = drift.vf_prod(t0 + c_j * h, z_j, args, h_control)
                 return insert_jth_stage(_h_kfs_in, h_kf_j, j)
 
             if ignore_stage_f is None:
-- 
2.43.0


From 355aef7c10a5ed71d33531a475d6d6f2e0cb85e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:46 +0000
Subject: [PATCH 06/16] fix: sign of the space-time Levy area when solving
 backwards in time

Reversing the direction of a path flips the sign of its increment W (and of K), but
leaves its space-time Levy area H unchanged. Flipping H reduced the solvers using it
to first order when t1 < t0.
---
 diffrax/_term.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/diffrax/_term.py b/diffrax/_term.py
index 9b0c031..27d247c 100644
--- a/diffrax/_term.py
+++ b/diffrax/_term.py
@@ -17,6 +17,7 @@ from jaxtyping import Array, ArrayLike, PyTree, Shaped
 from ._brownian import AbstractBrownianPath
 from ._custom_types import (
     AbstractBrownianIncrement,
+    AbstractSpaceTimeLevyArea,
     Args,
     Control,
     IntScalarLike,
@@ -742,7 +743,13 @@ class WrapTerm(AbstractTerm[_VF, _Control]):
     def contr(self, t0: RealScalarLike, t1: RealScalarLike, **kwargs) -> _Control:
         _t0 = jnp.where(self.direction == 1, t0, -t1)
         _t1 = jnp.where(self.direction == 1, t1, -t0)
-        return (self.direction * self.term.contr(_t0, _t1, **kwargs) ** ω).ω
+        control = self.term.contr(_t0, _t1, **kwargs)
+        out = (self.direction * control**ω).ω
+        if isinstance(control, AbstractSpaceTimeLevyArea):
+            # Unlike the increment `W` (and `K`), space-time Lévy area is unchanged when
+            # traversing the path in the opposite direction.
+            out = eqx.tree_at(lambda c: c.H, out, control.H)
+        return out
 
     def prod(self, vf: _VF, control: _Control) -> Y:
         with jax.numpy_dtype_promotion("standard"):
-- 
2.43.0


From 64418fb42f07e372a25b551ac2a05a7832238f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:59 +0000
Subject: [PATCH 07/16] fix: pass the true time to events when solving
 backwards in time

With t1 < t0, the condition functions of an event were called with the internally
normalised (negated) time.
---
 diffrax/_integrate.py | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index d3fb48f..769b86b 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -216,6 +216,28 @@ def _assert_term_compatible(
         ) from e
 
 
+class _DirectionCondFn(eqx.Module):
+    # Time is normalised to be increasing inside the solve. This undoes that
+    # normalisation when calling into the condition function of an event.
+    cond_fn: Callable
+    direction: IntScalarLike
+
+    def __call__(self, t, y, args, *, terms, t0, t1, dt0, **kwargs):
+        terms = jtu.tree_map(
+            lambda x: x.term, terms, is_leaf=lambda x: isinstance(x, WrapTerm)
+        )
+        return self.cond_fn(
+            t * self.direction,
+            y,
+            args,
+            terms=terms,
+            t0=t0 * self.direction,
+            t1=t1 * self.direction,
+            dt0=None if dt0 is None else dt0 * self.direction,
+            **kwargs,
+        )
+
+
 def _is_subsaveat(x: Any) -> bool:
     return isinstance(x, SubSaveAt)
 
@@ -1248,6 +1270,17 @@ def diffeqsolve(
 
     saveat = jtu.tree_map(_subsaveat_direction_fn, saveat, is_leaf=_is_subsaveat)
 
+    if event is not None:
+        event = eqx.tree_at(
+            lambda e: e.cond_fn,
+            event,
+            jtu.tree_map(
+                lambda fn: _DirectionCondFn(fn, direction),
+                event.cond_fn,
+                is_leaf=callable,
+            ),
+        )
+
     # Initialise states
     tprev = t0
     error_order = solver.error_order(terms)
-- 
2.43.0


From 4529e3287d321aa04732d0e98636d5b02c14648d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:14 +0000
Subject: [PATCH 08/16] fix: round the very first step to t1 as is done for
 every later step

If t1 is also a jump time then the first step would end at prevbefore(t1), whilst later
steps are rounded to t1. Together with ClipStepSizeController(store_rejected_steps=...)
this resulted in an internal error.
---
 diffrax/_integrate.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index 769b86b..8356e8d 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -297,6 +297,14 @@ def _save(
     )
 
 
+def _get_t1_clip_floor(t1):
+    # Calculate in advance t1 - 100 ULP's: the threshold at which to round tnext to t1
+    t1_clip_floor = t1
+    for _ in range(100):
+        t1_clip_floor = eqxi.prevbefore(t1_clip_floor)
+    return t1_clip_floor
+
+
 def _clip_to_end(tprev, tnext, t1, t1_clip_floor, keep_step):
     # The tolerance of ~100 ULP's means that we don't end up with too-small intervals
     # for dense output, which then gives numerically unstable answers due to floating
@@ -338,10 +346,7 @@ def loop(
     outer_while_loop,
     progress_meter,
 ):
-    # Calculate in advance t1 - 100 ULP's: the threshold at which to round tnext to t1
-    t1_clip_floor = t1
-    for _ in range(100):
-        t1_clip_floor = eqxi.prevbefore(t1_clip_floor)
+    t1_clip_floor = _get_t1_clip_floor(t1)
 
     if saveat.dense:
         dense_ts = init_state.dense_ts
@@ -1297,7 +1302,9 @@ def diffeqsolve(
             )
         else:
             tnext = t0 + dt0
-    tnext = jnp.minimum(tnext, t1)
+    # As on every later step, round to `t1` if we are within a few ULPs of it. (For example
+    # if `t1` is also a jump time, then `tnext` may be `prevbefore(t1)`.)
+    tnext = _clip_to_end(tprev, tnext, t1, _get_t1_clip_floor(t1), keep_step=True)
     if solver_state is None:
         passed_solver_state = False
         solver_state = solver.init(terms, t0, tnext, y0, args)
-- 
2.43.0


From c6c775ca6ac4882b22e2f7564d53ecc58bcd64a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:38 +0000
Subject: [PATCH 09/16] fix: constant steps of dt0 even if it does not divide
 the interval

ConstantStepSize split the interval into ceil((t1 - t0) / dt0) pieces from the second step
onwards, so that the steps had different sizes unless dt0 divides t1 - t0 up to 1 ULP, e.g.
steps of 0.4, 0.267, 0.333 for t0=0, t1=1, dt0=0.4.
---
 diffrax/_step_size_controller/constant.py | 26 ++++++++++-------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/diffrax/_step_size_controller/constant.py b/diffrax/_step_size_controller/constant.py
index 0225286..08aa953 100644
--- a/diffrax/_step_size_controller/constant.py
+++ b/diffrax/_step_size_controller/constant.py
@@ -11,9 +11,9 @@ from .._term import AbstractTerm
 from .base import AbstractStepSizeController
 
 
-# ConstantStepSizeState = (steps_completed, num_steps, t0_sim, t1_sim_or_dt0)
+# ConstantStepSizeState = (steps_completed, num_steps, t0_sim, t1_sim, dt0)
 _ConstantStepSizeState = tuple[
-    IntScalarLike, IntScalarLike, RealScalarLike, RealScalarLike
+    IntScalarLike, IntScalarLike, RealScalarLike, RealScalarLike, RealScalarLike
 ]
 
 
@@ -51,8 +51,7 @@ class ConstantStepSize(
         # Use `num_steps=-1` as a marker to indicate that `diffeqsolve(..., t1=...)` is
         # infinite.
         num_steps = jnp.where(jnp.isfinite(t1), num_steps, -1)
-        t1_sim_or_dt0 = jnp.where(jnp.isfinite(t1), t1, dt0)
-        return t0 + dt0, (steps_completed, num_steps, t0, t1_sim_or_dt0)
+        return t0 + dt0, (steps_completed, num_steps, t0, t1, dt0)
 
     def adapt_step_size(
         self,
@@ -73,33 +72,30 @@ class ConstantStepSize(
         RESULTS,
     ]:
         del t0, y0, y1_candidate, args, y_error, error_order
-        steps_already_completed, num_steps, t0_sim, t1_sim_or_dt0 = controller_state
+        steps_already_completed, num_steps, t0_sim, t1_sim, dt0 = controller_state
         # Number of steps that will be completed when this function returns.
         steps_completed = steps_already_completed + 1
 
-        # Calculate step size by calculating fraction of `t1 - t0` -- rather than just
-        # adding up `dt0` multiple times -- to avoid compounding of truncation/rounding
-        # errors.
-        time_dtype = jnp.result_type(t0_sim, t1_sim_or_dt0)
-        t1_next = t0_sim + (t1_sim_or_dt0 - t0_sim) * (
-            jnp.astype(steps_completed, time_dtype) / jnp.astype(num_steps, time_dtype)
-        )
+        # Calculate the end of the step as a multiple of `dt0` -- rather than just adding
+        # up `dt0` multiple times -- to avoid compounding of truncation/rounding errors.
+        time_dtype = jnp.result_type(t0_sim, t1_sim)
+        t1_next = t0_sim + dt0 * jnp.astype(steps_completed, time_dtype)
 
         # If we're on the final step then use `t1` directly, this time to avoid
         # floating-point weirdness in the above. (Not sure if necessary?)
-        t1_next = jnp.where(steps_completed == num_steps, t1_sim_or_dt0, t1_next)
+        t1_next = jnp.where(steps_completed == num_steps, t1_sim, t1_next)
 
         # If `num_steps == -1` then we use that as a marker to indicate that we have an
         # infinite `diffeqsolve(..., t1=...)`. In this case then never mind everything
         # above, we really do just want to keep adding on `dt0` multiple times.
-        t1_next = jnp.where(num_steps >= 0, t1_next, t1 + t1_sim_or_dt0)
+        t1_next = jnp.where(num_steps >= 0, t1_next, t1 + dt0)
 
         return (
             True,
             t1,
             t1_next,
             False,
-            (steps_completed, num_steps, t0_sim, t1_sim_or_dt0),
+            (steps_completed, num_steps, t0_sim, t1_sim, dt0),
             RESULTS.successful,
         )
 
-- 
2.43.0


From bb843286f9d74f7c30624c9c5c733f9cf46fa2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:20 +0000
Subject: [PATCH 10/16] fix: reject ImplicitEuler steps whose root find failed,
 as documented

---
 diffrax/_solver/implicit_euler.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/diffrax/_solver/implicit_euler.py b/diffrax/_solver/implicit_euler.py
index 68477c7..e8754e2 100644
--- a/diffrax/_solver/implicit_euler.py
+++ b/diffrax/_solver/implicit_euler.py
@@ -1,6 +1,8 @@
 from collections.abc import Callable
 from typing import ClassVar, TypeAlias
 
+import jax.numpy as jnp
+import jax.tree_util as jtu
 import optimistix as optx
 from equinox.internal import ω
 
@@ -8,7 +10,7 @@ from .._custom_types import Args, BoolScalarLike, DenseInfo, RealScalarLike, VF,
 from .._heuristics import is_sde
 from .._local_interpolation import LocalLinearInterpolation
 from .._root_finder import with_stepsize_controller_tols
-from .._solution import RESULTS
+from .._solution import is_okay, RESULTS
 from .._term import AbstractTerm
 from .base import AbstractAdaptiveSolver, AbstractImplicitSolver
 
@@ -94,9 +96,13 @@ class ImplicitEuler(AbstractImplicitSolver, AbstractAdaptiveSolver):
         y1 = (y0**ω + k1**ω).ω
         # Use the trapezoidal rule for adaptive step sizing.
         y_error = (0.5 * (k1**ω - k0**ω)).ω
+        result = RESULTS.promote(nonlinear_sol.result)
+        y_error = jtu.tree_map(
+            lambda _y_error: jnp.where(is_okay(result), _y_error, jnp.inf),
+            y_error,
+        )  # i.e. an implicit step failed to converge
         dense_info = dict(y0=y0, y1=y1)
         solver_state = None
-        result = RESULTS.promote(nonlinear_sol.result)
         return y1, y_error, dense_info, solver_state, result
 
     def func(
-- 
2.43.0


From 29d5efc60d8fe4035e1c26a0ce5daebc3637bff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:24 +0000
Subject: [PATCH 11/16] fix: do not conjugate complex vector fields in
 ControlTerm (and backsolve)

---
 diffrax/_term.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffrax/_term.py b/diffrax/_term.py
index 27d247c..b6da6d2 100644
--- a/diffrax/_term.py
+++ b/diffrax/_term.py
@@ -266,7 +266,7 @@ def _callable_to_path(
 # control: Shaped[Array, "*control"]
 # return: Shaped[Array, "*state"]
 def _prod(vf, control):
-    return jnp.tensordot(jnp.conj(vf), control, axes=jnp.ndim(control))
+    return jnp.tensordot(vf, control, axes=jnp.ndim(control))
 
 
 class ControlTerm(AbstractTerm[_VF, _Control]):
-- 
2.43.0


From b0587d5b8361227d0ac94350a4a443f7d4a1fd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:55 +0000
Subject: [PATCH 12/16] fix: SaveAt(fn=...) with integer outputs and a
 root-finding event

---
 diffrax/_integrate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index 8356e8d..16f325c 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -832,7 +832,9 @@ def loop(
             _ts = jnp.where(mask, jnp.inf, ts)
             _ys = jtu.tree_map(
                 lambda __ys: jnp.where(
-                    mask[(...,) + (jnp.newaxis,) * (__ys.ndim - 1)], jnp.inf, __ys
+                    mask[(...,) + (jnp.newaxis,) * (__ys.ndim - 1)],
+                    jnp.full_like(__ys, jnp.inf),
+                    __ys,
                 ),
                 save_state.ys,
             )
-- 
2.43.0


From 8b5211ecca6f09071a50b9fb98f089821c6a02cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:11 +0000
Subject: [PATCH 13/16] fix: do not report a failed step as an event having
 occurred

---
 diffrax/_integrate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index 16f325c..e1f2318 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -653,8 +653,9 @@ def loop(
                 event_mask_leaves.append(event_mask_i & jnp.invert(had_event))
                 had_event = event_mask_i | had_event
             event_mask = jtu.tree_unflatten(event_structure, event_mask_leaves)
+            # An event does not hide a failure on the same step.
             result = RESULTS.where(
-                had_event,
+                had_event & is_okay(result),
                 RESULTS.event_occurred,
                 result,
             )
-- 
2.43.0


From cd78a936838007512be5cecbb459eb44dd43a3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:06 +0000
Subject: [PATCH 14/16] fix: final value of batch elements without an event, if
 others had one

---
 diffrax/_integrate.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index e1f2318..f688271 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -810,6 +810,12 @@ def loop(
                 result,
                 RESULTS.promote(_event_root_find.result),
             )
+            # Batch elements without an event stop where they got to. (In particular
+            # their most recent step may have been rejected.)
+            _tfinal = jnp.where(event_happened, _tfinal, final_state.tprev)
+            _yfinal = jtu.tree_map(
+                lambda a, b: jnp.where(event_happened, a, b), _yfinal, final_state.y
+            )
             return _tfinal, _yfinal, _result
 
         # Fastpath: if no event happened anywhere at all, then skip the root-find
-- 
2.43.0


From f708e9bf42205257bd0bea333c892df0670fb495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:43 +0000
Subject: [PATCH 15/16] fix: forward-mode autodiff of DirectAdjoint with SRK
 solvers

---
 diffrax/_adjoint.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/diffrax/_adjoint.py b/diffrax/_adjoint.py
index 7bc081b..3895952 100644
--- a/diffrax/_adjoint.py
+++ b/diffrax/_adjoint.py
@@ -384,8 +384,10 @@ class DirectAdjoint(AbstractAdjoint):
             isinstance(solver, (AbstractRungeKutta, AbstractSRK))
             and solver.scan_kind is None
         ):
+            # (`AbstractSRK` uses a scan, for which there is no `kind="bounded"`.)
+            scan_kind = "lax" if isinstance(solver, AbstractSRK) else "bounded"
             solver = eqx.tree_at(
-                lambda s: s.scan_kind, solver, "bounded", is_leaf=_is_none
+                lambda s: s.scan_kind, solver, scan_kind, is_leaf=_is_none
             )
         inner_while_loop = ft.partial(_inner_loop, kind=kind)
         outer_while_loop = ft.partial(_outer_loop, kind=kind)
-- 
2.43.0


From fa37251d253d2b8d33268a9c0496320109515bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:53 +0000
Subject: [PATCH 16/16] fix: HalfSolver around implicit solvers and under
 forward-mode autodiff

---
 diffrax/_adjoint.py     | 14 ++++++++++----
 diffrax/_integrate.py   | 15 +++++++++------
 diffrax/_solver/base.py |  9 +++++++++
 3 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/diffrax/_adjoint.py b/diffrax/_adjoint.py
index 3895952..997474f 100644
--- a/diffrax/_adjoint.py
+++ b/diffrax/_adjoint.py
@@ -22,6 +22,7 @@ from ._solver import (
     AbstractSRK,
     AbstractStratonovichSolver,
 )
+from ._solver.base import unwrap_solver
 from ._term import AbstractTerm, AdjointTerm
 
 
@@ -382,12 +383,15 @@ class DirectAdjoint(AbstractAdjoint):
         # TODO: remove this hack once we can JVP through custom_vjps.
         if (
             isinstance(solver, (AbstractRungeKutta, AbstractSRK))
-            and solver.scan_kind is None
+            and unwrap_solver(solver).scan_kind is None
         ):
             # (`AbstractSRK` uses a scan, for which there is no `kind="bounded"`.)
             scan_kind = "lax" if isinstance(solver, AbstractSRK) else "bounded"
             solver = eqx.tree_at(
-                lambda s: s.scan_kind, solver, scan_kind, is_leaf=_is_none
+                lambda s: unwrap_solver(s).scan_kind,
+                solver,
+                scan_kind,
+                is_leaf=_is_none,
             )
         inner_while_loop = ft.partial(_inner_loop, kind=kind)
         outer_while_loop = ft.partial(_outer_loop, kind=kind)
@@ -907,9 +911,11 @@ class ForwardMode(AbstractAdjoint):
         # TODO: remove this hack once we can JVP through custom_vjps.
         if (
             isinstance(solver, (AbstractRungeKutta, AbstractSRK))
-            and solver.scan_kind is None
+            and unwrap_solver(solver).scan_kind is None
         ):
-            solver = eqx.tree_at(lambda s: s.scan_kind, solver, "lax", is_leaf=_is_none)
+            solver = eqx.tree_at(
+                lambda s: unwrap_solver(s).scan_kind, solver, "lax", is_leaf=_is_none
+            )
         final_state = self._loop(
             solver=solver,
             inner_while_loop=inner_while_loop,
diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index f688271..8ed1cc2 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -55,6 +55,7 @@ from ._solver import (
     ItoMilstein,
     StratonovichMilstein,
 )
+from ._solver.base import unwrap_solver
 from ._step_size_controller import (
     AbstractAdaptiveStepSizeController,
     AbstractStepSizeController,
@@ -1214,25 +1215,27 @@ def diffeqsolve(
     )
 
     if isinstance(solver, AbstractImplicitSolver):
+        # (`solver` may be e.g. a `HalfSolver` wrapping an implicit solver.)
+        _get_root_finder = lambda s: (
+            cast(AbstractImplicitSolver, unwrap_solver(s)).root_finder
+        )
+        root_finder = _get_root_finder(solver)
 
         def _get_tols(x):
             outs = []
             for attr in ("rtol", "atol", "norm"):
-                if (
-                    getattr(cast(AbstractImplicitSolver, solver).root_finder, attr)
-                    is use_stepsize_tol
-                ):
+                if getattr(root_finder, attr) is use_stepsize_tol:
                     outs.append(getattr(x, attr))
             return tuple(outs)
 
         if isinstance(stepsize_controller, AbstractAdaptiveStepSizeController):
             solver = eqx.tree_at(
-                lambda s: _get_tols(s.root_finder),
+                lambda s: _get_tols(_get_root_finder(s)),
                 solver,
                 _get_tols(stepsize_controller),
             )
         else:
-            if len(_get_tols(solver.root_finder)) > 0:
+            if len(_get_tols(root_finder)) > 0:
                 raise ValueError(
                     "A fixed step size controller is being used alongside an implicit "
                     "solver, but the tolerances for the implicit solver have not been "
diff --git a/diffrax/_solver/base.py b/diffrax/_solver/base.py
index d4a476e..c4cd289 100644
--- a/diffrax/_solver/base.py
+++ b/diffrax/_solver/base.py
@@ -2,6 +2,7 @@ import abc
 from collections.abc import Callable
 from typing import (
     Any,
+    cast,
     ClassVar,
     Generic,
     get_args,
@@ -247,6 +248,14 @@ class AbstractWrappedSolver(AbstractSolver[_SolverState]):
     solver: AbstractVar[AbstractSolver]
 
 
+def unwrap_solver(solver: AbstractSolver) -> AbstractSolver:
+    """The innermost wrapped solver: the one which has the attributes of whichever
+    class an `isinstance` check was forwarded to."""
+    while issubclass(type(solver), AbstractWrappedSolver):
+        solver = cast(AbstractWrappedSolver, solver).solver
+    return solver
+
+
 class HalfSolver(
     AbstractAdaptiveSolver[_SolverState], AbstractWrappedSolver[_SolverState]
 ):
-- 
2.43.0

