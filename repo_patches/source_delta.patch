From 5c92ca24343a0714bd6377d9ffc15d915ee9b22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:12 +0000
Subject: [PATCH 01/23] fix: evaluate(t0, t1) of local interpolations on
 PyTree-valued states

---
 diffrax/_local_interpolation.py | 4 ++--
 diffrax/_solver/dopri8.py       | 2 +-
 diffrax/_solver/kencarp3.py     | 2 +-
 diffrax/_solver/tsit5.py        | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/diffrax/_local_interpolation.py b/diffrax/_local_interpolation.py
index 1f35d1d..70219c2 100644
--- a/diffrax/_local_interpolation.py
+++ b/diffrax/_local_interpolation.py
@@ -81,7 +81,7 @@ class ThirdOrderHermitePolynomialInterpolation(AbstractLocalInterpolation):
     ) -> PyTree[Array]:
         del left
         if t1 is not None:
-            return self.evaluate(t1) - self.evaluate(t0)
+            return (self.evaluate(t1) ** ω - self.evaluate(t0) ** ω).ω
 
         t = linear_rescale(self.t0, t0, self.t1)
 
@@ -128,7 +128,7 @@ class FourthOrderPolynomialInterpolation(AbstractLocalInterpolation):
     ) -> PyTree[Array]:
         del left
         if t1 is not None:
-            return self.evaluate(t1) - self.evaluate(t0)
+            return (self.evaluate(t1) ** ω - self.evaluate(t0) ** ω).ω
 
         t = linear_rescale(self.t0, t0, self.t1)
 
diff --git a/diffrax/_solver/dopri8.py b/diffrax/_solver/dopri8.py
index 958d881..0f38e7a 100644
--- a/diffrax/_solver/dopri8.py
+++ b/diffrax/_solver/dopri8.py
@@ -296,7 +296,7 @@ class _Dopri8Interpolation(AbstractLocalInterpolation):
     ) -> Y:
         del left
         if t1 is not None:
-            return self.evaluate(t1) - self.evaluate(t0)
+            return (self.evaluate(t1) ** ω - self.evaluate(t0) ** ω).ω
         t = linear_rescale(self.t0, t0, self.t1)
         coeffs = _vmap_polyval(jnp.asarray(self.eval_coeffs, dtype=t.dtype), t) * t
         with jax.numpy_dtype_promotion("standard"):
diff --git a/diffrax/_solver/kencarp3.py b/diffrax/_solver/kencarp3.py
index cda0448..6bcb8d4 100644
--- a/diffrax/_solver/kencarp3.py
+++ b/diffrax/_solver/kencarp3.py
@@ -112,7 +112,7 @@ class KenCarpInterpolation(AbstractLocalInterpolation):
     ) -> PyTree:
         del left
         if t1 is not None:
-            return self.evaluate(t1) - self.evaluate(t0)
+            return (self.evaluate(t1) ** ω - self.evaluate(t0) ** ω).ω
 
         t = linear_rescale(self.t0, t0, self.t1)
         explicit_k, implicit_k = self.k
diff --git a/diffrax/_solver/tsit5.py b/diffrax/_solver/tsit5.py
index 7dc7a14..789e9ce 100644
--- a/diffrax/_solver/tsit5.py
+++ b/diffrax/_solver/tsit5.py
@@ -118,7 +118,7 @@ class _Tsit5Interpolation(AbstractLocalInterpolation):
     ) -> Y:
         del left
         if t1 is not None:
-            return self.evaluate(t1) - self.evaluate(t0)
+            return (self.evaluate(t1) ** ω - self.evaluate(t0) ** ω).ω
 
         t = linear_rescale(self.t0, t0, self.t1)
 
-- 
2.43.0


From 7ff870aa88d2ab7d8d5e7e02299d3607a679f86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:12 +0000
Subject: [PATCH 02/23] fix: evaluate(t0, t1) of global interpolations on
 PyTree-valued data

---
 diffrax/_global_interpolation.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/diffrax/_global_interpolation.py b/diffrax/_global_interpolation.py
index 278d7c5..c0fb44b 100644
--- a/diffrax/_global_interpolation.py
+++ b/diffrax/_global_interpolation.py
@@ -131,7 +131,9 @@ class LinearInterpolation(AbstractGlobalInterpolation):
         """
 
         if t1 is not None:
-            return self.evaluate(t1, left=left) - self.evaluate(t0, left=left)
+            return (
+                self.evaluate(t1, left=left) ** ω - self.evaluate(t0, left=left) ** ω
+            ).ω
         index, fractional_part = self._interpret_t(t0, left)
 
         def _index(_ys):
@@ -253,7 +255,9 @@ class CubicInterpolation(AbstractGlobalInterpolation):
         """
 
         if t1 is not None:
-            return self.evaluate(t1, left=left) - self.evaluate(t0, left=left)
+            return (
+                self.evaluate(t1, left=left) ** ω - self.evaluate(t0, left=left) ** ω
+            ).ω
         index, frac = self._interpret_t(t0, left)
 
         d, c, b, a = self.coeffs
@@ -344,7 +348,9 @@ class DenseInterpolation(AbstractGlobalInterpolation):
         self, t0: RealScalarLike, t1: RealScalarLike | None = None, left: bool = True
     ) -> PyTree[Shaped[Array, "?*shape"], "Y"]:
         if t1 is not None:
-            return self.evaluate(t1, left=left) - self.evaluate(t0, left=left)
+            return (
+                self.evaluate(t1, left=left) ** ω - self.evaluate(t0, left=left) ** ω
+            ).ω
         t = t0 * self.direction
         t_bounded = self._nan_if_out_of_bounds(t)
         out = self._get_local_interpolation(t_bounded, left).evaluate(
-- 
2.43.0


From f73b6407cb1f0d191db976711c6f7cdb0866ddb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:12 +0000
Subject: [PATCH 03/23] fix: an event on the step on which the solve fails no
 longer hides the failure

---
 diffrax/_integrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index 8241fa9..b59d033 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -627,7 +627,7 @@ def loop(
                 had_event = event_mask_i | had_event
             event_mask = jtu.tree_unflatten(event_structure, event_mask_leaves)
             result = RESULTS.where(
-                had_event,
+                is_okay(result) & had_event,
                 RESULTS.event_occurred,
                 result,
             )
-- 
2.43.0


From c02e41fce16366dd7b501a7062c918a9503cd9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:12 +0000
Subject: [PATCH 04/23] fix: times deleted after an event are `inf`, also when
 solving backwards in time

---
 diffrax/_integrate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index b59d033..0ff66d8 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -1478,7 +1478,10 @@ def diffeqsolve(
     progress_meter.close(final_state.progress_meter_state)
     is_save_state = lambda x: isinstance(x, SaveState)
     ts = jtu.tree_map(
-        lambda s: s.ts * direction, final_state.save_state, is_leaf=is_save_state
+        # Unused (`direction * inf`) and deleted (`inf`) entries are both set to `inf`.
+        lambda s: jnp.where(jnp.isposinf(s.ts), s.ts, s.ts * direction),
+        final_state.save_state,
+        is_leaf=is_save_state,
     )
     ys = jtu.tree_map(lambda s: s.ys, final_state.save_state, is_leaf=is_save_state)
 
-- 
2.43.0


From f18539434db9c8bd2d61217a465591678d345f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:16 +0000
Subject: [PATCH 05/23] fix: save the final value with `SaveAt(steps=...,
 t1=True)` when no step is taken

---
 diffrax/_integrate.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index 0ff66d8..0e570f2 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -850,13 +850,15 @@ def loop(
             # so we might need to save it via `t1`.
             t1_saved_via_steps = False
         elif subsaveat.steps == 1:
-            # We're definitely saving the final value via `steps`,
-            # so we can skip saving it via `t1`.
-            t1_saved_via_steps = True
+            # We're definitely saving the final value via `steps` (provided we took a
+            # step at all), so we can skip saving it via `t1`.
+            t1_saved_via_steps = final_state.num_accepted_steps > 0
         else:
             # We might be saving the final value via `steps`,
             # so we might need to save it via `t1`.
-            t1_saved_via_steps = final_state.num_accepted_steps % subsaveat.steps == 0
+            t1_saved_via_steps = (final_state.num_accepted_steps > 0) & (
+                final_state.num_accepted_steps % subsaveat.steps == 0
+            )
         if event is None or event.root_finder is None:
             if type(t1_saved_via_steps) is bool:
                 t1_not_saved_via_steps = not t1_saved_via_steps
-- 
2.43.0


From 67c5822816b553bfbe6b5833f77fdb2af8a49f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:16 +0000
Subject: [PATCH 06/23] fix: do not save the final value twice with
 `SaveAt(steps=...)` and a root-finding event

---
 diffrax/_integrate.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index 0e570f2..a255168 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -867,9 +867,13 @@ def loop(
             pred = subsaveat.t1 & t1_not_saved_via_steps
         else:
             # If we're using an event with a root finder, and are saving steps,
-            # then we need to write the final value here because we deleted the
-            # last value after the event time above.
-            pred = subsaveat.t1 | t1_saved_via_steps
+            # then we need to write the final value here if we deleted the last value
+            # after the event time above.
+            if type(t1_saved_via_steps) is bool:
+                pred = subsaveat.t1
+            else:
+                deleted = final_state.tprev > tfinal
+                pred = jnp.where(t1_saved_via_steps, deleted, subsaveat.t1)
         if pred is not False:
             save_state = _save(
                 tfinal, yfinal, args, subsaveat.fn, save_state, repeat=1, pred=pred
-- 
2.43.0


From ce32f6775936b2567f4f76bd3308c06f7bfac663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:11 +0000
Subject: [PATCH 07/23] fix: VirtualBrownianTree reports the right dt for
 multi-leaf shapes

---
 diffrax/_brownian/tree.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/diffrax/_brownian/tree.py b/diffrax/_brownian/tree.py
index 8a43066..ea61020 100644
--- a/diffrax/_brownian/tree.py
+++ b/diffrax/_brownian/tree.py
@@ -314,13 +314,10 @@ class VirtualBrownianTree(AbstractBrownianPath):
             dtype = jnp.result_type(z)
             return jnp.astype(sqrt_len, dtype) * z
 
-        def is_dt(z):
-            return z is x.dt
-
-        dt, other = eqx.partition(x, is_dt)
-        dt_normalized = jtu.tree_map(mult, dt)
-        other_normalized = jtu.tree_map(sqrt_mult, other)
-        return eqx.combine(dt_normalized, other_normalized)
+        # `x.dt` is a PyTree with the same structure as `self.shape`.
+        dt_normalized = jtu.tree_map(mult, x.dt)
+        other_normalized = jtu.tree_map(sqrt_mult, x)
+        return eqx.tree_at(lambda z: z.dt, other_normalized, dt_normalized)
 
     @eqx.filter_jit
     def evaluate(
-- 
2.43.0


From 9d4e9c0ef21249d9c4ada6a3a8c158730ca57481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:21 +0000
Subject: [PATCH 08/23] fix: constant steps have size dt0 also when dt0 does
 not divide the interval

---
 diffrax/_step_size_controller/constant.py | 26 +++++++++++------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/diffrax/_step_size_controller/constant.py b/diffrax/_step_size_controller/constant.py
index 0225286..af72d86 100644
--- a/diffrax/_step_size_controller/constant.py
+++ b/diffrax/_step_size_controller/constant.py
@@ -11,9 +11,9 @@ from .._term import AbstractTerm
 from .base import AbstractStepSizeController
 
 
-# ConstantStepSizeState = (steps_completed, num_steps, t0_sim, t1_sim_or_dt0)
+# ConstantStepSizeState = (steps_completed, num_steps, t0_sim, t1_sim, dt0)
 _ConstantStepSizeState = tuple[
-    IntScalarLike, IntScalarLike, RealScalarLike, RealScalarLike
+    IntScalarLike, IntScalarLike, RealScalarLike, RealScalarLike, RealScalarLike
 ]
 
 
@@ -51,8 +51,7 @@ class ConstantStepSize(
         # Use `num_steps=-1` as a marker to indicate that `diffeqsolve(..., t1=...)` is
         # infinite.
         num_steps = jnp.where(jnp.isfinite(t1), num_steps, -1)
-        t1_sim_or_dt0 = jnp.where(jnp.isfinite(t1), t1, dt0)
-        return t0 + dt0, (steps_completed, num_steps, t0, t1_sim_or_dt0)
+        return t0 + dt0, (steps_completed, num_steps, t0, t1, dt0)
 
     def adapt_step_size(
         self,
@@ -73,33 +72,32 @@ class ConstantStepSize(
         RESULTS,
     ]:
         del t0, y0, y1_candidate, args, y_error, error_order
-        steps_already_completed, num_steps, t0_sim, t1_sim_or_dt0 = controller_state
+        steps_already_completed, num_steps, t0_sim, t1_sim, dt0 = controller_state
         # Number of steps that will be completed when this function returns.
         steps_completed = steps_already_completed + 1
 
-        # Calculate step size by calculating fraction of `t1 - t0` -- rather than just
+        # Calculate the end of the step as a multiple of `dt0` -- rather than just
         # adding up `dt0` multiple times -- to avoid compounding of truncation/rounding
-        # errors.
-        time_dtype = jnp.result_type(t0_sim, t1_sim_or_dt0)
-        t1_next = t0_sim + (t1_sim_or_dt0 - t0_sim) * (
-            jnp.astype(steps_completed, time_dtype) / jnp.astype(num_steps, time_dtype)
-        )
+        # errors. (And not as a fraction of `t1 - t0`, which need not be a multiple of
+        # `dt0`: then only the final step is shorter.)
+        time_dtype = jnp.result_type(t0_sim, dt0)
+        t1_next = t0_sim + dt0 * jnp.astype(steps_completed, time_dtype)
 
         # If we're on the final step then use `t1` directly, this time to avoid
         # floating-point weirdness in the above. (Not sure if necessary?)
-        t1_next = jnp.where(steps_completed == num_steps, t1_sim_or_dt0, t1_next)
+        t1_next = jnp.where(steps_completed == num_steps, t1_sim, t1_next)
 
         # If `num_steps == -1` then we use that as a marker to indicate that we have an
         # infinite `diffeqsolve(..., t1=...)`. In this case then never mind everything
         # above, we really do just want to keep adding on `dt0` multiple times.
-        t1_next = jnp.where(num_steps >= 0, t1_next, t1 + t1_sim_or_dt0)
+        t1_next = jnp.where(num_steps >= 0, t1_next, t1 + dt0)
 
         return (
             True,
             t1,
             t1_next,
             False,
-            (steps_completed, num_steps, t0_sim, t1_sim_or_dt0),
+            (steps_completed, num_steps, t0_sim, t1_sim, dt0),
             RESULTS.successful,
         )
 
-- 
2.43.0


From 17b7b0d1a96c5790708e8082ae54052f43979f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:07 +0000
Subject: [PATCH 09/23] =?UTF-8?q?fix:=20space-time=20L=C3=A9vy=20area=20is?=
 =?UTF-8?q?=20invariant=20under=20time-reversal,=20when=20solving=20backwa?=
 =?UTF-8?q?rds=20in=20time?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 diffrax/_term.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/diffrax/_term.py b/diffrax/_term.py
index 9b0c031..a2a8dae 100644
--- a/diffrax/_term.py
+++ b/diffrax/_term.py
@@ -17,6 +17,7 @@ from jaxtyping import Array, ArrayLike, PyTree, Shaped
 from ._brownian import AbstractBrownianPath
 from ._custom_types import (
     AbstractBrownianIncrement,
+    AbstractSpaceTimeLevyArea,
     Args,
     Control,
     IntScalarLike,
@@ -742,7 +743,20 @@ class WrapTerm(AbstractTerm[_VF, _Control]):
     def contr(self, t0: RealScalarLike, t1: RealScalarLike, **kwargs) -> _Control:
         _t0 = jnp.where(self.direction == 1, t0, -t1)
         _t1 = jnp.where(self.direction == 1, t1, -t0)
-        return (self.direction * self.term.contr(_t0, _t1, **kwargs) ** ω).ω
+        control = self.term.contr(_t0, _t1, **kwargs)
+        out = (self.direction * control**ω).ω
+
+        # The length of the interval, and the space-time Lévy area, are both invariant
+        # under time-reversal. (Everything else changes sign.)
+        def _fix_levy(x, original):
+            if isinstance(x, AbstractBrownianIncrement):
+                x = eqx.tree_at(lambda b: b.dt, x, original.dt)
+            if isinstance(x, AbstractSpaceTimeLevyArea):
+                x = eqx.tree_at(lambda b: b.H, x, original.H)
+            return x
+
+        is_increment = lambda x: isinstance(x, AbstractBrownianIncrement)
+        return jtu.tree_map(_fix_levy, out, control, is_leaf=is_increment)
 
     def prod(self, vf: _VF, control: _Control) -> Y:
         with jax.numpy_dtype_promotion("standard"):
-- 
2.43.0


From 51986379e05be14cc074422173b4a41c5fafd3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:03 +0000
Subject: [PATCH 10/23] fix: event functions receive times in the original
 direction when solving backwards in time

---
 diffrax/_integrate.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index a255168..9e5e636 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -284,6 +284,27 @@ def _clip_to_end(tprev, tnext, t1, t1_clip_floor, keep_step):
     return jnp.where(clip, tclip, tnext)
 
 
+class _WrapCondFn(eqx.Module):
+    # Events are evaluated in normalised time, but should be passed the original times
+    # and terms. (`cond_fn` may itself evaluate the terms, e.g. `steady_state_event`.)
+    cond_fn: Callable
+    direction: IntScalarLike
+
+    def __call__(self, t, y, args, *, terms, t0, t1, dt0, **kwargs):
+        return self.cond_fn(
+            t * self.direction,
+            y,
+            args,
+            terms=jtu.tree_map(
+                lambda x: x.term, terms, is_leaf=lambda x: isinstance(x, WrapTerm)
+            ),
+            t0=t0 * self.direction,
+            t1=t1 * self.direction,
+            dt0=None if dt0 is None else dt0 * self.direction,
+            **kwargs,
+        )
+
+
 def _maybe_static(static_x: ArrayLike | None, x: ArrayLike) -> ArrayLike:
     # Some values (made_jump and result) are not used in many common use-cases. If we
     # detect that they're unused then we make sure they're non-Array Python values, so
@@ -1181,6 +1202,15 @@ def diffeqsolve(
         is_leaf=lambda x: isinstance(x, AbstractTerm) and not isinstance(x, MultiTerm),
     )
 
+    if event is not None:
+        event = eqx.tree_at(
+            lambda e: e.cond_fn,
+            event,
+            jtu.tree_map(
+                lambda f: _WrapCondFn(f, direction), event.cond_fn, is_leaf=callable
+            ),
+        )
+
     if isinstance(solver, AbstractImplicitSolver):
 
         def _get_tols(x):
-- 
2.43.0


From 1dd64cd1a83873f801ff0504dbb0c26872b7cac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:41 +0000
Subject: [PATCH 11/23] fix: a failed event root-find does not hide an earlier
 failure of the solve

---
 diffrax/_integrate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index 9e5e636..2d5569f 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -798,8 +798,10 @@ def loop(
                 lambda: final_state.y,
                 lambda: _interpolator.evaluate(_tfinal),
             )
+            # (If the solve has already failed, then that is the failure to report.)
             _result = RESULTS.where(
-                _event_root_find.result == optx.RESULTS.successful,
+                (_event_root_find.result == optx.RESULTS.successful)
+                | jnp.invert(is_okay(result)),
                 result,
                 RESULTS.promote(_event_root_find.result),
             )
-- 
2.43.0


From 1b0485694b1d3d0aa8cf99a5a39231f74d5c1ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:29 +0000
Subject: [PATCH 12/23] fix: constant steps keep their size when a solve is
 resumed with its controller state

---
 diffrax/_step_size_controller/constant.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/diffrax/_step_size_controller/constant.py b/diffrax/_step_size_controller/constant.py
index af72d86..0a31469 100644
--- a/diffrax/_step_size_controller/constant.py
+++ b/diffrax/_step_size_controller/constant.py
@@ -90,7 +90,9 @@ class ConstantStepSize(
         # If `num_steps == -1` then we use that as a marker to indicate that we have an
         # infinite `diffeqsolve(..., t1=...)`. In this case then never mind everything
         # above, we really do just want to keep adding on `dt0` multiple times.
-        t1_next = jnp.where(num_steps >= 0, t1_next, t1 + dt0)
+        # Likewise if we are past the final step, i.e. this is a later `diffeqsolve`
+        # that has been passed our `controller_state`.
+        t1_next = jnp.where(steps_completed <= num_steps, t1_next, t1 + dt0)
 
         return (
             True,
-- 
2.43.0


From 9fff95d49dcfd77108437d7eb3a2fdecdad30409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:04 +0000
Subject: [PATCH 13/23] fix: StepTo takes the prescribed steps also when passed
 the controller state of an earlier solve

---
 diffrax/_step_size_controller/constant.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/diffrax/_step_size_controller/constant.py b/diffrax/_step_size_controller/constant.py
index 0a31469..ab1c30c 100644
--- a/diffrax/_step_size_controller/constant.py
+++ b/diffrax/_step_size_controller/constant.py
@@ -168,10 +168,13 @@ class StepTo(AbstractStepSizeController[IntScalarLike, None]):
         controller_state: IntScalarLike,
     ) -> tuple[bool, RealScalarLike, RealScalarLike, bool, IntScalarLike, RESULTS]:
         del t0, y0, y1_candidate, args, y_error, error_order
+        # Find the next time by lookup, not via `controller_state`: the latter may have
+        # been passed from an earlier `diffeqsolve` with different `ts`.
+        next_index = jnp.searchsorted(self.ts, t1, side="right")
         return (
             True,
             t1,
-            self.ts[controller_state],
+            self.ts[next_index],
             False,
             controller_state + 1,
             RESULTS.successful,
-- 
2.43.0


From b3bb6fedfb2a05800b1f74cba92010ae5ac85449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:43 +0000
Subject: [PATCH 14/23] fix: implicit solvers wrapped in HalfSolver take their
 tolerances from the step size controller

isinstance checks are forwarded to the wrapped solver, so that diffeqsolve looked for
root_finder on the wrapper and raised an AttributeError. Also forward isinstance checks
through nested wrappers.
---
 diffrax/_integrate.py   | 15 +++++++++------
 diffrax/_solver/base.py |  5 ++---
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index 2d5569f..73ed560 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -1215,24 +1215,27 @@ def diffeqsolve(
 
     if isinstance(solver, AbstractImplicitSolver):
 
+        def _get_root_finder(s):
+            # `s` may be an `AbstractWrappedSolver` around an implicit solver.
+            while not hasattr(s, "root_finder"):
+                s = s.solver
+            return s.root_finder
+
         def _get_tols(x):
             outs = []
             for attr in ("rtol", "atol", "norm"):
-                if (
-                    getattr(cast(AbstractImplicitSolver, solver).root_finder, attr)
-                    is use_stepsize_tol
-                ):
+                if getattr(_get_root_finder(solver), attr) is use_stepsize_tol:
                     outs.append(getattr(x, attr))
             return tuple(outs)
 
         if isinstance(stepsize_controller, AbstractAdaptiveStepSizeController):
             solver = eqx.tree_at(
-                lambda s: _get_tols(s.root_finder),
+                lambda s: _get_tols(_get_root_finder(s)),
                 solver,
                 _get_tols(stepsize_controller),
             )
         else:
-            if len(_get_tols(solver.root_finder)) > 0:
+            if len(_get_tols(_get_root_finder(solver))) > 0:
                 raise ValueError(
                     "A fixed step size controller is being used alongside an implicit "
                     "solver, but the tolerances for the implicit solver have not been "
diff --git a/diffrax/_solver/base.py b/diffrax/_solver/base.py
index d4a476e..f4e2845 100644
--- a/diffrax/_solver/base.py
+++ b/diffrax/_solver/base.py
@@ -45,9 +45,8 @@ class _MetaAbstractSolver(type(eqx.Module), type):
     def __instancecheck__(cls, obj):
         if super(_MetaAbstractSolver, AbstractWrappedSolver).__instancecheck__(obj):  # pyright: ignore
             # Either one will suffice.
-            return super().__instancecheck__(obj) or super().__instancecheck__(
-                obj.solver
-            )
+            # (Recursively: the wrapped solver may itself be a wrapper.)
+            return super().__instancecheck__(obj) or isinstance(obj.solver, cls)
         else:
             return super().__instancecheck__(obj)
 
-- 
2.43.0


From 77fcf6e36ae73d2be639b81c2f744d08a8194a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:43 +0000
Subject: [PATCH 15/23] fix: reject steps whose implicit solve failed in
 ImplicitEuler and HalfSolver

As in the Runge-Kutta solvers: the error estimate of such a step is meaningless, and
the failure would otherwise be accepted and end the whole solve rather than being retried
with a smaller step.
---
 diffrax/_solver/base.py           | 7 ++++++-
 diffrax/_solver/implicit_euler.py | 8 +++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/diffrax/_solver/base.py b/diffrax/_solver/base.py
index f4e2845..8142f08 100644
--- a/diffrax/_solver/base.py
+++ b/diffrax/_solver/base.py
@@ -27,7 +27,7 @@ from jaxtyping import PyTree
 from .._custom_types import Args, BoolScalarLike, DenseInfo, RealScalarLike, VF, Y
 from .._heuristics import is_sde
 from .._local_interpolation import AbstractLocalInterpolation
-from .._solution import RESULTS, update_result
+from .._solution import is_okay, RESULTS, update_result
 from .._term import AbstractTerm, MultiTerm
 
 
@@ -336,6 +336,11 @@ class HalfSolver(
 
         y_error = (y1**ω - y1_alt**ω).call(jnp.abs).ω
         result = update_result(result1, update_result(result2, result3))
+        # If any of the substeps failed (e.g. an implicit step failed to converge) then
+        # have the overall step be rejected.
+        y_error = jtu.tree_map(
+            lambda e: jnp.where(is_okay(result), e, jnp.inf), y_error
+        )
 
         return y1, y_error, dense_info, solver_state, result
 
diff --git a/diffrax/_solver/implicit_euler.py b/diffrax/_solver/implicit_euler.py
index 68477c7..3b94197 100644
--- a/diffrax/_solver/implicit_euler.py
+++ b/diffrax/_solver/implicit_euler.py
@@ -1,6 +1,8 @@
 from collections.abc import Callable
 from typing import ClassVar, TypeAlias
 
+import jax.numpy as jnp
+import jax.tree_util as jtu
 import optimistix as optx
 from equinox.internal import ω
 
@@ -8,7 +10,7 @@ from .._custom_types import Args, BoolScalarLike, DenseInfo, RealScalarLike, VF,
 from .._heuristics import is_sde
 from .._local_interpolation import LocalLinearInterpolation
 from .._root_finder import with_stepsize_controller_tols
-from .._solution import RESULTS
+from .._solution import is_okay, RESULTS
 from .._term import AbstractTerm
 from .base import AbstractAdaptiveSolver, AbstractImplicitSolver
 
@@ -97,6 +99,10 @@ class ImplicitEuler(AbstractImplicitSolver, AbstractAdaptiveSolver):
         dense_info = dict(y0=y0, y1=y1)
         solver_state = None
         result = RESULTS.promote(nonlinear_sol.result)
+        # If the implicit step failed to converge then have it be rejected.
+        y_error = jtu.tree_map(
+            lambda e: jnp.where(is_okay(result), e, jnp.inf), y_error
+        )
         return y1, y_error, dense_info, solver_state, result
 
     def func(
-- 
2.43.0


From 17429b4a436246d73e4ae91fbe0db389a1830fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:43 +0000
Subject: [PATCH 16/23] fix: DirectAdjoint and ForwardMode with a wrapped
 Runge-Kutta solver

HalfSolver(Heun()) is an instance of AbstractRungeKutta but has no scan_kind of its own.
---
 diffrax/_adjoint.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/diffrax/_adjoint.py b/diffrax/_adjoint.py
index 7bc081b..09c9424 100644
--- a/diffrax/_adjoint.py
+++ b/diffrax/_adjoint.py
@@ -115,6 +115,13 @@ def _only_transpose_ys(final_state):
     return final_state
 
 
+def _get_scan_kind(solver):
+    # `solver` may be an `AbstractWrappedSolver` around a Runge--Kutta method.
+    while not hasattr(solver, "scan_kind"):
+        solver = solver.solver
+    return solver.scan_kind
+
+
 class AbstractAdjoint(eqx.Module):
     """Abstract base class for all adjoint methods."""
 
@@ -382,11 +389,9 @@ class DirectAdjoint(AbstractAdjoint):
         # TODO: remove this hack once we can JVP through custom_vjps.
         if (
             isinstance(solver, (AbstractRungeKutta, AbstractSRK))
-            and solver.scan_kind is None
+            and _get_scan_kind(solver) is None
         ):
-            solver = eqx.tree_at(
-                lambda s: s.scan_kind, solver, "bounded", is_leaf=_is_none
-            )
+            solver = eqx.tree_at(_get_scan_kind, solver, "bounded", is_leaf=_is_none)
         inner_while_loop = ft.partial(_inner_loop, kind=kind)
         outer_while_loop = ft.partial(_outer_loop, kind=kind)
         final_state = self._loop(
@@ -905,9 +910,9 @@ class ForwardMode(AbstractAdjoint):
         # TODO: remove this hack once we can JVP through custom_vjps.
         if (
             isinstance(solver, (AbstractRungeKutta, AbstractSRK))
-            and solver.scan_kind is None
+            and _get_scan_kind(solver) is None
         ):
-            solver = eqx.tree_at(lambda s: s.scan_kind, solver, "lax", is_leaf=_is_none)
+            solver = eqx.tree_at(_get_scan_kind, solver, "lax", is_leaf=_is_none)
         final_state = self._loop(
             solver=solver,
             inner_while_loop=inner_while_loop,
-- 
2.43.0


From 54ce9d22229e4710170ade5ba309a197f8990a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:16 +0000
Subject: [PATCH 17/23] fix: select Langevin coefficient formulas by the size
 of the step, not its sign

---
 diffrax/_solver/foster_langevin_srk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffrax/_solver/foster_langevin_srk.py b/diffrax/_solver/foster_langevin_srk.py
index ea1026f..09c9acb 100644
--- a/diffrax/_solver/foster_langevin_srk.py
+++ b/diffrax/_solver/foster_langevin_srk.py
@@ -197,7 +197,7 @@ class AbstractFosterLangevinSRK(
             # c is a leaf of gamma
             # Depending on the size of h*gamma choose whether the Taylor expansion or
             # direct computation is more accurate.
-            cond = h * c < self.taylor_threshold
+            cond = jnp.abs(h * c) < self.taylor_threshold
             tay_out = self._eval_taylor(h, _tay_coeffs)
             if cond.ndim < jtu.tree_leaves(tay_out)[0].ndim:
                 # This happens when c is a scalar
-- 
2.43.0


From a7e166cc7b24449836ba3c804c312a7149196c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:16 +0000
Subject: [PATCH 18/23] fix: backward_hermite_coefficients keeps an observed
 first value when replace_nans_at_start is passed

---
 diffrax/_global_interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffrax/_global_interpolation.py b/diffrax/_global_interpolation.py
index c0fb44b..4d81c35 100644
--- a/diffrax/_global_interpolation.py
+++ b/diffrax/_global_interpolation.py
@@ -697,7 +697,7 @@ def _backward_hermite_coefficients(
     if replace_nans_at_start is None:
         y0 = ys[0]
     else:
-        y0 = jnp.broadcast_to(replace_nans_at_start, ys[0].shape)
+        y0 = jnp.where(jnp.isnan(ys[0]), replace_nans_at_start, ys[0])
     if deriv0 is None:
         with jax.numpy_dtype_promotion("standard"):
             deriv0 = (next_ys[0] - y0) / (next_ts[0] - t0)
-- 
2.43.0


From 51bbbf25705ab2b911f90cf11f508a85a8de14ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:16 +0000
Subject: [PATCH 19/23] fix: backward_hermite_coefficients uses a single cubic
 across consecutive missing values

---
 diffrax/_global_interpolation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/diffrax/_global_interpolation.py b/diffrax/_global_interpolation.py
index 4d81c35..40cedb0 100644
--- a/diffrax/_global_interpolation.py
+++ b/diffrax/_global_interpolation.py
@@ -669,7 +669,9 @@ def _hermite_impl(prev_ti, prev_yi, prev_deriv_i, ti, next_ti, next_yi):
     )
     interp_yi = interpolation.evaluate(ti)
     interp_deriv_i = interpolation.derivative(ti)
-    return _hermite_coeffs(ti, interp_yi, interp_deriv_i, next_ti, next_yi)
+    # The same cubic, expanded around `ti` rather than around `prev_ti`.
+    with jax.numpy_dtype_promotion("standard"):
+        return d, c + 3 * d * (ti - prev_ti), interp_deriv_i, interp_yi
 
 
 def _backward_hermite_coefficients(
-- 
2.43.0


From c258d3fdd77ea52d37287574a3a7783becfe0190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:16 +0000
Subject: [PATCH 20/23] fix: backward_hermite_coefficients fills in missing
 values at the end before fitting the spline

---
 diffrax/_global_interpolation.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/diffrax/_global_interpolation.py b/diffrax/_global_interpolation.py
index 40cedb0..d1cc3e5 100644
--- a/diffrax/_global_interpolation.py
+++ b/diffrax/_global_interpolation.py
@@ -688,13 +688,17 @@ def _backward_hermite_coefficients(
 ]:
     ts = left_broadcast_to(ts, ys.shape)
 
+    if fill_forward_nans_at_end:
+        _, (_, later_ys) = lax.scan(
+            _interpolation_reverse, (ts[-1], ys[-1]), (ts, ys), reverse=True
+        )
+        filled_ys = fill_forward(ys, replace_nans_at_start)
+        ys = jnp.where(jnp.isnan(later_ys), filled_ys, ys)
+
     _, (next_ts, next_ys) = lax.scan(
         _interpolation_reverse, (ts[-1], ys[-1]), (ts[1:], ys[1:]), reverse=True
     )
 
-    if fill_forward_nans_at_end:
-        next_ys = fill_forward(next_ys)
-
     t0 = ts[0]
     if replace_nans_at_start is None:
         y0 = ys[0]
-- 
2.43.0


From c5c18bfaa63b9f046eedefc186f3df71917b9658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:16 +0000
Subject: [PATCH 21/23] fix: linear_interpolation fills in entirely missing
 data when given a value for the start

---
 diffrax/_global_interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffrax/_global_interpolation.py b/diffrax/_global_interpolation.py
index d1cc3e5..a9179a9 100644
--- a/diffrax/_global_interpolation.py
+++ b/diffrax/_global_interpolation.py
@@ -472,7 +472,7 @@ def _linear_interpolation(
         _interpolation_reverse, (ts[-1], ys[-1]), (ts, ys), reverse=True
     )
     if fill_forward_nans_at_end:
-        next_ys = fill_forward(next_ys)
+        next_ys = fill_forward(next_ys, replace_nans_at_start)
     _, ys = lax.scan(
         _linear_interpolation_forward, (ts[0], y0), (ts, ys, next_ts, next_ys)
     )
-- 
2.43.0


From f89f808ea19b95203cff45792e1ea3dc81db65a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:02 +0000
Subject: [PATCH 22/23] fix: VeryChord accepts iterates that no longer change
 beyond rounding error

---
 diffrax/_root_finder/_verychord.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/diffrax/_root_finder/_verychord.py b/diffrax/_root_finder/_verychord.py
index 385a2cb..53b3dc2 100644
--- a/diffrax/_root_finder/_verychord.py
+++ b/diffrax/_root_finder/_verychord.py
@@ -19,11 +19,14 @@ from .._custom_types import Y
 ω = cast(Callable, ω)
 
 
-def _small(diffsize: Scalar) -> Bool[Array, ""]:
+def _small(diffsize: Scalar, rtol: float, tol: float) -> Bool[Array, ""]:
     # TODO(kidger): make a more careful choice here -- the existence of this
     # function is pretty ad-hoc.
     resolution = 10 ** (2 - jnp.finfo(diffsize.dtype).precision)
-    return diffsize < resolution
+    # `diffsize` is measured relative to the tolerances, so that changing `y` by its
+    # own rounding error has size `eps / rtol`.
+    with jax.numpy_dtype_promotion("standard"):
+        return (diffsize * rtol < resolution) & (diffsize < tol)
 
 
 def _diverged(rate: Scalar) -> Bool[Array, ""]:
@@ -157,7 +160,7 @@ class VeryChord(optx.AbstractRootFinder):
         at_least_two = state.step >= 2
         rate = state.diffsize / state.diffsize_prev
         factor = state.diffsize * rate / (1 - rate)
-        small = _small(state.diffsize)
+        small = _small(state.diffsize, self.rtol, self.kappa)
         diverged = _diverged(rate)
         converged = _converged(factor, self.kappa)
         terminate = at_least_two & (small | diverged | converged)
-- 
2.43.0


From d2ff65705803f50c78731dfb09dc2af98425c447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:19 +0000
Subject: [PATCH 23/23] fix: under vmap, a batch element without an event keeps
 its own final state when another element had an event

---
 diffrax/_integrate.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index 73ed560..022ba45 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -805,6 +805,15 @@ def loop(
                 result,
                 RESULTS.promote(_event_root_find.result),
             )
+            # If this batch element did not have an event, then use its final state: the
+            # last step that was attempted (`event_tnext`) may have been rejected.
+            _tfinal = jnp.where(event_happened, _tfinal, final_state.tprev)
+            _yfinal = jtu.tree_map(
+                lambda _a, _b: jnp.where(event_happened, _a, _b),
+                _yfinal,
+                final_state.y,
+            )
+            _result = RESULTS.where(event_happened, _result, result)
             return _tfinal, _yfinal, _result
 
         # Fastpath: if no event happened anywhere at all, then skip the root-find
-- 
2.43.0

