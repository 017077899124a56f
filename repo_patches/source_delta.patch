From fd76b75d8c351827368b914ac42f215dbcaac08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:04 +0000
Subject: [PATCH 01/24] fix: recompute checkpoints when only the initial time
 differs

The reverse mode reused the stored forward run if the initial values and
independent inputs matched, although it had a different initial time.
---
 src/rkopenmdao/runge_kutta_integrator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 38285d6..7cafc62 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -828,6 +828,10 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
                 self._cached_input.independent_inputs,
                 temporary_integration_state.discretization_state.independent_inputs,
             )
+            and np.array_equal(
+                self._cached_input.final_time,
+                temporary_integration_state.discretization_state.final_time,
+            )
         ):
             if self.comm.rank == 0:
                 print("Preparing checkpoints by calling compute()")
-- 
2.43.0


From 56666a52eb9dd8201cb01ec8fbd487400741e48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:04 +0000
Subject: [PATCH 02/24] fix: keep primal state of the checkpoints in forward
 mode products

With checkpointing by pyrevolve, a forward mode product with other inputs
overwrote the state the reverse run of the last primal run starts with.
---
 src/rkopenmdao/runge_kutta_integrator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 7cafc62..1c80fad 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -660,15 +660,18 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             print(
                 "\n" + "=" * 24 + " fwd-mode jacvec product starts " + "=" * 24 + "\n\n"
             )
+        # The checkpoints of the last primal run belong to the primal state, so it must
+        # not be overwritten here.
+        time_integration_state = deepcopy(self._time_integration_state)
         self._compute_jacvec_fwd_preparation_phase(
             inputs,
             d_inputs,
-            self._time_integration_state,
+            time_integration_state,
             self._time_integration_state_perturbations,
         )
         self._time_integration_state_perturbations.set(
             self._compute_jacvec_fwd_run_steps(
-                self._time_integration_state, self._time_integration_state_perturbations
+                time_integration_state, self._time_integration_state_perturbations
             )
         )
         self._from_numpy_array_time_integration(
-- 
2.43.0


From 0f39b331bdfa3e2833d48ddfe3a2ab1ebc194845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:28 +0000
Subject: [PATCH 03/24] fix: let all ranks agree on recomputing the checkpoints

If distributed inputs change on some ranks only, only those ranks repeated
the forward run in the reverse mode, which deadlocks.
---
 src/rkopenmdao/runge_kutta_integrator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 1c80fad..d15b52a 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -822,7 +822,7 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         temporary_integration_state.discretization_state.final_time[0] = inputs[
             "time_initial"
         ][0]
-        if self._cached_input is None or not (
+        cached_input_is_current = self._cached_input is not None and (
             np.array_equal(
                 self._cached_input.final_state,
                 temporary_integration_state.discretization_state.final_state,
@@ -835,7 +835,9 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
                 self._cached_input.final_time,
                 temporary_integration_state.discretization_state.final_time,
             )
-        ):
+        )
+        # All ranks need to agree, since the inputs might differ on some ranks only.
+        if self.comm.allreduce(int(not cached_input_is_current)) > 0:
             if self.comm.rank == 0:
                 print("Preparing checkpoints by calling compute()")
             outputs = self._vector_class("nonlinear", "output", self)
-- 
2.43.0


From 5dcf88ece84e8adcd48f0e2622b0feab60f303cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:54 +0000
Subject: [PATCH 04/24] fix: use the transposed inverse in the reverse linear
 solve of KapsComponent2

---
 src/rkopenmdao/odes/kaps.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/rkopenmdao/odes/kaps.py b/src/rkopenmdao/odes/kaps.py
index dec5493..be98204 100644
--- a/src/rkopenmdao/odes/kaps.py
+++ b/src/rkopenmdao/odes/kaps.py
@@ -276,12 +276,8 @@ class KapsComponent2(ImplicitUnsteadyComponent):
                 -butcher_diagonal_element * delta_t * d_outputs["y_2"]
                 - d_outputs["y_2_stage"]
             ) / (
-                2
-                * butcher_diagonal_element
-                * delta_t
-                * self.y_2
-                * butcher_diagonal_element
-                * delta_t
+                2 * butcher_diagonal_element * delta_t * self.y_2
+                + butcher_diagonal_element * delta_t
                 + 1
             )
             d_residuals["y_2"] = (
@@ -289,12 +285,8 @@ class KapsComponent2(ImplicitUnsteadyComponent):
                 + d_outputs["y_2_stage"]
                 - d_outputs["y_2"]
             ) / (
-                2
-                * butcher_diagonal_element
-                * delta_t
-                * self.y_2
-                * butcher_diagonal_element
-                * delta_t
+                2 * butcher_diagonal_element * delta_t * self.y_2
+                + butcher_diagonal_element * delta_t
                 + 1
             )
 
-- 
2.43.0


From 1ba6e1f328d6697e21e773e28d9b3f63382c3a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:16 +0000
Subject: [PATCH 05/24] fix: copy the embedded state and error estimate in set
 of embedded states

---
 .../time_discretization/runge_kutta_discretization_state.py  | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py b/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py
index f9ed9ee..5c7c40c 100644
--- a/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py
+++ b/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py
@@ -216,6 +216,11 @@ class EmbeddedRungeKuttaDiscretizationState(RungeKuttaDiscretizationState):
         self.embedded_state = np.zeros_like(self.start_state)
         self.error_estimate = np.zeros_like(self.start_state)
 
+    def set(self, other: EmbeddedRungeKuttaDiscretizationState):
+        super().set(other)
+        self.embedded_state[:] = other.embedded_state[:]
+        self.error_estimate[:] = other.error_estimate[:]
+
     def to_dict(self) -> dict:
         time_step_dict = super().to_dict()
         time_step_dict["embedded_state"] = self.embedded_state
-- 
2.43.0


From 5ea1ee1d45590a7903befeb9b53258b36f244608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:16 +0000
Subject: [PATCH 06/24] fix: make dicts of states complete and importable again

The step size was missing in the exported dict (and hence in checkpoints),
importing failed for independent inputs and embedded states and returned a
state with a scalar step size suggestion.
---
 .../runge_kutta_discretization_state.py             |  7 +++++--
 src/rkopenmdao/time_integration_state.py            | 13 +++++++++----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py b/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py
index 5c7c40c..a84c71a 100644
--- a/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py
+++ b/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py
@@ -124,6 +124,7 @@ class RungeKuttaDiscretizationState(TimeDiscretizationStateInterface):
         time_step_dict["independent_input"] = self.independent_inputs
         time_step_dict["final_independent_output"] = self.final_independent_outputs
         time_step_dict["final_time"] = self.final_time
+        time_step_dict["step_size"] = self.step_size
         time_step_dict["linearization_points"] = self.linearization_points
 
         return time_step_dict
@@ -133,7 +134,7 @@ class RungeKuttaDiscretizationState(TimeDiscretizationStateInterface):
         number_of_stages = len(state_dict["linearization_points"])
         state = cls(
             ode_state_size=state_dict["final_state"].size,
-            independent_input_size=state_dict["independent_input"],
+            independent_input_size=state_dict["independent_input"].size,
             independent_output_size=state_dict["stage_0"]["independent_output"].size,
             number_of_stages=number_of_stages,
             linearization_point_size=state_dict["linearization_points"].shape[1],
@@ -151,6 +152,7 @@ class RungeKuttaDiscretizationState(TimeDiscretizationStateInterface):
         state.independent_inputs = state_dict["independent_input"]
         state.final_independent_outputs = state_dict["final_independent_output"]
         state.final_time = state_dict["final_time"]
+        state.step_size = state_dict["step_size"]
         state.linearization_points = state_dict["linearization_points"]
         return state
 
@@ -230,5 +232,6 @@ class EmbeddedRungeKuttaDiscretizationState(RungeKuttaDiscretizationState):
     @classmethod
     def from_dict(cls, state_dict: dict):
         state = super().from_dict(state_dict)
-        state.embedded_state = state_dict["embedded_dict"]
+        state.embedded_state = state_dict["embedded_state"]
         state.error_estimate = state_dict["error_estimate"]
+        return state
diff --git a/src/rkopenmdao/time_integration_state.py b/src/rkopenmdao/time_integration_state.py
index 0f57e60..4203ead 100644
--- a/src/rkopenmdao/time_integration_state.py
+++ b/src/rkopenmdao/time_integration_state.py
@@ -7,6 +7,7 @@ from dataclasses import dataclass
 import numpy as np
 
 from rkopenmdao.time_discretization.runge_kutta_discretization_state import (
+    EmbeddedRungeKuttaDiscretizationState,
     RungeKuttaDiscretizationState,
 )
 
@@ -81,11 +82,15 @@ class TimeIntegrationState:
         state_dict: dict
             Dictionary from which a time integration state is created.
         """
+        discretization_state_dict = time_state_dict["discretization_state"]
+        discretization_state_class = (
+            EmbeddedRungeKuttaDiscretizationState
+            if "embedded_state" in discretization_state_dict
+            else RungeKuttaDiscretizationState
+        )
         return cls(
-            RungeKuttaDiscretizationState.from_dict(
-                time_state_dict["discretization_state"]
-            ),
-            time_state_dict["step_size_suggestion"][0],
+            discretization_state_class.from_dict(discretization_state_dict),
+            time_state_dict["step_size_suggestion"],
             time_state_dict["step_size_history"],
             time_state_dict["error_history"],
         )
-- 
2.43.0


From 4db6cf09c501157cef3d84d545f8d26c8ce4e813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:39 +0000
Subject: [PATCH 07/24] fix: count consecutive rejections in the error
 controller decorator

The counter was reset on every rejection, so max_iter never had an effect.
---
 src/rkopenmdao/error_controller.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rkopenmdao/error_controller.py b/src/rkopenmdao/error_controller.py
index 3c7d1d7..01200b3 100644
--- a/src/rkopenmdao/error_controller.py
+++ b/src/rkopenmdao/error_controller.py
@@ -363,9 +363,11 @@ class ErrorControllerDecorator(ErrorController):
                             f"""Suggested delta T {status.step_size_suggestion} is 
                             larger than delta t {delta_t} on failure."""
                         )
-                self._outer_counter = 0
+                else:
+                    self._outer_counter = 0
                 return status
             except OuterErrorControllerError:
+                self._outer_counter = 0
                 return self._run(
                     error_measure=error_measure,
                     delta_t=delta_t,
-- 
2.43.0


From 6386348285550de3794bd6e4ed15d5e695df573f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:39 +0000
Subject: [PATCH 08/24] fix: don't accept steps that happen to be as long as
 the remaining time

The remaining time is that after the step, so such steps were accepted
with arbitrarily large errors.
---
 src/rkopenmdao/error_controller.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/rkopenmdao/error_controller.py b/src/rkopenmdao/error_controller.py
index 01200b3..b77b69f 100644
--- a/src/rkopenmdao/error_controller.py
+++ b/src/rkopenmdao/error_controller.py
@@ -190,7 +190,6 @@ class ErrorController:
         success = False
         if (
             np.abs(delta_t - self.config.lower_bound) < 1e-10
-            or np.abs(delta_t - remaining_time) < 1e-10
             or error_measure <= self.config.tol
         ):
             success = True
-- 
2.43.0


From 48dd5f4698b8d9d5390ed7783e4c96023587f351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:39 +0000
Subject: [PATCH 09/24] fix: accept steps below the lower bound of the step
 size

The last step can be shorter than the lower bound. If its error was too
large, it was retried forever with the same step size.
---
 src/rkopenmdao/error_controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rkopenmdao/error_controller.py b/src/rkopenmdao/error_controller.py
index b77b69f..ee124bf 100644
--- a/src/rkopenmdao/error_controller.py
+++ b/src/rkopenmdao/error_controller.py
@@ -189,7 +189,7 @@ class ErrorController:
         """
         success = False
         if (
-            np.abs(delta_t - self.config.lower_bound) < 1e-10
+            delta_t - self.config.lower_bound < 1e-10
             or error_measure <= self.config.tol
         ):
             success = True
-- 
2.43.0


From 8887d52d8888ba6f5e34f910b0abdd9ffd977bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:39 +0000
Subject: [PATCH 10/24] fix: exponent of the current error in the H0_321
 controller

---
 src/rkopenmdao/error_controllers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rkopenmdao/error_controllers.py b/src/rkopenmdao/error_controllers.py
index 2c7e906..edd215e 100644
--- a/src/rkopenmdao/error_controllers.py
+++ b/src/rkopenmdao/error_controllers.py
@@ -346,7 +346,7 @@ def h0_321(
     name="H0_321",
     base: ErrorController = None,
 ):
-    alpha = 1 / (3 * p)
+    alpha = 5 / (4 * p)
     beta = -1 / (2 * p)
     gamma = -3 / (4 * p)
     a = 1 / 4
-- 
2.43.0


From 7816d2e23363cf2df0063fc36c2081d87c3dd2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:39 +0000
Subject: [PATCH 11/24] fix: pass on name in the pseudo controller

---
 src/rkopenmdao/error_controllers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rkopenmdao/error_controllers.py b/src/rkopenmdao/error_controllers.py
index edd215e..95411d8 100644
--- a/src/rkopenmdao/error_controllers.py
+++ b/src/rkopenmdao/error_controllers.py
@@ -26,7 +26,7 @@ def pseudo(
             error_controller=base,
             name=name,
         )
-    return ErrorController(alpha=0, config=config)
+    return ErrorController(alpha=0, config=config, name=name)
 
 
 def integral(
-- 
2.43.0


From 902c731d210c24ac696bb1fe39f178ccb13f5a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:25 +0000
Subject: [PATCH 12/24] fix: warn about any inconsistent row sum of a tableau

The deviations were converted to a boolean before the comparison, so the
warning only appeared if all rows had any deviation at all.
---
 src/rkopenmdao/butcher_tableau.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rkopenmdao/butcher_tableau.py b/src/rkopenmdao/butcher_tableau.py
index 057603e..20791a4 100644
--- a/src/rkopenmdao/butcher_tableau.py
+++ b/src/rkopenmdao/butcher_tableau.py
@@ -71,7 +71,8 @@ class ButcherTableau:
             self.butcher_time_stages = np.sum(self.butcher_matrix, 1)
         else:
             self.butcher_time_stages = butcher_time_stages
-            if np.all(np.sum(self.butcher_matrix, 1) - butcher_time_stages) >= 1e-5:
+            row_sums = np.sum(self.butcher_matrix, 1)
+            if np.any(np.abs(row_sums - butcher_time_stages) > 1e-5):
                 warnings.warn(
                     "Spatial shift matrix (A) rows do not "
                     "sum up to the temporal shift vector (c) indices value"
-- 
2.43.0


From 2b00fce7137e6bfe62ade1d6f48c1196f5a2b38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:21 +0000
Subject: [PATCH 13/24] fix: number forward steps with pyrevolve like with
 other checkpointers

The steps were numbered from 0 to N-1 in the forward run, but from N to 1 in
the reverse run. Among others, callbacks writing files failed.
---
 .../runge_kutta_integrator_pyrevolve_classes.py               | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/checkpoint_interface/runge_kutta_integrator_pyrevolve_classes.py b/src/rkopenmdao/checkpoint_interface/runge_kutta_integrator_pyrevolve_classes.py
index 4cade07..7cb270e 100644
--- a/src/rkopenmdao/checkpoint_interface/runge_kutta_integrator_pyrevolve_classes.py
+++ b/src/rkopenmdao/checkpoint_interface/runge_kutta_integrator_pyrevolve_classes.py
@@ -169,7 +169,7 @@ class RungeKuttaForwardOperator(pr.Operator):
         # PyRevolve only ever uses t_start and t_end as arguments, but the interface is
         # how it is.
         """
-        Does forward (primal) integration from step `t_start` + 1 to `t_end` + 1.
+        Does forward (primal) integration from step `t_start` + 2 to `t_end` + 1.
 
         Parameters
         ----------
@@ -178,7 +178,7 @@ class RungeKuttaForwardOperator(pr.Operator):
         t_end: int
             Last integration time step shifted by one.
         """
-        for step in range(kwargs["t_start"] + 1, kwargs["t_end"] + 1):
+        for step in range(kwargs["t_start"] + 2, kwargs["t_end"] + 2):
             # TODO?: Add iteration to fwd_op
             self.time_integration_state.set(
                 self.fwd_operation(step, self.time_integration_state)
-- 
2.43.0


From 876655dd3654f2a4361ec872bc4c990634e695bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:21 +0000
Subject: [PATCH 14/24] fix: don't modify revolver options of the user

With that, a second setup with the same options failed for the
MultiLevelRevolver.
---
 src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
index 344d818..85b697c 100644
--- a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
+++ b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
@@ -74,6 +74,8 @@ class PyrevolveCheckpointer(CheckpointInterface):
                 Termination criterion must be of type PredefinedNumberOfSteps.
                 """
             )
+        # Don't modify the options passed by the user.
+        self.revolver_options = dict(self.revolver_options)
         for key, value in self.revolver_options.items():
             if self.revolver_type == "MultiLevel" and key == "storage_list":
                 storage_list = []
-- 
2.43.0


From bf7a03b78b63ec49486250d6a6f490dcbcfb8281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:21 +0000
Subject: [PATCH 15/24] fix: default number of checkpoints for integrations
 with two steps

Pyrevolve is called with one step less, and crashes if it has to choose the
number of checkpoints for one step.
---
 src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
index 85b697c..eb9d31d 100644
--- a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
+++ b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
@@ -94,7 +94,7 @@ class PyrevolveCheckpointer(CheckpointInterface):
 
         if "n_checkpoints" not in self.revolver_options:
             if self.revolver_type not in ["MultiLevel", "Base"]:
-                self.revolver_options["n_checkpoints"] = 1 if num_steps == 1 else None
+                self.revolver_options["n_checkpoints"] = 1 if num_steps <= 2 else None
 
         self.revolver_options["fwd_operator"] = RungeKuttaForwardOperator(
             self.state,
-- 
2.43.0


From d26dcdfccba961658faa25a0b06c0e856c576350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:44 +0000
Subject: [PATCH 16/24] fix: support integrations with one step with pyrevolve

Pyrevolve divides by the number of steps it handles, which is zero there.
---
 .../pyrevolve_checkpointer.py                 | 33 ++++++++++---------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
index eb9d31d..d4ef9c9 100644
--- a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
+++ b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
@@ -109,7 +109,10 @@ class PyrevolveCheckpointer(CheckpointInterface):
 
     def create_checkpointer(self):
         """Creates the actual revolver object used for checkpointing by Pyrevolve."""
-        self._revolver = self._revolver_class_type(**self.revolver_options)
+        # The first step is handled separately, so there is nothing left to checkpoint
+        # for pyRevolve if it is the only one.
+        if self.revolver_options["n_timesteps"] > 0:
+            self._revolver = self._revolver_class_type(**self.revolver_options)
 
     def _setup_revolver_class_type(self, revolver_type: str) -> type:
         """
@@ -162,14 +165,14 @@ class PyrevolveCheckpointer(CheckpointInterface):
         final_state: TimeIntegrationState
             The resulting state after completing all time steps.
         """
-        self._revolver.fwd_operator.time_integration_state.set(initial_state)
-        self._revolver.fwd_operator.apply(t_start=-1, t_end=0)
-        self._first_complete_state.set(
-            self._revolver.fwd_operator.time_integration_state
-        )
-        self.state.set(self._revolver.fwd_operator.time_integration_state)
-        self._revolver.apply_forward()
-        return self._revolver.fwd_operator.time_integration_state
+        fwd_operator = self.revolver_options["fwd_operator"]
+        fwd_operator.time_integration_state.set(initial_state)
+        fwd_operator.apply(t_start=-1, t_end=0)
+        self._first_complete_state.set(fwd_operator.time_integration_state)
+        self.state.set(fwd_operator.time_integration_state)
+        if self._revolver is not None:
+            self._revolver.apply_forward()
+        return fwd_operator.time_integration_state
 
     def iterate_reverse(
         self, final_state_perturbation: TimeIntegrationState
@@ -190,9 +193,9 @@ class PyrevolveCheckpointer(CheckpointInterface):
             steps.
         """
         self.state_perturbation.set(final_state_perturbation)
-        self._revolver.apply_reverse()
-        self._revolver.rev_operator.time_integration_state.set(
-            self._first_complete_state
-        )
-        self._revolver.rev_operator.apply(t_start=-1, t_end=0)
-        return self._revolver.rev_operator.time_integration_state_perturbations
+        rev_operator = self.revolver_options["rev_operator"]
+        if self._revolver is not None:
+            self._revolver.apply_reverse()
+        rev_operator.time_integration_state.set(self._first_complete_state)
+        rev_operator.apply(t_start=-1, t_end=0)
+        return rev_operator.time_integration_state_perturbations
-- 
2.43.0


From b67c9e048e96d1950b2e8d57755fd4967708677c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:31 +0000
Subject: [PATCH 17/24] fix: allow recomputed steps in OpenMDAOHDF5Callback

Checkpointing with pyrevolve repeats forward steps in the reverse mode, for
which the creation of the datasets failed.
---
 src/rkopenmdao/file_writer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rkopenmdao/file_writer.py b/src/rkopenmdao/file_writer.py
index 2a4ee28..27143b8 100644
--- a/src/rkopenmdao/file_writer.py
+++ b/src/rkopenmdao/file_writer.py
@@ -80,6 +80,9 @@ class OpenMDAOHDF5Callback(Callback):
             iter_strs.append(f"{iteration}")
         with h5py.File(self.filename, mode=mode, driver="mpio", comm=self.comm) as hf:
             for iter_str in iter_strs:
+                # Steps recomputed for the reverse mode are already present.
+                if iter_str in hf:
+                    continue
                 hf.create_group(iter_str)
                 hf[iter_str].create_dataset("time", shape=(1,), dtype=np.float64)
                 for (
-- 
2.43.0


From d25e7a062e503feb8fa08f96a1f99e7d5796a232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:31 +0000
Subject: [PATCH 18/24] fix: use initial values of all quantities in
 read_hdf5_file

The initial values of the currently read quantity were used for all of them.
---
 src/rkopenmdao/file_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rkopenmdao/file_writer.py b/src/rkopenmdao/file_writer.py
index 27143b8..ed1442f 100644
--- a/src/rkopenmdao/file_writer.py
+++ b/src/rkopenmdao/file_writer.py
@@ -223,7 +223,7 @@ def read_hdf5_file(
                     result[quantity][int(key)][row] = group[quantity][row]
 
                 if len(quantities) > 1:
-                    quan_result = [result[quantity][0]] * len(quantities)
+                    quan_result = [f["0"][name][...] for name in quantities]
                     error_data[quantity][int(key)] = np.abs(
                         solution(
                             time[int(key)],
-- 
2.43.0


From 903c2b10bf93406e9e8ea24e6260d39d11820d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:31 +0000
Subject: [PATCH 19/24] fix: support infinity norms with quantities without
 local part

---
 src/rkopenmdao/discretized_ode/openmdao_ode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rkopenmdao/discretized_ode/openmdao_ode.py b/src/rkopenmdao/discretized_ode/openmdao_ode.py
index 208a0c3..8eb5cc4 100644
--- a/src/rkopenmdao/discretized_ode/openmdao_ode.py
+++ b/src/rkopenmdao/discretized_ode/openmdao_ode.py
@@ -409,6 +409,8 @@ class OpenMDAOODE(DiscretizedODE):
     ) -> float:
         start = quantity.array_metadata.start_index
         end = quantity.array_metadata.end_index
+        if start == end:  # not defined for infinity norms
+            return 0.0
         exponent = 1.0 if order in [np.inf, -np.inf, 0.0] else order
         return np.linalg.norm(state[start:end], order) ** exponent
 
-- 
2.43.0


From d96f042fea39a5b8a22337288fea2c600a92bc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:53 +0000
Subject: [PATCH 20/24] fix: do not reuse checkpoints of an evaluation that
 failed

---
 src/rkopenmdao/runge_kutta_integrator.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index d15b52a..23d5753 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -438,11 +438,15 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
     def compute(self, inputs, outputs, discrete_inputs=None, discrete_outputs=None):
         if self.comm.rank == 0:
             print("\n" + "=" * 32 + " compute starts " + "=" * 32 + "\n\n")
+        # The checkpoints are only usable once the iteration has finished.
+        self._cached_input = None
         self._compute_preparation_phase(inputs, self._time_integration_state)
+        cached_input = deepcopy(self._time_integration_state.discretization_state)
         self._checkpointer.create_checkpointer()
         self._time_integration_state.set(
             self._checkpointer.iterate_forward(self._time_integration_state)
         )
+        self._cached_input = cached_input
         self._from_numpy_array_time_integration(
             self._time_integration_state.discretization_state.final_state, outputs
         )
@@ -462,7 +466,6 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             inputs, integration_state.discretization_state.independent_inputs
         )
         integration_state.discretization_state.final_time[0] = inputs["time_initial"][0]
-        self._cached_input = deepcopy(integration_state.discretization_state)
 
         self._reset_error_control(integration_state)
         integration_state.discretization_state.linearization_points.fill(0.0)
@@ -775,6 +778,8 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             d_outputs,
             integration_state_perturbations,
         )
+        # using the checkpoints invalidates the checkpointer in general
+        self._cached_input = None
         self._time_integration_state_perturbations.set(
             self._checkpointer.iterate_reverse(integration_state_perturbations)
         )
@@ -791,9 +796,6 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             "time_initial"
         ] += integration_state_perturbations.discretization_state.final_time[0]
 
-        # using the checkpoints invalidates the checkpointer in general
-        self._cached_input = None
-
         if self.comm.rank == 0:
             print(
                 "\n\n" + "=" * 25 + " fwd-mode jacvec product ends " + "=" * 25 + "\n"
-- 
2.43.0


From 5d7e4fbf169f81756d7238e30cb2e6cc719ba433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:01 +0000
Subject: [PATCH 21/24] fix: overwrite instead of scale the linear right-hand
 side, so NaN/Inf left by an earlier solve do not persist

---
 src/rkopenmdao/discretized_ode/openmdao_ode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/discretized_ode/openmdao_ode.py b/src/rkopenmdao/discretized_ode/openmdao_ode.py
index 8eb5cc4..861c912 100644
--- a/src/rkopenmdao/discretized_ode/openmdao_ode.py
+++ b/src/rkopenmdao/discretized_ode/openmdao_ode.py
@@ -160,7 +160,7 @@ class OpenMDAOODE(DiscretizedODE):
         self._om_data_exchange.stage_factor = stage_factor
         self._time_stage_problem.model.run_linearize()
         _, d_outputs, d_residuals = self._time_stage_problem.model.get_linear_vectors()
-        d_residuals.asarray()[:] *= 0.0
+        d_residuals.asarray()[:] = 0.0
         self._input_state_to_om_vector(
             np.array([ode_input_perturbation.time]),
             ode_input_perturbation.step_input,
@@ -196,7 +196,7 @@ class OpenMDAOODE(DiscretizedODE):
         self._om_data_exchange.stage_factor = stage_factor
         self._time_stage_problem.model.run_linearize()
         _, d_outputs, d_residuals = self._time_stage_problem.model.get_linear_vectors()
-        d_outputs.asarray()[:] *= 0.0
+        d_outputs.asarray()[:] = 0.0
         self._output_state_to_om_vector(
             ode_result_perturbation.stage_update,
             ode_result_perturbation.stage_state,
-- 
2.43.0


From 2d31b0dcc1317c501b3f0d020241b4fe35a853e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:48 +0000
Subject: [PATCH 22/24] fix: take the global range of distributed independent
 inputs from the input sizes

---
 src/rkopenmdao/metadata_extractor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/metadata_extractor.py b/src/rkopenmdao/metadata_extractor.py
index 1039eaf..87b057e 100644
--- a/src/rkopenmdao/metadata_extractor.py
+++ b/src/rkopenmdao/metadata_extractor.py
@@ -177,15 +177,16 @@ def _create_local_array_metadata(
     end_index: int,
     detailed_var: str,
     detailed_data: dict,
+    iotype: str = "output",
 ) -> ArrayMetadata:
     if detailed_data["shape"] != detailed_data["global_shape"]:
         try:
-            sizes = stage_problem.model._var_sizes["output"][
+            sizes = stage_problem.model._var_sizes[iotype][
                 :,
                 stage_problem.model._var_allprocs_abs2idx[detailed_var],
             ]
         except KeyError:  # Have to deal with an older openMDAO version
-            sizes = stage_problem.model._var_sizes["nonlinear"]["output"][
+            sizes = stage_problem.model._var_sizes["nonlinear"][iotype][
                 :,
                 stage_problem.model._var_allprocs_abs2idx["nonlinear"][detailed_var],
             ]
@@ -359,6 +360,7 @@ def _extract_time_independent_quantity(
                 end_index=end_index,
                 detailed_var=detailed_var,
                 detailed_data=detailed_data,
+                iotype="input",
             )
 
     if found_time_independent_input_var > 1:
-- 
2.43.0


From c0e674a0b8749c22e4b3a94f5a4b6776754a131d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:30 +0000
Subject: [PATCH 23/24] fix: reject a quantity tagged on several variables
 instead of storing it twice

---
 src/rkopenmdao/metadata_extractor.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/rkopenmdao/metadata_extractor.py b/src/rkopenmdao/metadata_extractor.py
index 87b057e..751ca8c 100644
--- a/src/rkopenmdao/metadata_extractor.py
+++ b/src/rkopenmdao/metadata_extractor.py
@@ -123,6 +123,11 @@ def extract_time_integration_metadata(
                 f"{tags}."
             )
         quantity_name = tags.pop()
+        if any(quantity.name == quantity_name for quantity in quantity_list):
+            raise SetupError(
+                f"For quantity {quantity_name}, there is more than one tagged output "
+                f"variable."
+            )
         if var in local_quantities:
             array_size, quantity = _extract_time_integration_quantity(
                 quantity_name,
@@ -315,6 +320,14 @@ def add_time_independent_input_metadata(
                 f"quantities: {tags}."
             )
         quantity_name = tags.pop()
+        if any(
+            quantity.name == quantity_name
+            for quantity in runge_kutta_metadata.time_independent_input_quantity_list
+        ):
+            raise SetupError(
+                f"For quantity {quantity_name}, there is more than one tagged input "
+                f"variable."
+            )
 
         if var in local_quantities:
 
-- 
2.43.0


From ed5145670f92281a0100d7454a336511011dc902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:33 +0000
Subject: [PATCH 24/24] fix: leave variables outside the requested product
 alone in SimpleLinearODE derivatives

---
 src/rkopenmdao/odes/simple_linear_ode.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/rkopenmdao/odes/simple_linear_ode.py b/src/rkopenmdao/odes/simple_linear_ode.py
index 0f586db..e8f03d4 100644
--- a/src/rkopenmdao/odes/simple_linear_ode.py
+++ b/src/rkopenmdao/odes/simple_linear_ode.py
@@ -40,12 +40,22 @@ class SimpleLinearODE(ExplicitUnsteadyComponent):
         delta_t = self.om_data_exchange.step_size
         butcher_diagonal_element = self.om_data_exchange.stage_factor
         factor = (1 + delta_t * butcher_diagonal_element) ** -1
+        if "y_stage" not in d_outputs:
+            return
         if mode == "fwd":
-            d_outputs["y_stage"] -= factor * d_inputs["y_old"]
-            d_outputs["y_stage"] -= delta_t * factor * d_inputs["y_accumulated_stages"]
+            if "y_old" in d_inputs:
+                d_outputs["y_stage"] -= factor * d_inputs["y_old"]
+            if "y_accumulated_stages" in d_inputs:
+                d_outputs["y_stage"] -= (
+                    delta_t * factor * d_inputs["y_accumulated_stages"]
+                )
         elif mode == "rev":
-            d_inputs["y_old"] -= factor * d_outputs["y_stage"]
-            d_inputs["y_accumulated_stages"] -= delta_t * factor * d_outputs["y_stage"]
+            if "y_old" in d_inputs:
+                d_inputs["y_old"] -= factor * d_outputs["y_stage"]
+            if "y_accumulated_stages" in d_inputs:
+                d_inputs["y_accumulated_stages"] -= (
+                    delta_t * factor * d_outputs["y_stage"]
+                )
 
     @staticmethod
     def simple_linear_solution(
-- 
2.43.0

