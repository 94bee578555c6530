From 628712b23f9a04361b3df6940e2c88fd17d99627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:13 +0000
Subject: [PATCH 01/54] fix: recompute checkpoints when only the initial time
 changed

---
 src/rkopenmdao/runge_kutta_integrator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 38285d6..7cafc62 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -828,6 +828,10 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
                 self._cached_input.independent_inputs,
                 temporary_integration_state.discretization_state.independent_inputs,
             )
+            and np.array_equal(
+                self._cached_input.final_time,
+                temporary_integration_state.discretization_state.final_time,
+            )
         ):
             if self.comm.rank == 0:
                 print("Preparing checkpoints by calling compute()")
-- 
2.43.0


From 0119c4405b1568bc7ac44e7e6424d7ffe408dbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:13 +0000
Subject: [PATCH 02/54] fix: forward derivatives invalidate previously created
 checkpoints

---
 src/rkopenmdao/runge_kutta_integrator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 7cafc62..e35ae76 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -660,6 +660,9 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             print(
                 "\n" + "=" * 24 + " fwd-mode jacvec product starts " + "=" * 24 + "\n\n"
             )
+        # The forward mode overwrites the state which the checkpointer works on, so
+        # checkpoints of a previous compute can't be used afterwards.
+        self._cached_input = None
         self._compute_jacvec_fwd_preparation_phase(
             inputs,
             d_inputs,
-- 
2.43.0


From 4b30f35c286a47f473a024743b2630ca26ec6be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:13 +0000
Subject: [PATCH 03/54] fix: accumulate jacvec products as required by OpenMDAO
 linear solvers

---
 src/rkopenmdao/runge_kutta_integrator.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index e35ae76..c92f836 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -499,7 +499,7 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
                 np_array[start:end] = om_vector[quantity.name].flatten()
 
     def _from_numpy_array_time_integration(
-        self, np_array: np.ndarray, om_vector: OMVector
+        self, np_array: np.ndarray, om_vector: OMVector, accumulate: bool = False
     ):
         if om_vector._kind == "input":
             name_suffix = "_initial"
@@ -510,9 +510,11 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         ) in self._ode.time_integration_metadata.time_integration_quantity_list:
             start = quantity.array_metadata.start_index
             end = quantity.array_metadata.end_index
-            om_vector[quantity.name + name_suffix] = np_array[start:end].reshape(
-                quantity.array_metadata.shape
-            )
+            value = np_array[start:end].reshape(quantity.array_metadata.shape)
+            if accumulate:
+                om_vector[quantity.name + name_suffix] += value
+            else:
+                om_vector[quantity.name + name_suffix] = value
 
     def _from_numpy_array_independent_input(
         self, np_array: np.ndarray, om_vector: OMVector
@@ -527,7 +529,7 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             ):
                 start = quantity.array_metadata.start_index
                 end = quantity.array_metadata.end_index
-                om_vector[quantity.name] = np_array[start:end].reshape(
+                om_vector[quantity.name] += np_array[start:end].reshape(
                     quantity.array_metadata.shape
                 )
 
@@ -677,6 +679,7 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         self._from_numpy_array_time_integration(
             self._time_integration_state_perturbations.discretization_state.final_state,
             d_outputs,
+            accumulate=True,
         )
         d_outputs[
             "time_final"
@@ -782,6 +785,7 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         self._from_numpy_array_time_integration(
             integration_state_perturbations.discretization_state.final_state,
             d_inputs,
+            accumulate=True,
         )
         self._from_numpy_array_independent_input(
             integration_state_perturbations.discretization_state.independent_inputs,
-- 
2.43.0


From caab2a2d2a36faf29b280b256dce8d2860d28c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:13 +0000
Subject: [PATCH 04/54] fix: clear linear vectors of the stage problem even if
 they contain NaN or inf

---
 src/rkopenmdao/discretized_ode/openmdao_ode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/discretized_ode/openmdao_ode.py b/src/rkopenmdao/discretized_ode/openmdao_ode.py
index 208a0c3..a9a7e3c 100644
--- a/src/rkopenmdao/discretized_ode/openmdao_ode.py
+++ b/src/rkopenmdao/discretized_ode/openmdao_ode.py
@@ -160,7 +160,7 @@ class OpenMDAOODE(DiscretizedODE):
         self._om_data_exchange.stage_factor = stage_factor
         self._time_stage_problem.model.run_linearize()
         _, d_outputs, d_residuals = self._time_stage_problem.model.get_linear_vectors()
-        d_residuals.asarray()[:] *= 0.0
+        d_residuals.set_val(0.0)
         self._input_state_to_om_vector(
             np.array([ode_input_perturbation.time]),
             ode_input_perturbation.step_input,
@@ -196,7 +196,7 @@ class OpenMDAOODE(DiscretizedODE):
         self._om_data_exchange.stage_factor = stage_factor
         self._time_stage_problem.model.run_linearize()
         _, d_outputs, d_residuals = self._time_stage_problem.model.get_linear_vectors()
-        d_outputs.asarray()[:] *= 0.0
+        d_outputs.set_val(0.0)
         self._output_state_to_om_vector(
             ode_result_perturbation.stage_update,
             ode_result_perturbation.stage_state,
-- 
2.43.0


From 453fd9453e777790dcc35deb9f3fae3283d9ec30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:51 +0000
Subject: [PATCH 05/54] fix: never reuse checkpoints of a forward or reverse
 iteration that failed

---
 src/rkopenmdao/runge_kutta_integrator.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index c92f836..f822df2 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -438,11 +438,15 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
     def compute(self, inputs, outputs, discrete_inputs=None, discrete_outputs=None):
         if self.comm.rank == 0:
             print("\n" + "=" * 32 + " compute starts " + "=" * 32 + "\n\n")
+        # Checkpoints are only usable once the forward iteration has succeeded.
+        self._cached_input = None
         self._compute_preparation_phase(inputs, self._time_integration_state)
+        checkpointed_input = deepcopy(self._time_integration_state.discretization_state)
         self._checkpointer.create_checkpointer()
         self._time_integration_state.set(
             self._checkpointer.iterate_forward(self._time_integration_state)
         )
+        self._cached_input = checkpointed_input
         self._from_numpy_array_time_integration(
             self._time_integration_state.discretization_state.final_state, outputs
         )
@@ -462,8 +466,6 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             inputs, integration_state.discretization_state.independent_inputs
         )
         integration_state.discretization_state.final_time[0] = inputs["time_initial"][0]
-        self._cached_input = deepcopy(integration_state.discretization_state)
-
         self._reset_error_control(integration_state)
         integration_state.discretization_state.linearization_points.fill(0.0)
 
@@ -778,6 +780,8 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             d_outputs,
             integration_state_perturbations,
         )
+        # using the checkpoints invalidates the checkpointer in general
+        self._cached_input = None
         self._time_integration_state_perturbations.set(
             self._checkpointer.iterate_reverse(integration_state_perturbations)
         )
@@ -795,9 +799,6 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             "time_initial"
         ] += integration_state_perturbations.discretization_state.final_time[0]
 
-        # using the checkpoints invalidates the checkpointer in general
-        self._cached_input = None
-
         if self.comm.rank == 0:
             print(
                 "\n\n" + "=" * 25 + " fwd-mode jacvec product ends " + "=" * 25 + "\n"
-- 
2.43.0


From b2a47cf77e1f38921342815f601bbab59ebff39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:51 +0000
Subject: [PATCH 06/54] fix: don't modify the revolver options passed by the
 user

---
 src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
index 344d818..57edb36 100644
--- a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
+++ b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
@@ -74,6 +74,8 @@ class PyrevolveCheckpointer(CheckpointInterface):
                 Termination criterion must be of type PredefinedNumberOfSteps.
                 """
             )
+        # The options are completed below, don't do that in the dict of the caller.
+        self.revolver_options = dict(self.revolver_options)
         for key, value in self.revolver_options.items():
             if self.revolver_type == "MultiLevel" and key == "storage_list":
                 storage_list = []
-- 
2.43.0


From 60b91ea287046f48bdc9126991489be7c3c61735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:51 +0000
Subject: [PATCH 07/54] fix: pyrevolve checkpointing of integrations with less
 than three steps

---
 .../pyrevolve_checkpointer.py                 | 39 +++++++++++--------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
index 57edb36..24bdfb2 100644
--- a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
+++ b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
@@ -94,7 +94,7 @@ class PyrevolveCheckpointer(CheckpointInterface):
 
         if "n_checkpoints" not in self.revolver_options:
             if self.revolver_type not in ["MultiLevel", "Base"]:
-                self.revolver_options["n_checkpoints"] = 1 if num_steps == 1 else None
+                self.revolver_options["n_checkpoints"] = 1 if num_steps <= 2 else None
 
         self.revolver_options["fwd_operator"] = RungeKuttaForwardOperator(
             self.state,
@@ -109,7 +109,10 @@ class PyrevolveCheckpointer(CheckpointInterface):
 
     def create_checkpointer(self):
         """Creates the actual revolver object used for checkpointing by Pyrevolve."""
-        self._revolver = self._revolver_class_type(**self.revolver_options)
+        # The first step is performed outside of the revolver, and pyrevolve can't
+        # handle schedules without any steps.
+        if self.revolver_options["n_timesteps"] > 0:
+            self._revolver = self._revolver_class_type(**self.revolver_options)
 
     def _setup_revolver_class_type(self, revolver_type: str) -> type:
         """
@@ -162,14 +165,16 @@ class PyrevolveCheckpointer(CheckpointInterface):
         final_state: TimeIntegrationState
             The resulting state after completing all time steps.
         """
-        self._revolver.fwd_operator.time_integration_state.set(initial_state)
-        self._revolver.fwd_operator.apply(t_start=-1, t_end=0)
-        self._first_complete_state.set(
-            self._revolver.fwd_operator.time_integration_state
-        )
-        self.state.set(self._revolver.fwd_operator.time_integration_state)
-        self._revolver.apply_forward()
-        return self._revolver.fwd_operator.time_integration_state
+        fwd_operator = self.revolver_options["fwd_operator"]
+        fwd_operator.time_integration_state.set(initial_state)
+        if self.termination_criterion.is_iteration_finished(0, initial_state):
+            return fwd_operator.time_integration_state
+        fwd_operator.apply(t_start=-1, t_end=0)
+        self._first_complete_state.set(fwd_operator.time_integration_state)
+        self.state.set(fwd_operator.time_integration_state)
+        if self._revolver is not None:
+            self._revolver.apply_forward()
+        return fwd_operator.time_integration_state
 
     def iterate_reverse(
         self, final_state_perturbation: TimeIntegrationState
@@ -189,10 +194,12 @@ class PyrevolveCheckpointer(CheckpointInterface):
             The resulting perturbation of the initial state after completing all time
             steps.
         """
+        rev_operator = self.revolver_options["rev_operator"]
         self.state_perturbation.set(final_state_perturbation)
-        self._revolver.apply_reverse()
-        self._revolver.rev_operator.time_integration_state.set(
-            self._first_complete_state
-        )
-        self._revolver.rev_operator.apply(t_start=-1, t_end=0)
-        return self._revolver.rev_operator.time_integration_state_perturbations
+        if self.revolver_options["n_timesteps"] < 0:
+            return rev_operator.time_integration_state_perturbations
+        if self._revolver is not None:
+            self._revolver.apply_reverse()
+        rev_operator.time_integration_state.set(self._first_complete_state)
+        rev_operator.apply(t_start=-1, t_end=0)
+        return rev_operator.time_integration_state_perturbations
-- 
2.43.0


From 8229cbb457e99b8fe398aadbd5f57305d474955c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:51 +0000
Subject: [PATCH 08/54] fix: number forward steps from 1 with pyrevolve, as all
 other iterations do

---
 .../runge_kutta_integrator_pyrevolve_classes.py               | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/checkpoint_interface/runge_kutta_integrator_pyrevolve_classes.py b/src/rkopenmdao/checkpoint_interface/runge_kutta_integrator_pyrevolve_classes.py
index 4cade07..7cb270e 100644
--- a/src/rkopenmdao/checkpoint_interface/runge_kutta_integrator_pyrevolve_classes.py
+++ b/src/rkopenmdao/checkpoint_interface/runge_kutta_integrator_pyrevolve_classes.py
@@ -169,7 +169,7 @@ class RungeKuttaForwardOperator(pr.Operator):
         # PyRevolve only ever uses t_start and t_end as arguments, but the interface is
         # how it is.
         """
-        Does forward (primal) integration from step `t_start` + 1 to `t_end` + 1.
+        Does forward (primal) integration from step `t_start` + 2 to `t_end` + 1.
 
         Parameters
         ----------
@@ -178,7 +178,7 @@ class RungeKuttaForwardOperator(pr.Operator):
         t_end: int
             Last integration time step shifted by one.
         """
-        for step in range(kwargs["t_start"] + 1, kwargs["t_end"] + 1):
+        for step in range(kwargs["t_start"] + 2, kwargs["t_end"] + 2):
             # TODO?: Add iteration to fwd_op
             self.time_integration_state.set(
                 self.fwd_operation(step, self.time_integration_state)
-- 
2.43.0


From bfeb2ec86f5e99c763f008ee7409f0ef3e4ace81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:39 +0000
Subject: [PATCH 09/54] fix: respect the scope of linear vectors in jacvec
 products

---
 src/rkopenmdao/runge_kutta_integrator.py | 55 +++++++++++++++---------
 1 file changed, 34 insertions(+), 21 deletions(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index f822df2..2b28ce6 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -481,7 +481,12 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         ) in self._ode.time_integration_metadata.time_integration_quantity_list:
             start = quantity.array_metadata.start_index
             end = quantity.array_metadata.end_index
-            np_array[start:end] = om_vector[quantity.name + name_suffix].flatten()
+            name = quantity.name + name_suffix
+            # Variables not contained in the vector are out of scope of the current
+            # (linear) operation.
+            np_array[start:end] = (
+                om_vector[name].flatten() if name in om_vector else 0.0
+            )
 
     def _to_numpy_array_independent_inputs(
         self, om_vector: OMVector, np_array: np.ndarray
@@ -498,7 +503,11 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             ):
                 start = quantity.array_metadata.start_index
                 end = quantity.array_metadata.end_index
-                np_array[start:end] = om_vector[quantity.name].flatten()
+                np_array[start:end] = (
+                    om_vector[quantity.name].flatten()
+                    if quantity.name in om_vector
+                    else 0.0
+                )
 
     def _from_numpy_array_time_integration(
         self, np_array: np.ndarray, om_vector: OMVector, accumulate: bool = False
@@ -512,11 +521,14 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         ) in self._ode.time_integration_metadata.time_integration_quantity_list:
             start = quantity.array_metadata.start_index
             end = quantity.array_metadata.end_index
+            name = quantity.name + name_suffix
+            if name not in om_vector:
+                continue
             value = np_array[start:end].reshape(quantity.array_metadata.shape)
             if accumulate:
-                om_vector[quantity.name + name_suffix] += value
+                om_vector[name] += value
             else:
-                om_vector[quantity.name + name_suffix] = value
+                om_vector[name] = value
 
     def _from_numpy_array_independent_input(
         self, np_array: np.ndarray, om_vector: OMVector
@@ -531,9 +543,10 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             ):
                 start = quantity.array_metadata.start_index
                 end = quantity.array_metadata.end_index
-                om_vector[quantity.name] += np_array[start:end].reshape(
-                    quantity.array_metadata.shape
-                )
+                if quantity.name in om_vector:
+                    om_vector[quantity.name] += np_array[start:end].reshape(
+                        quantity.array_metadata.shape
+                    )
 
     def _run_step(
         self, step: int, time_integration_state: TimeIntegrationState
@@ -683,11 +696,10 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             d_outputs,
             accumulate=True,
         )
-        d_outputs[
-            "time_final"
-        ] += self._time_integration_state_perturbations.discretization_state.final_time[
-            0
-        ]
+        if "time_final" in d_outputs:
+            d_outputs["time_final"] += (
+                self._time_integration_state_perturbations.discretization_state
+            ).final_time[0]
         if self.comm.rank == 0:
             print(
                 "\n\n" + "=" * 25 + " fwd-mode jacvec product ends " + "=" * 25 + "\n"
@@ -714,9 +726,9 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             integration_state_perturbations.discretization_state.independent_inputs,
         )
         integration_state.discretization_state.final_time[0] = inputs["time_initial"][0]
-        integration_state_perturbations.discretization_state.final_time[0] = d_inputs[
-            "time_initial"
-        ][0]
+        integration_state_perturbations.discretization_state.final_time[0] = (
+            d_inputs["time_initial"][0] if "time_initial" in d_inputs else 0.0
+        )
         self._reset_error_control(integration_state)
 
     def _compute_jacvec_fwd_run_steps(
@@ -795,9 +807,10 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             integration_state_perturbations.discretization_state.independent_inputs,
             d_inputs,
         )
-        d_inputs[
-            "time_initial"
-        ] += integration_state_perturbations.discretization_state.final_time[0]
+        if "time_initial" in d_inputs:
+            d_inputs[
+                "time_initial"
+            ] += integration_state_perturbations.discretization_state.final_time[0]
 
         if self.comm.rank == 0:
             print(
@@ -852,9 +865,9 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         integration_state_perturbations.discretization_state.independent_inputs.fill(
             0.0
         )
-        integration_state_perturbations.discretization_state.final_time[0] = d_outputs[
-            "time_final"
-        ][0]
+        integration_state_perturbations.discretization_state.final_time[0] = (
+            d_outputs["time_final"][0] if "time_final" in d_outputs else 0.0
+        )
 
     def _run_step_jacvec_rev(
         self,
-- 
2.43.0


From c83b0986d028af51fe0c41b3386a84269c8dce97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:29 +0000
Subject: [PATCH 10/54] fix: copy embedded state and error estimate when
 setting embedded states

---
 .../time_discretization/runge_kutta_discretization_state.py  | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py b/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py
index f9ed9ee..5c7c40c 100644
--- a/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py
+++ b/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py
@@ -216,6 +216,11 @@ class EmbeddedRungeKuttaDiscretizationState(RungeKuttaDiscretizationState):
         self.embedded_state = np.zeros_like(self.start_state)
         self.error_estimate = np.zeros_like(self.start_state)
 
+    def set(self, other: EmbeddedRungeKuttaDiscretizationState):
+        super().set(other)
+        self.embedded_state[:] = other.embedded_state[:]
+        self.error_estimate[:] = other.error_estimate[:]
+
     def to_dict(self) -> dict:
         time_step_dict = super().to_dict()
         time_step_dict["embedded_state"] = self.embedded_state
-- 
2.43.0


From e20cdeec5615118837068e54b50f5b77b91b906b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:29 +0000
Subject: [PATCH 11/54] fix: make to_dict and from_dict of the integration
 states inverse to each other

---
 .../runge_kutta_discretization_state.py             |  7 +++++--
 src/rkopenmdao/time_integration_state.py            | 13 +++++++++----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py b/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py
index 5c7c40c..a84c71a 100644
--- a/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py
+++ b/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py
@@ -124,6 +124,7 @@ class RungeKuttaDiscretizationState(TimeDiscretizationStateInterface):
         time_step_dict["independent_input"] = self.independent_inputs
         time_step_dict["final_independent_output"] = self.final_independent_outputs
         time_step_dict["final_time"] = self.final_time
+        time_step_dict["step_size"] = self.step_size
         time_step_dict["linearization_points"] = self.linearization_points
 
         return time_step_dict
@@ -133,7 +134,7 @@ class RungeKuttaDiscretizationState(TimeDiscretizationStateInterface):
         number_of_stages = len(state_dict["linearization_points"])
         state = cls(
             ode_state_size=state_dict["final_state"].size,
-            independent_input_size=state_dict["independent_input"],
+            independent_input_size=state_dict["independent_input"].size,
             independent_output_size=state_dict["stage_0"]["independent_output"].size,
             number_of_stages=number_of_stages,
             linearization_point_size=state_dict["linearization_points"].shape[1],
@@ -151,6 +152,7 @@ class RungeKuttaDiscretizationState(TimeDiscretizationStateInterface):
         state.independent_inputs = state_dict["independent_input"]
         state.final_independent_outputs = state_dict["final_independent_output"]
         state.final_time = state_dict["final_time"]
+        state.step_size = state_dict["step_size"]
         state.linearization_points = state_dict["linearization_points"]
         return state
 
@@ -230,5 +232,6 @@ class EmbeddedRungeKuttaDiscretizationState(RungeKuttaDiscretizationState):
     @classmethod
     def from_dict(cls, state_dict: dict):
         state = super().from_dict(state_dict)
-        state.embedded_state = state_dict["embedded_dict"]
+        state.embedded_state = state_dict["embedded_state"]
         state.error_estimate = state_dict["error_estimate"]
+        return state
diff --git a/src/rkopenmdao/time_integration_state.py b/src/rkopenmdao/time_integration_state.py
index 0f57e60..956f479 100644
--- a/src/rkopenmdao/time_integration_state.py
+++ b/src/rkopenmdao/time_integration_state.py
@@ -7,6 +7,7 @@ from dataclasses import dataclass
 import numpy as np
 
 from rkopenmdao.time_discretization.runge_kutta_discretization_state import (
+    EmbeddedRungeKuttaDiscretizationState,
     RungeKuttaDiscretizationState,
 )
 
@@ -81,11 +82,15 @@ class TimeIntegrationState:
         state_dict: dict
             Dictionary from which a time integration state is created.
         """
+        discretization_state_dict = time_state_dict["discretization_state"]
+        discretization_state_type = (
+            EmbeddedRungeKuttaDiscretizationState
+            if "embedded_state" in discretization_state_dict
+            else RungeKuttaDiscretizationState
+        )
         return cls(
-            RungeKuttaDiscretizationState.from_dict(
-                time_state_dict["discretization_state"]
-            ),
-            time_state_dict["step_size_suggestion"][0],
+            discretization_state_type.from_dict(discretization_state_dict),
+            time_state_dict["step_size_suggestion"],
             time_state_dict["step_size_history"],
             time_state_dict["error_history"],
         )
-- 
2.43.0


From 4f416df1dc1914f4e91477209662621ea047ea8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:29 +0000
Subject: [PATCH 12/54] fix: advance step size history in integrations with
 fixed step size

---
 src/rkopenmdao/runge_kutta_integrator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 2b28ce6..946a318 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -647,7 +647,9 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
 
         else:
             time_integration_state.discretization_state.set(temp_discretization_state)
-            np.roll(time_integration_state.step_size_history, 1)
+            time_integration_state.step_size_history[:] = np.roll(
+                time_integration_state.step_size_history, 1
+            )
             time_integration_state.step_size_history[0] = (
                 time_integration_state.step_size_suggestion[0]
             )
-- 
2.43.0


From 28b129266f2ae3408e4b618cced0a37b731081bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:29 +0000
Subject: [PATCH 13/54] fix: provide error measures of embedded schemes also
 for fixed step sizes

---
 src/rkopenmdao/runge_kutta_integrator.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 946a318..086eddc 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -653,6 +653,13 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             time_integration_state.step_size_history[0] = (
                 time_integration_state.step_size_suggestion[0]
             )
+            if self.options["butcher_tableau"].is_embedded:
+                time_integration_state.error_history[:] = np.roll(
+                    time_integration_state.error_history, 1
+                )
+                time_integration_state.error_history[0] = self._get_error_measure(
+                    temp_discretization_state
+                )
         return time_integration_state
 
     def _get_error_measure(
-- 
2.43.0


From f9e5768ddf0a0fe9580ef6762c64bef828af6730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:46 +0000
Subject: [PATCH 14/54] fix: warn about every butcher tableau with a row sum
 differing from its time stage

---
 src/rkopenmdao/butcher_tableau.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rkopenmdao/butcher_tableau.py b/src/rkopenmdao/butcher_tableau.py
index 057603e..6db104b 100644
--- a/src/rkopenmdao/butcher_tableau.py
+++ b/src/rkopenmdao/butcher_tableau.py
@@ -71,7 +71,8 @@ class ButcherTableau:
             self.butcher_time_stages = np.sum(self.butcher_matrix, 1)
         else:
             self.butcher_time_stages = butcher_time_stages
-            if np.all(np.sum(self.butcher_matrix, 1) - butcher_time_stages) >= 1e-5:
+            row_sum_defects = np.sum(self.butcher_matrix, 1) - butcher_time_stages
+            if np.any(np.abs(row_sum_defects) >= 1e-5):
                 warnings.warn(
                     "Spatial shift matrix (A) rows do not "
                     "sum up to the temporal shift vector (c) indices value"
-- 
2.43.0


From e26fe38c6159cbc3350ec086fd950055da061816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:46 +0000
Subject: [PATCH 15/54] fix: state norms of order -inf and of processes without
 local data

---
 src/rkopenmdao/discretized_ode/openmdao_ode.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/discretized_ode/openmdao_ode.py b/src/rkopenmdao/discretized_ode/openmdao_ode.py
index a9a7e3c..a67223a 100644
--- a/src/rkopenmdao/discretized_ode/openmdao_ode.py
+++ b/src/rkopenmdao/discretized_ode/openmdao_ode.py
@@ -379,8 +379,10 @@ class OpenMDAOODE(DiscretizedODE):
 
     def compute_state_norm(self, state: DiscretizedODEResultState) -> float:
         stage_state = state.stage_state
-        non_distributed_intermediate = 0.0
-        distributed_intermediate = 0.0
+        # Neutral element of the way intermediates are combined.
+        neutral_element = np.inf if self._norm_order == -np.inf else 0.0
+        non_distributed_intermediate = neutral_element
+        distributed_intermediate = neutral_element
         for quantity in self.time_integration_metadata.time_integration_quantity_list:
             if quantity.name not in self._norm_exclusions:
                 norm_intermediate = self._partial_norm_intermediate(
@@ -410,6 +412,8 @@ class OpenMDAOODE(DiscretizedODE):
         start = quantity.array_metadata.start_index
         end = quantity.array_metadata.end_index
         exponent = 1.0 if order in [np.inf, -np.inf, 0.0] else order
+        if start == end:
+            return np.inf if order == -np.inf else 0.0
         return np.linalg.norm(state[start:end], order) ** exponent
 
     def _add_to_intermediate(
-- 
2.43.0


From b7c0628435d392932643cb78e33da0867a41ebe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:46 +0000
Subject: [PATCH 16/54] fix: reverse mode linear solve of the second Kaps
 component

---
 src/rkopenmdao/odes/kaps.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/rkopenmdao/odes/kaps.py b/src/rkopenmdao/odes/kaps.py
index dec5493..be98204 100644
--- a/src/rkopenmdao/odes/kaps.py
+++ b/src/rkopenmdao/odes/kaps.py
@@ -276,12 +276,8 @@ class KapsComponent2(ImplicitUnsteadyComponent):
                 -butcher_diagonal_element * delta_t * d_outputs["y_2"]
                 - d_outputs["y_2_stage"]
             ) / (
-                2
-                * butcher_diagonal_element
-                * delta_t
-                * self.y_2
-                * butcher_diagonal_element
-                * delta_t
+                2 * butcher_diagonal_element * delta_t * self.y_2
+                + butcher_diagonal_element * delta_t
                 + 1
             )
             d_residuals["y_2"] = (
@@ -289,12 +285,8 @@ class KapsComponent2(ImplicitUnsteadyComponent):
                 + d_outputs["y_2_stage"]
                 - d_outputs["y_2"]
             ) / (
-                2
-                * butcher_diagonal_element
-                * delta_t
-                * self.y_2
-                * butcher_diagonal_element
-                * delta_t
+                2 * butcher_diagonal_element * delta_t * self.y_2
+                + butcher_diagonal_element * delta_t
                 + 1
             )
 
-- 
2.43.0


From ec1e34c6a5bbe9fee9d2caafa4be394364427d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:02 +0000
Subject: [PATCH 17/54] fix: only accept steps violating the tolerance at the
 lower step size bound

Steps were also accepted whenever the step size happened to be equal to the time
remaining after the step, regardless of the error. On the other hand, the last
step was never accepted when the remaining time was smaller than the lower bound,
resulting in an infinite recursion.
---
 src/rkopenmdao/error_controller.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/rkopenmdao/error_controller.py b/src/rkopenmdao/error_controller.py
index 3c7d1d7..331a5b7 100644
--- a/src/rkopenmdao/error_controller.py
+++ b/src/rkopenmdao/error_controller.py
@@ -187,13 +187,12 @@ class ErrorController:
         status: ErrorControllerStatus
             Suggested step size and acceptance of current time step.
         """
-        success = False
-        if (
-            np.abs(delta_t - self.config.lower_bound) < 1e-10
-            or np.abs(delta_t - remaining_time) < 1e-10
+        # Step sizes at (or, due to a limited remaining time, below) the lower bound
+        # can't be decreased any further.
+        success = bool(
+            delta_t - self.config.lower_bound < 1e-10
             or error_measure <= self.config.tol
-        ):
-            success = True
+        )
 
         if error_measure != 0:
             new_delta_t = self._estimate_next_step_function(
-- 
2.43.0


From 9b5428cafbcd5e82c0d82ae839a9bb259c632160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:02 +0000
Subject: [PATCH 18/54] fix: step size estimation after steps with an error
 measure of 0

Controllers using the error history divided by (or multiplied with) zero when a
previous step had an error measure of exactly 0.
---
 src/rkopenmdao/error_controller.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/error_controller.py b/src/rkopenmdao/error_controller.py
index 331a5b7..7dff547 100644
--- a/src/rkopenmdao/error_controller.py
+++ b/src/rkopenmdao/error_controller.py
@@ -242,8 +242,11 @@ class ErrorController:
         """
         delta_t_new = self.config.safety_factor * delta_t
         delta_t_new *= (self.config.tol / error_measure) ** self.alpha
-        delta_t_new *= (error_history[0] / self.config.tol) ** self.beta
-        delta_t_new *= (self.config.tol / error_history[1]) ** self.gamma
+        # Error measures of 0 contain no information for the step size estimation.
+        if error_history[0] != 0.0:
+            delta_t_new *= (error_history[0] / self.config.tol) ** self.beta
+        if error_history[1] != 0.0:
+            delta_t_new *= (self.config.tol / error_history[1]) ** self.gamma
         if step_size_history[0] != 0.0:
             delta_t_new *= (delta_t / step_size_history[0]) ** self.a
             if step_size_history[1] != 0.0:
-- 
2.43.0


From 257a74c7eb7e03aae1b522fca0cb2d8dc934b6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:02 +0000
Subject: [PATCH 19/54] fix: coefficients of the H0_321 error controller

With alpha=1/(3p) it is neither a member of the H_321 family
(alpha + beta + gamma = 0), nor a deadbeat (H0) controller.
---
 src/rkopenmdao/error_controllers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rkopenmdao/error_controllers.py b/src/rkopenmdao/error_controllers.py
index 2c7e906..edd215e 100644
--- a/src/rkopenmdao/error_controllers.py
+++ b/src/rkopenmdao/error_controllers.py
@@ -346,7 +346,7 @@ def h0_321(
     name="H0_321",
     base: ErrorController = None,
 ):
-    alpha = 1 / (3 * p)
+    alpha = 5 / (4 * p)
     beta = -1 / (2 * p)
     gamma = -3 / (4 * p)
     a = 1 / 4
-- 
2.43.0


From 704e69be3e5a3fda800626a0e18ed2ceb17c0b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:02 +0000
Subject: [PATCH 20/54] fix: count rejections for the fallback of decorated
 error controllers

The counter of rejections was set back after each rejection, such that max_iter
had no influence on when to switch to the decorating error controller.
---
 src/rkopenmdao/error_controller.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/error_controller.py b/src/rkopenmdao/error_controller.py
index 7dff547..83e4d61 100644
--- a/src/rkopenmdao/error_controller.py
+++ b/src/rkopenmdao/error_controller.py
@@ -365,7 +365,8 @@ class ErrorControllerDecorator(ErrorController):
                             f"""Suggested delta T {status.step_size_suggestion} is 
                             larger than delta t {delta_t} on failure."""
                         )
-                self._outer_counter = 0
+                else:
+                    self._outer_counter = 0
                 return status
             except OuterErrorControllerError:
                 return self._run(
@@ -408,7 +409,9 @@ class ErrorControllerDecorator(ErrorController):
             error_history=error_history,
             step_size_history=step_size_history,
         )
-        if not status.acceptance:
+        if status.acceptance:
+            self._outer_counter = 0
+        else:
             self._is_not_inner = False
             if status.step_size_suggestion > delta_t and self._inner_most:
                 raise InnerErrorControllerError(
-- 
2.43.0


From aaebf65a001f56d5053a2dacb72d8ec627e86d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:02 +0000
Subject: [PATCH 21/54] fix: reset decorated error controllers at the start of
 a time integration

A time integration aborted during a rejected step influenced the step sizes of
the time integrations following it.
---
 src/rkopenmdao/error_controller.py       | 8 ++++++++
 src/rkopenmdao/runge_kutta_integrator.py | 1 +
 2 files changed, 9 insertions(+)

diff --git a/src/rkopenmdao/error_controller.py b/src/rkopenmdao/error_controller.py
index 83e4d61..9ebcb4f 100644
--- a/src/rkopenmdao/error_controller.py
+++ b/src/rkopenmdao/error_controller.py
@@ -155,6 +155,9 @@ class ErrorController:
                 )
         return status
 
+    def reset(self):
+        """Resets the controller for the start of a new time integration."""
+
     def _run(
         self,
         *,
@@ -385,6 +388,11 @@ class ErrorControllerDecorator(ErrorController):
                 step_size_history=step_size_history,
             )
 
+    def reset(self):
+        self.error_controller.reset()
+        self._is_not_inner = True
+        self._outer_counter = 0
+
     def __str__(self):
         """Prints the class data."""
         current_str = super().__str__()
diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 086eddc..be36256 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -571,6 +571,7 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
     def _reset_error_control(self, integration_state: TimeIntegrationState):
         integration_state.step_size_history.fill(0.0)
         integration_state.error_history.fill(self._error_controller.config.tol)
+        self._error_controller.reset()
         integration_state.step_size_suggestion[0] = (
             self._integration_config.initial_step_size
         )
-- 
2.43.0


From 24c14e0589d8a6a95a00b7c2dc9a3833e0e11165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:02 +0000
Subject: [PATCH 22/54] fix: respect bounds and final time in first step of
 adaptive time integrations

Only the step sizes suggested by the error controller were restricted to the
step size bounds and the remaining time, but not the one of the first step.
---
 src/rkopenmdao/runge_kutta_integrator.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index be36256..0b2eb25 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -572,9 +572,16 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         integration_state.step_size_history.fill(0.0)
         integration_state.error_history.fill(self._error_controller.config.tol)
         self._error_controller.reset()
-        integration_state.step_size_suggestion[0] = (
-            self._integration_config.initial_step_size
-        )
+        step_size = self._integration_config.initial_step_size
+        if self._integration_config.use_adaptive_time_stepping:
+            config = self._error_controller.config
+            step_size = min(
+                max(config.lower_bound, min(config.upper_bound, step_size)),
+                self._remaining_time_func(
+                    integration_state.discretization_state.final_time[0]
+                ),
+            )
+        integration_state.step_size_suggestion[0] = step_size
 
     def _iterate_on_step(
         self, time_integration_state: TimeIntegrationState, i: int = 0
-- 
2.43.0


From 91240aa8c9b3adcfe6c0bf35dc3bb7f1ac88bd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:02 +0000
Subject: [PATCH 23/54] fix: consider rounding errors when checking for the
 termination time

E.g. ten steps of size 0.1 were followed by an eleventh one for a termination
time of 1.0.
---
 src/rkopenmdao/termination_criterion.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/rkopenmdao/termination_criterion.py b/src/rkopenmdao/termination_criterion.py
index f4e8f41..d7d3844 100644
--- a/src/rkopenmdao/termination_criterion.py
+++ b/src/rkopenmdao/termination_criterion.py
@@ -3,6 +3,8 @@
 from abc import ABC, abstractmethod
 from dataclasses import dataclass
 
+import numpy as np
+
 # from rkopenmdao.discretized_ode.discretized_ode import DiscretizedODE
 # from rkopenmdao.time_discretization.time_discretization_scheme_interface import (
 #     TimeDiscretizationSchemeInterface,
@@ -91,7 +93,10 @@ class PredefinedFinalTime(TerminationCriterion):
         #     time_integration_state.step_size_history[0],
         # )
         time = time_integration_state.discretization_state.final_time
-        return self.remaining_time(time) <= 0
+        # Don't take another step if only rounding errors of the previous steps separate
+        # us from the termination time.
+        tolerance = 1e-8 * np.max(time_integration_state.step_size_history, initial=0.0)
+        return self.remaining_time(time) <= tolerance
 
     def remaining_time(self, current_time: float) -> float:
         """
-- 
2.43.0


From 25be8857d475a38db1eb76065a7c55d12681f3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:16 +0000
Subject: [PATCH 24/54] fix: analytical solution of the Prothero-Robinson
 problem

It was only a solution of the ODE when starting exactly on the function phi.
---
 src/rkopenmdao/odes/prothero_robinson_ode.py | 5 +++--
 src/rkopenmdao/utils/problems.py             | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/rkopenmdao/odes/prothero_robinson_ode.py b/src/rkopenmdao/odes/prothero_robinson_ode.py
index dc0d05f..c8c1235 100644
--- a/src/rkopenmdao/odes/prothero_robinson_ode.py
+++ b/src/rkopenmdao/odes/prothero_robinson_ode.py
@@ -64,9 +64,10 @@ class ProtheroRobinson(ExplicitUnsteadyComponent):
         time: float,
         initial_values=get_initial_values(),
         initial_time=0.0,
+        lambda_=-1e2,
     ):
         """Analytical solution of the ODE"""
-        # x = phi(t) + Ce^t
+        # x = phi(t) + Ce^(lambda * t)
         return ProtheroRobinson.phi(time) + (
             initial_values - ProtheroRobinson.phi(initial_time)
-        ) / np.exp(initial_time) * np.exp(time)
+        ) * np.exp(lambda_ * (time - initial_time))
diff --git a/src/rkopenmdao/utils/problems.py b/src/rkopenmdao/utils/problems.py
index d5ad166..b5fc63f 100644
--- a/src/rkopenmdao/utils/problems.py
+++ b/src/rkopenmdao/utils/problems.py
@@ -3,6 +3,7 @@
 import argparse
 from collections.abc import Callable
 from dataclasses import dataclass, field
+from functools import partial
 import os
 import pathlib
 from typing import Tuple, Union
@@ -215,7 +216,7 @@ def prothero_robinson_problem(_lambda: float = -1e2):
         stiffness_coef,
         folder_path,
         ProtheroRobinson,
-        ProtheroRobinson.solution,
+        partial(ProtheroRobinson.solution, lambda_=_lambda),
     )
 
 
-- 
2.43.0


From b6dfe371831a9b8a533981401f1123b2c71f3382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:16 +0000
Subject: [PATCH 25/54] fix: derivatives of the Prothero-Robinson component

Without any derivatives given, they were silently assumed to be zero.
---
 src/rkopenmdao/odes/prothero_robinson_ode.py | 26 ++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/rkopenmdao/odes/prothero_robinson_ode.py b/src/rkopenmdao/odes/prothero_robinson_ode.py
index c8c1235..259f877 100644
--- a/src/rkopenmdao/odes/prothero_robinson_ode.py
+++ b/src/rkopenmdao/odes/prothero_robinson_ode.py
@@ -54,6 +54,32 @@ class ProtheroRobinson(ExplicitUnsteadyComponent):
             + self.d_phi(stage_time)
         ) / (1 - lambda_ * _delta_t * self.om_data_exchange.stage_factor)
 
+    def compute_jacvec_product(
+        self,
+        inputs,
+        d_inputs,
+        d_outputs,
+        mode,
+        *_,
+        **__,
+    ):
+        delta_t = self.om_data_exchange.step_size
+        lambda_ = self.options["lambda_"]
+        factor = 1 / (1 - lambda_ * delta_t * self.om_data_exchange.stage_factor)
+        # phi'' = -phi
+        partials = {
+            "time": -factor
+            * (lambda_ * self.d_phi(inputs["time"]) + self.phi(inputs["time"])),
+            "x": factor * lambda_,
+            "acc_stages": factor * lambda_ * delta_t,
+        }
+        for name, partial in partials.items():
+            if name in d_inputs:
+                if mode == "fwd":
+                    d_outputs["x_stage"] += partial * d_inputs[name]
+                elif mode == "rev":
+                    d_inputs[name] += partial * d_outputs["x_stage"]
+
     @staticmethod
     def get_initial_values():
         """Initial values for the ODE"""
-- 
2.43.0


From 09e2484dcbb0bb579a653cad142b1f22a2547ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:16 +0000
Subject: [PATCH 26/54] fix: respect the scope of linear vectors in the simple
 linear ODE

---
 src/rkopenmdao/odes/simple_linear_ode.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/rkopenmdao/odes/simple_linear_ode.py b/src/rkopenmdao/odes/simple_linear_ode.py
index 0f586db..1764c92 100644
--- a/src/rkopenmdao/odes/simple_linear_ode.py
+++ b/src/rkopenmdao/odes/simple_linear_ode.py
@@ -40,12 +40,13 @@ class SimpleLinearODE(ExplicitUnsteadyComponent):
         delta_t = self.om_data_exchange.step_size
         butcher_diagonal_element = self.om_data_exchange.stage_factor
         factor = (1 + delta_t * butcher_diagonal_element) ** -1
-        if mode == "fwd":
-            d_outputs["y_stage"] -= factor * d_inputs["y_old"]
-            d_outputs["y_stage"] -= delta_t * factor * d_inputs["y_accumulated_stages"]
-        elif mode == "rev":
-            d_inputs["y_old"] -= factor * d_outputs["y_stage"]
-            d_inputs["y_accumulated_stages"] -= delta_t * factor * d_outputs["y_stage"]
+        partials = {"y_old": -factor, "y_accumulated_stages": -delta_t * factor}
+        for name, partial in partials.items():
+            if name in d_inputs:
+                if mode == "fwd":
+                    d_outputs["y_stage"] += partial * d_inputs[name]
+                elif mode == "rev":
+                    d_inputs[name] += partial * d_outputs["y_stage"]
 
     @staticmethod
     def simple_linear_solution(
-- 
2.43.0


From 223b55688f53d81f9b6bbf3c883f76b87a6f585f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:16 +0000
Subject: [PATCH 27/54] fix: pass initial values of all quantities to the
 analytical solution

Instead, the initial value of the quantity currently read was passed for all of
them.
---
 src/rkopenmdao/file_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rkopenmdao/file_writer.py b/src/rkopenmdao/file_writer.py
index 2a4ee28..65fb883 100644
--- a/src/rkopenmdao/file_writer.py
+++ b/src/rkopenmdao/file_writer.py
@@ -220,7 +220,7 @@ def read_hdf5_file(
                     result[quantity][int(key)][row] = group[quantity][row]
 
                 if len(quantities) > 1:
-                    quan_result = [result[quantity][0]] * len(quantities)
+                    quan_result = [f["0"][name][...] for name in quantities]
                     error_data[quantity][int(key)] = np.abs(
                         solution(
                             time[int(key)],
-- 
2.43.0


From 9563c9e7825978c6ab306b177a9ec30ea56fbd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:16 +0000
Subject: [PATCH 28/54] fix: file writing for steps that are recomputed from
 checkpoints

The reverse mode with pyrevolve failed in that case, since the groups of the
recomputed steps already existed.
---
 src/rkopenmdao/file_writer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rkopenmdao/file_writer.py b/src/rkopenmdao/file_writer.py
index 65fb883..3e4b985 100644
--- a/src/rkopenmdao/file_writer.py
+++ b/src/rkopenmdao/file_writer.py
@@ -80,6 +80,9 @@ class OpenMDAOHDF5Callback(Callback):
             iter_strs.append(f"{iteration}")
         with h5py.File(self.filename, mode=mode, driver="mpio", comm=self.comm) as hf:
             for iter_str in iter_strs:
+                # Steps get repeated when recomputing from checkpoints.
+                if iter_str in hf:
+                    continue
                 hf.create_group(iter_str)
                 hf[iter_str].create_dataset("time", shape=(1,), dtype=np.float64)
                 for (
-- 
2.43.0


From f8796a15e5103a951874d3e55a5494ae01efe552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:41 +0000
Subject: [PATCH 29/54] fix: report quantities which aren't part of the time
 stage problem

Requested quantities without any matching tagged variable were silently ignored,
even though quantities without a stage_output_var are an error otherwise.
---
 src/rkopenmdao/metadata_extractor.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/rkopenmdao/metadata_extractor.py b/src/rkopenmdao/metadata_extractor.py
index 1039eaf..2e148dd 100644
--- a/src/rkopenmdao/metadata_extractor.py
+++ b/src/rkopenmdao/metadata_extractor.py
@@ -137,6 +137,12 @@ def extract_time_integration_metadata(
                 translation_metadata=TimeIntegrationTranslationMetadata(),
             )
         quantity_list.append(quantity)
+    missing_quantities = time_integration_set - {q.name for q in quantity_list}
+    if missing_quantities:
+        raise SetupError(
+            "There are no inner output variables for the time integration quantities "
+            f"{sorted(missing_quantities)}."
+        )
     runge_kutta_metadata = TimeIntegrationMetadata(
         time_variable=_search_for_time_variable(stage_problem),
         time_integration_array_size=array_size,
@@ -332,6 +338,14 @@ def add_time_independent_input_metadata(
                 translation_metadata=TimeIndependentInputTranslationMetadata(),
             )
         runge_kutta_metadata.time_independent_input_quantity_list.append(quantity)
+    missing_quantities = time_independent_input_set - {
+        q.name for q in runge_kutta_metadata.time_independent_input_quantity_list
+    }
+    if missing_quantities:
+        raise SetupError(
+            "There are no inner input variables for the time independent input "
+            f"quantities {sorted(missing_quantities)}."
+        )
 
 
 def _extract_time_independent_quantity(
-- 
2.43.0


From 1c99f9d45e540502c4759b5af88db6d8156b2536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:09 +0000
Subject: [PATCH 30/54] fix: don't expect checkpoints of a previous setup in
 reverse mode

---
 src/rkopenmdao/runge_kutta_integrator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 0b2eb25..76ca8b9 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -434,6 +434,8 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             state_perturbation=self._time_integration_state_perturbations,
             **self.options["checkpoint_options"],
         )
+        # A new checkpointer doesn't have any checkpoints yet.
+        self._cached_input = None
 
     def compute(self, inputs, outputs, discrete_inputs=None, discrete_outputs=None):
         if self.comm.rank == 0:
-- 
2.43.0


From 4fa21a69a88d3eb4e3bed47c883131361a51ae17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:41 +0000
Subject: [PATCH 31/54] fix: don't retry rejected steps with an unchanged step
 size

---
 src/rkopenmdao/error_controller.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/rkopenmdao/error_controller.py b/src/rkopenmdao/error_controller.py
index 9ebcb4f..d8c8586 100644
--- a/src/rkopenmdao/error_controller.py
+++ b/src/rkopenmdao/error_controller.py
@@ -148,10 +148,10 @@ class ErrorController:
             step_size_history=step_size_history,
         )
         if not status.acceptance:
-            if status.step_size_suggestion > delta_t and self._inner_most:
+            if status.step_size_suggestion >= delta_t and self._inner_most:
                 raise OuterErrorControllerError(
-                    f"""Suggested delta T {status.step_size_suggestion} is larger than 
-                    delta t {delta_t} on failure."""
+                    f"""Suggested delta T {status.step_size_suggestion} is not
+                    smaller than delta t {delta_t} on failure."""
                 )
         return status
 
@@ -421,9 +421,9 @@ class ErrorControllerDecorator(ErrorController):
             self._outer_counter = 0
         else:
             self._is_not_inner = False
-            if status.step_size_suggestion > delta_t and self._inner_most:
+            if status.step_size_suggestion >= delta_t and self._inner_most:
                 raise InnerErrorControllerError(
-                    f"""Suggested delta T {status.step_size_suggestion} is larger than 
-                    delta t {delta_t} on failure."""
+                    f"""Suggested delta T {status.step_size_suggestion} is not
+                    smaller than delta t {delta_t} on failure."""
                 )
         return status
-- 
2.43.0


From 2739c811bff7adc16f236a11f35371c48972eddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:32 +0000
Subject: [PATCH 32/54] fix: report vanishing step sizes instead of integrating
 forever

---
 src/rkopenmdao/error_controller.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rkopenmdao/error_controller.py b/src/rkopenmdao/error_controller.py
index d8c8586..788210c 100644
--- a/src/rkopenmdao/error_controller.py
+++ b/src/rkopenmdao/error_controller.py
@@ -212,6 +212,11 @@ class ErrorController:
         new_delta_t = max(
             self.config.lower_bound, min(self.config.upper_bound, new_delta_t)
         )
+        if new_delta_t <= 0.0:
+            raise OuterErrorControllerError(
+                f"Step size vanishes after step size {delta_t} with error measure "
+                f"{error_measure}."
+            )
         new_delta_t = min(remaining_time + (1 - success) * delta_t, new_delta_t)
         return ErrorControllerStatus(new_delta_t, success)
 
-- 
2.43.0


From 2554a84f3d4182e8bd3f295c8cefe05611bdbfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:09 +0000
Subject: [PATCH 33/54] fix: return to the first controller of a chain after
 each accepted step

---
 src/rkopenmdao/error_controller.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rkopenmdao/error_controller.py b/src/rkopenmdao/error_controller.py
index 788210c..d7676a3 100644
--- a/src/rkopenmdao/error_controller.py
+++ b/src/rkopenmdao/error_controller.py
@@ -424,6 +424,7 @@ class ErrorControllerDecorator(ErrorController):
         )
         if status.acceptance:
             self._outer_counter = 0
+            self.error_controller.reset()
         else:
             self._is_not_inner = False
             if status.step_size_suggestion >= delta_t and self._inner_most:
-- 
2.43.0


From 55475417e9592dfafbb2c0d3834691fef346e2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:06 +0000
Subject: [PATCH 34/54] fix: reject variables with several quantities or roles
 and roles on wrong variables

---
 src/rkopenmdao/metadata_extractor.py | 48 ++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/src/rkopenmdao/metadata_extractor.py b/src/rkopenmdao/metadata_extractor.py
index 2e148dd..49732fa 100644
--- a/src/rkopenmdao/metadata_extractor.py
+++ b/src/rkopenmdao/metadata_extractor.py
@@ -137,6 +137,15 @@ def extract_time_integration_metadata(
                 translation_metadata=TimeIntegrationTranslationMetadata(),
             )
         quantity_list.append(quantity)
+    _check_variable_roles(
+        stage_problem,
+        time_integration_set,
+        {
+            "step_input_var": "input",
+            "accumulated_stage_var": "input",
+            "stage_output_var": "output",
+        },
+    )
     missing_quantities = time_integration_set - {q.name for q in quantity_list}
     if missing_quantities:
         raise SetupError(
@@ -151,6 +160,37 @@ def extract_time_integration_metadata(
     return runge_kutta_metadata
 
 
+def _check_variable_roles(
+    stage_problem: om.Problem, quantities: set[str], roles: dict[str, str]
+) -> None:
+    """Checks that no variable belongs to multiple quantities, and that each has at most
+    one of the roles, and only those belonging to its type."""
+    for iotype in ("input", "output"):
+        variables = stage_problem.model.get_io_metadata(
+            iotypes=iotype,
+            metadata_keys=["tags"],
+            tags=list(quantities),
+            get_remote=True,
+        )
+        for var, data in variables.items():
+            var_quantities = quantities & set(data["tags"])
+            var_roles = set(roles) & set(data["tags"])
+            if len(var_quantities) > 1:
+                raise SetupError(
+                    f"Variable {var} is tagged for multiple quantities: "
+                    f"{sorted(var_quantities)}."
+                )
+            if len(var_roles) > 1:
+                raise SetupError(
+                    f"Variable {var} is tagged for multiple roles: {sorted(var_roles)}."
+                )
+            if any(roles[role] != iotype for role in var_roles):
+                raise SetupError(
+                    f"Variable {var} is an {iotype}, which doesn't match its tag "
+                    f"{sorted(var_roles)}."
+                )
+
+
 def _search_for_time_variable(stage_problem: om.Problem) -> str | None:
     local_quantities = stage_problem.model.get_io_metadata(
         iotypes="input",
@@ -338,6 +378,14 @@ def add_time_independent_input_metadata(
                 translation_metadata=TimeIndependentInputTranslationMetadata(),
             )
         runge_kutta_metadata.time_independent_input_quantity_list.append(quantity)
+    _check_variable_roles(
+        stage_problem,
+        time_independent_input_set.union(
+            quantity.name
+            for quantity in runge_kutta_metadata.time_integration_quantity_list
+        ),
+        {"time_independent_input_var": "input"},
+    )
     missing_quantities = time_independent_input_set - {
         q.name for q in runge_kutta_metadata.time_independent_input_quantity_list
     }
-- 
2.43.0


From fc38e05b51b136ecd1cd075459b70b85eedb7935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:26 +0000
Subject: [PATCH 35/54] fix: take the index range of distributed time
 independent inputs from the input sizes

---
 src/rkopenmdao/metadata_extractor.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/metadata_extractor.py b/src/rkopenmdao/metadata_extractor.py
index 49732fa..0f2fa10 100644
--- a/src/rkopenmdao/metadata_extractor.py
+++ b/src/rkopenmdao/metadata_extractor.py
@@ -225,13 +225,18 @@ def _create_local_array_metadata(
     detailed_data: dict,
 ) -> ArrayMetadata:
     if detailed_data["shape"] != detailed_data["global_shape"]:
+        iotype = (
+            "output"
+            if detailed_var in stage_problem.model._var_allprocs_abs2meta["output"]
+            else "input"
+        )
         try:
-            sizes = stage_problem.model._var_sizes["output"][
+            sizes = stage_problem.model._var_sizes[iotype][
                 :,
                 stage_problem.model._var_allprocs_abs2idx[detailed_var],
             ]
         except KeyError:  # Have to deal with an older openMDAO version
-            sizes = stage_problem.model._var_sizes["nonlinear"]["output"][
+            sizes = stage_problem.model._var_sizes["nonlinear"][iotype][
                 :,
                 stage_problem.model._var_allprocs_abs2idx["nonlinear"][detailed_var],
             ]
-- 
2.43.0


From 4333b3cdae107731425fb4cda6fba05cb40e1b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:26 +0000
Subject: [PATCH 36/54] fix: allow time independent inputs without entries on a
 process

---
 src/rkopenmdao/runge_kutta_integrator.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 76ca8b9..66bbc01 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -348,8 +348,14 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             self.add_input(
                 quantity.name,
                 shape=quantity.array_metadata.shape,
-                val=time_stage_problem.get_val(
-                    quantity.translation_metadata.time_independent_input_var
+                val=(
+                    # Arrays of size 0 tend to have the wrong shape when aquired
+                    # from OpenMDAO, making a manual reshape necessary in that case.
+                    time_stage_problem.get_val(
+                        quantity.translation_metadata.time_independent_input_var
+                    ).reshape(quantity.array_metadata.shape)
+                    if quantity.array_metadata.local
+                    else np.zeros(quantity.array_metadata.shape)
                 ),
                 distributed=quantity.array_metadata.distributed,
             )
-- 
2.43.0


From 348d92f91343ac07fcd3f8a06662d61100769817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:33 +0000
Subject: [PATCH 37/54] fix: reject tableaux that are neither explicit nor
 diagonally implicit

---
 src/rkopenmdao/runge_kutta_integrator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 66bbc01..7b2b94a 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -13,6 +13,7 @@ from openmdao.vectors.vector import Vector as OMVector
 from rkopenmdao.callback import Callback, IterationLogging, WallClockMeasurement
 from rkopenmdao.discretized_ode.discretized_ode import DiscretizedODEResultState
 from rkopenmdao.error_measurer import ErrorMeasurer, SimpleErrorMeasurer
+from rkopenmdao.errors import SetupError
 from rkopenmdao.time_discretization.stage_ordered_runge_kutta_discretization import (
     StageOrderedRungeKuttaDiscretization,
     StageOrderedEmbeddedRungeKuttaDiscretization,
@@ -385,6 +386,11 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
 
     def _setup_runge_kutta_discretization(self):
         butcher_tableau: ButcherTableau = self.options["butcher_tableau"]
+        if butcher_tableau.is_implicit():
+            raise SetupError(
+                f"Butcher tableau '{butcher_tableau.name}' is neither explicit nor "
+                "diagonally implicit."
+            )
         if butcher_tableau.is_embedded:
             self._runge_kutta_discretization = (
                 StageOrderedEmbeddedRungeKuttaDiscretization(butcher_tableau)
-- 
2.43.0


From 97e0731d571d07ae2c97da8d44033cb5b8faadc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:25 +0000
Subject: [PATCH 38/54] fix: start linear solves of a stage from zero

---
 src/rkopenmdao/discretized_ode/openmdao_ode.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rkopenmdao/discretized_ode/openmdao_ode.py b/src/rkopenmdao/discretized_ode/openmdao_ode.py
index a67223a..b8c240c 100644
--- a/src/rkopenmdao/discretized_ode/openmdao_ode.py
+++ b/src/rkopenmdao/discretized_ode/openmdao_ode.py
@@ -161,6 +161,8 @@ class OpenMDAOODE(DiscretizedODE):
         self._time_stage_problem.model.run_linearize()
         _, d_outputs, d_residuals = self._time_stage_problem.model.get_linear_vectors()
         d_residuals.set_val(0.0)
+        # Iterative linear solvers start from the current values.
+        d_outputs.set_val(0.0)
         self._input_state_to_om_vector(
             np.array([ode_input_perturbation.time]),
             ode_input_perturbation.step_input,
@@ -197,6 +199,8 @@ class OpenMDAOODE(DiscretizedODE):
         self._time_stage_problem.model.run_linearize()
         _, d_outputs, d_residuals = self._time_stage_problem.model.get_linear_vectors()
         d_outputs.set_val(0.0)
+        # Iterative linear solvers start from the current values.
+        d_residuals.set_val(0.0)
         self._output_state_to_om_vector(
             ode_result_perturbation.stage_update,
             ode_result_perturbation.stage_state,
-- 
2.43.0


From a7056b6edfb6a2d776d078667bb1cc3669cfba86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:33 +0000
Subject: [PATCH 39/54] fix: avoid cancellation for small steps in the second
 Kaps component

---
 src/rkopenmdao/odes/kaps.py | 42 ++++++++++++-------------------------
 1 file changed, 13 insertions(+), 29 deletions(-)

diff --git a/src/rkopenmdao/odes/kaps.py b/src/rkopenmdao/odes/kaps.py
index be98204..8a45e29 100644
--- a/src/rkopenmdao/odes/kaps.py
+++ b/src/rkopenmdao/odes/kaps.py
@@ -167,37 +167,21 @@ class KapsComponent2(ImplicitUnsteadyComponent):
     def solve_nonlinear(self, inputs, outputs):
         delta_t = self.om_data_exchange.step_size
         butcher_diagonal_element = self.om_data_exchange.stage_factor
-        if butcher_diagonal_element != 0.0:
-            outputs["y_2_stage"] = -(
-                delta_t * inputs["y_2_accumulated_stages"]
-                + inputs["y_2_old"]
-                + (butcher_diagonal_element * delta_t + 1)
-                / (2 * butcher_diagonal_element * delta_t)
-                - np.sqrt(
-                    4 * butcher_diagonal_element**2 * delta_t**2 * inputs["y_1"]
-                    + butcher_diagonal_element**2 * delta_t**2
-                    + 4
-                    * butcher_diagonal_element
-                    * delta_t**2
-                    * inputs["y_2_accumulated_stages"]
-                    + 4 * butcher_diagonal_element * delta_t * inputs["y_2_old"]
-                    + 2 * butcher_diagonal_element * delta_t
-                    + 1
-                )
-                / (2 * butcher_diagonal_element * delta_t)
-            ) / (butcher_diagonal_element * delta_t)
-
-        else:
-            outputs["y_2_stage"] = (
-                inputs["y_1"]
-                - (inputs["y_2_old"] + delta_t * inputs["y_2_accumulated_stages"])
-                - (inputs["y_2_old"] + delta_t * inputs["y_2_accumulated_stages"]) ** 2
-            )
 
-        outputs["y_2"] = inputs["y_2_old"] + delta_t * (
-            inputs["y_2_accumulated_stages"]
-            + butcher_diagonal_element * outputs["y_2_stage"]
+        factor = delta_t * butcher_diagonal_element
+        # The new value fulfils factor * y_2**2 + (1 + factor) * y_2 = explicit_part.
+        # This form of its solution has no cancellation for small step sizes.
+        explicit_part = (
+            inputs["y_2_old"]
+            + delta_t * inputs["y_2_accumulated_stages"]
+            + factor * inputs["y_1"]
+        )
+        outputs["y_2"] = (
+            2
+            * explicit_part
+            / (1 + factor + np.sqrt((1 + factor) ** 2 + 4 * factor * explicit_part))
         )
+        outputs["y_2_stage"] = inputs["y_1"] - outputs["y_2"] - outputs["y_2"] ** 2
 
     def linearize(self, inputs, outputs, partials):
         self.y_2 = outputs["y_2"]
-- 
2.43.0


From 1f241647aff7b85036fe6fd8da70f205f2538600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:36 +0000
Subject: [PATCH 40/54] fix: fulfil the initial values in the solution of Kaps'
 problem

---
 src/rkopenmdao/odes/kaps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rkopenmdao/odes/kaps.py b/src/rkopenmdao/odes/kaps.py
index 8a45e29..92c4ed2 100644
--- a/src/rkopenmdao/odes/kaps.py
+++ b/src/rkopenmdao/odes/kaps.py
@@ -324,9 +324,10 @@ class KapsGroup(om.Group):
         Analytical solution to Kaps problem (using Homotopy Perturbation Method) to
         compare with the components above.
         """
+        time = time - initial_time
         return np.array(
             [
-                initial_values[1] * np.exp(-2 * time)
+                initial_values[1] ** 2 * np.exp(-2 * time)
                 + (initial_values[0] - initial_values[1] ** 2) * np.exp(-2 * time),
                 (initial_values[1] - initial_values[0] + initial_values[1] ** 2)
                 * np.exp(-time)
-- 
2.43.0


From 2db2d2acb212e5495d0db65350ef53947103d522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:39 +0000
Subject: [PATCH 41/54] fix: use a sound linear solver for the group of Kaps'
 problem

---
 src/rkopenmdao/odes/kaps.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/odes/kaps.py b/src/rkopenmdao/odes/kaps.py
index 92c4ed2..c329fb1 100644
--- a/src/rkopenmdao/odes/kaps.py
+++ b/src/rkopenmdao/odes/kaps.py
@@ -304,10 +304,11 @@ class KapsGroup(om.Group):
             rtol=1e-9,
         )
 
-        self.linear_solver = om.PETScKrylov(
+        # Linear block solvers are no fixed preconditioner (their result depends on the
+        # values present in the vectors), with them Krylov methods can go wrong.
+        self.linear_solver = om.ScipyKrylov(
             iprint=-1, restart=10, atol=1e-15, rtol=1e-15
         )
-        self.linear_solver.precon = om.LinearBlockJac(iprint=-1, maxiter=1)
 
     @staticmethod
     def get_initial_values():
-- 
2.43.0


From 97f4d72e4d93e92eda974d36fe8086dbdc2a7bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:20 +0000
Subject: [PATCH 42/54] fix: keep files of different disk checkpointers apart

---
 .../checkpoint_interface/pyrevolve_checkpointer.py  | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
index 24bdfb2..7da84b1 100644
--- a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
+++ b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
@@ -2,6 +2,8 @@
 
 from dataclasses import dataclass, field
 from copy import deepcopy
+import os
+import tempfile
 import warnings
 
 import pyrevolve as pr
@@ -58,6 +60,7 @@ class PyrevolveCheckpointer(CheckpointInterface):
     _first_complete_state: TimeIntegrationState = field(init=None)
     _revolver: pr.BaseRevolver | None = field(init=None)
     _revolver_class_type: type = field(init=None)
+    _directory: tempfile.TemporaryDirectory | None = field(init=None)
 
     def __post_init__(self):
         """Sets up all permanent data derived from initialization arguments."""
@@ -89,6 +92,16 @@ class PyrevolveCheckpointer(CheckpointInterface):
                 self.revolver_options[key] = storage_list
             else:
                 self.revolver_options[key] = value
+        self._directory = None
+        if self.revolver_type == "Disk" or self.revolver_options.get("diskstorage"):
+            # pyrevolve distinguishes its files by process and time (in seconds) only,
+            # a directory per checkpointer prevents sharing files between them.
+            base = os.path.split(self.revolver_options.get("filedir") or "./")
+            os.makedirs(base[0] or ".", exist_ok=True)
+            self._directory = tempfile.TemporaryDirectory(
+                prefix=base[1], dir=base[0] or "."
+            )
+            self.revolver_options["filedir"] = os.path.join(self._directory.name, "")
         self.revolver_options["checkpoint"] = checkpoint
         self.revolver_options["n_timesteps"] = num_steps - 1
 
-- 
2.43.0


From 5efee9c241be378a3924ad4e46856eed72d55930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:14 +0000
Subject: [PATCH 43/54] fix: let all processes agree on whether checkpoints are
 usable

The reverse mode compared the inputs with those of the checkpoints on each process
separately. With distributed quantities, inputs can differ on some processes only;
those recomputed the primal integration while the others used their checkpoints, so
that the processes waited for each other forever.
---
 src/rkopenmdao/runge_kutta_integrator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 7b2b94a..ac5005e 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -871,7 +871,7 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         temporary_integration_state.discretization_state.final_time[0] = inputs[
             "time_initial"
         ][0]
-        if self._cached_input is None or not (
+        checkpoints_usable = self._cached_input is not None and (
             np.array_equal(
                 self._cached_input.final_state,
                 temporary_integration_state.discretization_state.final_state,
@@ -884,7 +884,10 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
                 self._cached_input.final_time,
                 temporary_integration_state.discretization_state.final_time,
             )
-        ):
+        )
+        # The inputs may have changed on some processes only, but all of them need to
+        # take part in the recomputation.
+        if not all(self.comm.allgather(checkpoints_usable)):
             if self.comm.rank == 0:
                 print("Preparing checkpoints by calling compute()")
             outputs = self._vector_class("nonlinear", "output", self)
-- 
2.43.0


From f3efba36d82fb33f3999f96e2870d604c9f3f20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:55 +0000
Subject: [PATCH 44/54] fix: only accept steps violating the tolerance at the
 lower bound itself

---
 src/rkopenmdao/error_controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rkopenmdao/error_controller.py b/src/rkopenmdao/error_controller.py
index d7676a3..53a1eac 100644
--- a/src/rkopenmdao/error_controller.py
+++ b/src/rkopenmdao/error_controller.py
@@ -193,7 +193,7 @@ class ErrorController:
         # Step sizes at (or, due to a limited remaining time, below) the lower bound
         # can't be decreased any further.
         success = bool(
-            delta_t - self.config.lower_bound < 1e-10
+            delta_t <= self.config.lower_bound * (1.0 + 1e-10)
             or error_measure <= self.config.tol
         )
 
-- 
2.43.0


From 677862277219b11281d721922e1158b6943281c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:28 +0000
Subject: [PATCH 45/54] fix: reject quantities whose variables differ in size

---
 src/rkopenmdao/metadata_extractor.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/rkopenmdao/metadata_extractor.py b/src/rkopenmdao/metadata_extractor.py
index 0f2fa10..0be0855 100644
--- a/src/rkopenmdao/metadata_extractor.py
+++ b/src/rkopenmdao/metadata_extractor.py
@@ -321,6 +321,21 @@ def _extract_time_integration_quantity(
             f"Either none or both have to be present."
         )
 
+    sizes = {
+        var: np.prod(detailed_local_quantity[var]["shape"])
+        for var in (
+            translation_metadata.stage_output_var,
+            translation_metadata.step_input_var,
+            translation_metadata.accumulated_stage_var,
+        )
+        if var is not None
+    }
+    if len(set(sizes.values())) > 1:
+        raise SetupError(
+            f"For quantity {quantity_name}, the sizes of the inner variables differ: "
+            f"{sizes}."
+        )
+
     # We check that there is a stage_output_var, so array_metadata must exist
     # pylint: disable=possibly-used-before-assignment
     quantity = TimeIntegrationQuantity(
-- 
2.43.0


From d382ce6f4c343abd06f99f87bc0f24be415cc675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:42 +0000
Subject: [PATCH 46/54] fix: reject inputs without an own, unmodified source

---
 .../discretized_ode/openmdao_ode.py           |  2 +
 src/rkopenmdao/metadata_extractor.py          | 77 +++++++++++++++++++
 2 files changed, 79 insertions(+)

diff --git a/src/rkopenmdao/discretized_ode/openmdao_ode.py b/src/rkopenmdao/discretized_ode/openmdao_ode.py
index b8c240c..ca5d305 100644
--- a/src/rkopenmdao/discretized_ode/openmdao_ode.py
+++ b/src/rkopenmdao/discretized_ode/openmdao_ode.py
@@ -18,6 +18,7 @@ from rkopenmdao.metadata_extractor import (
     extract_time_integration_metadata,
     add_time_independent_input_metadata,
     add_distributivity_information,
+    check_input_sources,
 )
 
 from rkopenmdao.om_data_exchange import OMDataExchange
@@ -94,6 +95,7 @@ class OpenMDAOODE(DiscretizedODE):
         add_distributivity_information(
             self._time_stage_problem, self.time_integration_metadata
         )
+        check_input_sources(self._time_stage_problem, self.time_integration_metadata)
         if (
             len(
                 inspect.signature(
diff --git a/src/rkopenmdao/metadata_extractor.py b/src/rkopenmdao/metadata_extractor.py
index 0be0855..d4d01a8 100644
--- a/src/rkopenmdao/metadata_extractor.py
+++ b/src/rkopenmdao/metadata_extractor.py
@@ -10,6 +10,7 @@ from itertools import chain
 
 import numpy as np
 import openmdao.api as om
+from openmdao.utils.units import unit_conversion
 
 from mpi4py import MPI
 
@@ -484,6 +485,82 @@ def add_distributivity_information(
         quantity.array_metadata.distributed = not shapes_match_everywhere
 
 
+def check_input_sources(
+    stage_problem: om.Problem, runge_kutta_metadata: TimeIntegrationMetadata
+) -> None:
+    """Checks that all local input variables of the time integration get their values
+    unmodified from a source of their own. Since data is passed to the stage problem via
+    those sources, the inputs would otherwise not contain the data intended for them."""
+    model = stage_problem.model
+    input_metadata = model.get_io_metadata(
+        iotypes="input", metadata_keys=["shape", "units", "src_indices"]
+    )
+    output_metadata = model.get_io_metadata(
+        iotypes="output", metadata_keys=["shape", "units"]
+    )
+    independent_variables = model.get_io_metadata(iotypes="output", is_indep_var=True)
+    input_variables = [runge_kutta_metadata.time_variable]
+    non_distributed_variables = {runge_kutta_metadata.time_variable}
+    for quantity in chain(
+        runge_kutta_metadata.time_integration_quantity_list,
+        runge_kutta_metadata.time_independent_input_quantity_list,
+    ):
+        if quantity.type == "time_integration":
+            quantity_variables = [
+                quantity.translation_metadata.step_input_var,
+                quantity.translation_metadata.accumulated_stage_var,
+            ]
+        else:
+            quantity_variables = [
+                quantity.translation_metadata.time_independent_input_var
+            ]
+        input_variables += quantity_variables
+        if not quantity.array_metadata.distributed:
+            non_distributed_variables.update(quantity_variables)
+
+    used_sources = {}
+    for var in input_variables:
+        if var not in input_metadata:
+            continue
+        source = model.get_source(var)
+        if source in used_sources:
+            raise SetupError(
+                f"Input variables {used_sources[source]} and {var} have the same "
+                f"source {source}."
+            )
+        used_sources[source] = var
+        if source not in independent_variables:
+            raise SetupError(
+                f"Source {source} of input variable {var} is not an independent "
+                f"variable."
+            )
+        var_data, source_data = input_metadata[var], output_metadata[source]
+        size = np.prod(var_data["shape"])
+        if np.prod(source_data["shape"]) != size:
+            raise SetupError(
+                f"Input variable {var} and its source {source} differ in size."
+            )
+        if (
+            var in non_distributed_variables
+            and var_data["src_indices"] is not None
+            and not np.array_equal(
+                var_data["src_indices"].shaped_array().ravel(), np.arange(size)
+            )
+        ):
+            raise SetupError(
+                f"The entries of input variable {var} are in a different order than in "
+                f"its source {source}."
+            )
+        if (
+            var_data["units"] is not None
+            and source_data["units"] is not None
+            and unit_conversion(source_data["units"], var_data["units"]) != (1.0, 0.0)
+        ):
+            raise SetupError(
+                f"Input variable {var} and its source {source} differ in their units."
+            )
+
+
 # TODO: we will later want to differentiate the algebraic part of DAEs (to take
 #  advantage of the FSAL property of some butcher tableaux/RK schemes)
 # def add_algebraic_metadata(
-- 
2.43.0


From c0920be54876044db5fb9ec6a04f5aae140083d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:19 +0000
Subject: [PATCH 47/54] fix: report that approximated totals of the stage model
 are not supported

---
 src/rkopenmdao/discretized_ode/openmdao_ode.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/discretized_ode/openmdao_ode.py b/src/rkopenmdao/discretized_ode/openmdao_ode.py
index ca5d305..bdf65c1 100644
--- a/src/rkopenmdao/discretized_ode/openmdao_ode.py
+++ b/src/rkopenmdao/discretized_ode/openmdao_ode.py
@@ -160,7 +160,7 @@ class OpenMDAOODE(DiscretizedODE):
         self._set_linearization_point(ode_input_perturbation.linearization_point)
         self._om_data_exchange.step_size = step_size
         self._om_data_exchange.stage_factor = stage_factor
-        self._time_stage_problem.model.run_linearize()
+        self._linearize()
         _, d_outputs, d_residuals = self._time_stage_problem.model.get_linear_vectors()
         d_residuals.set_val(0.0)
         # Iterative linear solvers start from the current values.
@@ -198,7 +198,7 @@ class OpenMDAOODE(DiscretizedODE):
         self._set_linearization_point(ode_result_perturbation.linearization_point)
         self._om_data_exchange.step_size = step_size
         self._om_data_exchange.stage_factor = stage_factor
-        self._time_stage_problem.model.run_linearize()
+        self._linearize()
         _, d_outputs, d_residuals = self._time_stage_problem.model.get_linear_vectors()
         d_outputs.set_val(0.0)
         # Iterative linear solvers start from the current values.
@@ -232,6 +232,16 @@ class OpenMDAOODE(DiscretizedODE):
             step_input_pert, stage_input_pert, independent_input_pert, time_pert_arr[0]
         )
 
+    def _linearize(self) -> None:
+        model = self._time_stage_problem.model
+        # OpenMDAO would solve the linear system without any derivatives in this case.
+        if model._owns_approx_jac:  # pylint: disable=protected-access
+            raise RuntimeError(
+                "Approximated total derivatives of the time stage problem's model are "
+                "not supported. Approximate the derivatives of its subsystems instead."
+            )
+        model.run_linearize()
+
     def get_state_size(self) -> int:
         return self.time_integration_metadata.time_integration_array_size
 
-- 
2.43.0


From 935d9b31c1b8aced6d87e9caf1992d91d4e85c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:18 +0000
Subject: [PATCH 48/54] fix: integer step sizes and tolerances do not make the
 step size control integer

---
 src/rkopenmdao/runge_kutta_integrator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index ac5005e..1bb4f98 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -421,12 +421,12 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             self._runge_kutta_discretization.create_empty_discretization_state(
                 self._ode
             ),
-            np.array([self._integration_config.initial_step_size]),
+            np.array([self._integration_config.initial_step_size], dtype=float),
             # FIXME: The error controller should report how far back time steps and
             # error estimates need to be provided, currently this is hardcoded to two
             # for both.
             np.zeros(2),
-            np.full(2, self._error_controller.config.tol),
+            np.full(2, self._error_controller.config.tol, dtype=float),
         )
         self._time_integration_state_perturbations = TimeIntegrationState(
             self._runge_kutta_discretization.create_empty_discretization_state(
-- 
2.43.0


From 3cb9145eb106c8e101d9faa3eb2a4a923f8039c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:18 +0000
Subject: [PATCH 49/54] fix: integer states given to the OpenMDAO ODE do not
 make its results integer

---
 src/rkopenmdao/discretized_ode/openmdao_ode.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/discretized_ode/openmdao_ode.py b/src/rkopenmdao/discretized_ode/openmdao_ode.py
index bdf65c1..2e5e383 100644
--- a/src/rkopenmdao/discretized_ode/openmdao_ode.py
+++ b/src/rkopenmdao/discretized_ode/openmdao_ode.py
@@ -136,7 +136,7 @@ class OpenMDAOODE(DiscretizedODE):
         self._om_data_exchange.stage_factor = stage_factor
         self._time_stage_problem.model.run_solve_nonlinear()
 
-        stage_update = np.zeros_like(ode_input.step_input)
+        stage_update = np.zeros_like(ode_input.step_input, dtype=float)
         stage_state = np.zeros_like(stage_update)
         independent_output = np.zeros(
             0
@@ -176,7 +176,9 @@ class OpenMDAOODE(DiscretizedODE):
 
         self._om_run_solve_linear("fwd")
 
-        stage_update_pert = np.zeros_like(ode_input_perturbation.step_input)
+        stage_update_pert = np.zeros_like(
+            ode_input_perturbation.step_input, dtype=float
+        )
         stage_state_pert = np.zeros_like(stage_update_pert)
         independent_output_pert = np.zeros(
             0
-- 
2.43.0


From 73f29d901705f678b251d86b8e09065e47dc14df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:04 +0000
Subject: [PATCH 50/54] fix: accept variables without dimensions in the stage
 problem

Quantities and time independent inputs of shape () gave a state size of a
floating point type, which ended in a TypeError; a time variable of shape ()
could not be read.
---
 src/rkopenmdao/discretized_ode/openmdao_ode.py | 2 +-
 src/rkopenmdao/metadata_extractor.py           | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rkopenmdao/discretized_ode/openmdao_ode.py b/src/rkopenmdao/discretized_ode/openmdao_ode.py
index 2e5e383..e524c2b 100644
--- a/src/rkopenmdao/discretized_ode/openmdao_ode.py
+++ b/src/rkopenmdao/discretized_ode/openmdao_ode.py
@@ -352,7 +352,7 @@ class OpenMDAOODE(DiscretizedODE):
                 self._time_stage_problem.model.get_source(
                     self.time_integration_metadata.time_variable
                 )
-            ][0]
+            ].item()
         for quantity in self.time_integration_metadata.time_integration_quantity_list:
             if quantity.array_metadata.local:
                 start = quantity.array_metadata.start_index
diff --git a/src/rkopenmdao/metadata_extractor.py b/src/rkopenmdao/metadata_extractor.py
index d4d01a8..7f1ae82 100644
--- a/src/rkopenmdao/metadata_extractor.py
+++ b/src/rkopenmdao/metadata_extractor.py
@@ -245,7 +245,7 @@ def _create_local_array_metadata(
         global_end_index = start + sizes[stage_problem.comm.rank]
     else:
         global_start_index = 0
-        global_end_index = np.prod(detailed_data["shape"])
+        global_end_index = int(np.prod(detailed_data["shape"]))
     return ArrayMetadata(
         shape=detailed_data["shape"],
         global_shape=detailed_data["global_shape"],
@@ -276,7 +276,7 @@ def _extract_time_integration_quantity(
             found_stage_output_var += 1
             translation_metadata.stage_output_var = detailed_var
             start_index = array_size
-            array_size += np.prod(detailed_data["shape"])
+            array_size += int(np.prod(detailed_data["shape"]))
             end_index = array_size
             array_metadata = _create_local_array_metadata(
                 stage_problem=stage_problem,
@@ -434,7 +434,7 @@ def _extract_time_independent_quantity(
             found_time_independent_input_var += 1
             translation_metadata.time_independent_input_var = detailed_var
             start_index = array_size
-            array_size += np.prod(detailed_data["shape"])
+            array_size += int(np.prod(detailed_data["shape"]))
             end_index = array_size
             array_metadata = _create_local_array_metadata(
                 stage_problem=stage_problem,
-- 
2.43.0


From 14c63ce4178c0eb7e440db1f4f044d569fec8aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:04 +0000
Subject: [PATCH 51/54] fix: read quantities without dimensions from output
 files

---
 src/rkopenmdao/file_writer.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/rkopenmdao/file_writer.py b/src/rkopenmdao/file_writer.py
index 3e4b985..c4759a1 100644
--- a/src/rkopenmdao/file_writer.py
+++ b/src/rkopenmdao/file_writer.py
@@ -216,11 +216,8 @@ def read_hdf5_file(
         for i, quantity in enumerate(quantities):
             error_data[quantity] = {}  # initialize error data for each quantity
             result[quantity] = {}
-            # Now works for matrices
             for key, group in f.items():
-                result[quantity][int(key)] = np.zeros(group[quantity].shape)
-                for row in range(group[quantity].shape[0]):
-                    result[quantity][int(key)][row] = group[quantity][row]
+                result[quantity][int(key)] = group[quantity][...]
 
                 if len(quantities) > 1:
                     quan_result = [f["0"][name][...] for name in quantities]
-- 
2.43.0


From a1881ecf5e927ae62f398f3e6c84ef27f32a15e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:44 +0000
Subject: [PATCH 52/54] fix: report that the integration does not support
 complex step

The imaginary parts of the inputs were discarded, so derivatives approximated by
complex step over the integrator were silently zero.
---
 src/rkopenmdao/runge_kutta_integrator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 1bb4f98..1991858 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -450,6 +450,12 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         self._cached_input = None
 
     def compute(self, inputs, outputs, discrete_inputs=None, discrete_outputs=None):
+        # The imaginary parts would be discarded, resulting in derivatives of zero.
+        if self.under_complex_step:
+            raise RuntimeError(
+                "The time integration does not support the complex step method. Use "
+                "its own derivatives or finite differences instead."
+            )
         if self.comm.rank == 0:
             print("\n" + "=" * 32 + " compute starts " + "=" * 32 + "\n\n")
         # Checkpoints are only usable once the forward iteration has succeeded.
-- 
2.43.0


From 0e6a028f1b7a94f2307812d6c1fe66bc77b0f880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:43 +0000
Subject: [PATCH 53/54] fix: linearize with the discrete variables of the
 linearization point

They kept their values of the last evaluated stage, so derivatives depending on
them were wrong for all others.
---
 src/rkopenmdao/discretized_ode/openmdao_ode.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rkopenmdao/discretized_ode/openmdao_ode.py b/src/rkopenmdao/discretized_ode/openmdao_ode.py
index e524c2b..047f653 100644
--- a/src/rkopenmdao/discretized_ode/openmdao_ode.py
+++ b/src/rkopenmdao/discretized_ode/openmdao_ode.py
@@ -242,6 +242,11 @@ class OpenMDAOODE(DiscretizedODE):
                 "Approximated total derivatives of the time stage problem's model are "
                 "not supported. Approximate the derivatives of its subsystems instead."
             )
+        # Discrete variables are not part of the linearization point.
+        if model._var_allprocs_discrete["output"]:  # pylint: disable=protected-access
+            linearization_point = self._get_linearization_point()
+            model.run_solve_nonlinear()
+            self._set_linearization_point(linearization_point)
         model.run_linearize()
 
     def get_state_size(self) -> int:
-- 
2.43.0


From d14d18677e2c42d0e27cd7a0c18a6e82b253d7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:32 +0000
Subject: [PATCH 54/54] fix: keep the files of consecutive revolvers of a disk
 checkpointer apart

---
 .../checkpoint_interface/pyrevolve_checkpointer.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
index 7da84b1..6aa3a54 100644
--- a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
+++ b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
@@ -3,8 +3,10 @@
 from dataclasses import dataclass, field
 from copy import deepcopy
 import os
+import shutil
 import tempfile
 import warnings
+import weakref
 
 import pyrevolve as pr
 
@@ -125,7 +127,17 @@ class PyrevolveCheckpointer(CheckpointInterface):
         # The first step is performed outside of the revolver, and pyrevolve can't
         # handle schedules without any steps.
         if self.revolver_options["n_timesteps"] > 0:
-            self._revolver = self._revolver_class_type(**self.revolver_options)
+            if self._directory is None:
+                self._revolver = self._revolver_class_type(**self.revolver_options)
+                return
+            # A previous revolver deletes its directory whenever it is collected,
+            # which may be while the new one is already in use.
+            directory = tempfile.mkdtemp(dir=self._directory.name)
+            options = {**self.revolver_options, "filedir": os.path.join(directory, "")}
+            self._revolver = self._revolver_class_type(**options)
+            weakref.finalize(
+                self._revolver, shutil.rmtree, directory, ignore_errors=True
+            )
 
     def _setup_revolver_class_type(self, revolver_type: str) -> type:
         """
-- 
2.43.0

