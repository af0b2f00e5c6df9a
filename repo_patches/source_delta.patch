From ab7059c773aba9b034f0eabd9ffabd8dc2d2a6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:37 +0000
Subject: [PATCH 01/40] fix: LineSearchGD applies Armijo's rule at the step
 tried and each group's lr

The acceptance test compared with the decrease expected at the initial step
whatever the step size tried, rejecting steps that satisfy the documented rule,
and every parameter group moved with the last group's learning rate.
---
 neural_network_lyapunov/line_search_gd.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/neural_network_lyapunov/line_search_gd.py b/neural_network_lyapunov/line_search_gd.py
index 2b92b80..deed3ce 100644
--- a/neural_network_lyapunov/line_search_gd.py
+++ b/neural_network_lyapunov/line_search_gd.py
@@ -99,7 +99,7 @@ class LineSearchGD(Optimizer):
 
     def directional_evaluate(self, closure, p, t, d_p):
         for i in range(len(p)):
-            self.add_grad(p[i], t, d_p[i])
+            self.add_grad(p[i], t[i], d_p[i])
         loss = closure()
         return loss
 
@@ -111,14 +111,16 @@ class LineSearchGD(Optimizer):
             min_improvement = group['min_improvement']
 
         increment = loss_minimal_decrement * torch.sum(
-            torch.stack([torch.sum(p[i].grad * d_p[i])
-                         for i in range(len(p))]))
+            torch.stack([
+                t[i] * torch.sum(p[i].grad * d_p[i]) for i in range(len(p))
+            ]))
         alpha_prev = 0
         alpha = 1
         while alpha > min_step_size_decrease:
             loss = self.directional_evaluate(closure, p,
-                                             (alpha - alpha_prev) * t, d_p)
-            if loss <= loss0 + t * increment and \
+                                             [(alpha - alpha_prev) * ti
+                                              for ti in t], d_p)
+            if loss <= loss0 + alpha * increment and \
                     loss <= loss0 - min_improvement:
                 return loss
             alpha_prev = alpha
@@ -135,6 +137,7 @@ class LineSearchGD(Optimizer):
         """
         assert (isinstance(loss0, float))
         p_all = []
+        step_size_all = []
         dp_all = []
         for group in self.param_groups:
             weight_decay = group['weight_decay']
@@ -162,5 +165,6 @@ class LineSearchGD(Optimizer):
                     else:
                         d_p = buf
                 p_all.append(p)
+                step_size_all.append(lr)
                 dp_all.append(-d_p.clone())
-        return self.line_search(loss0, closure, p_all, lr, dp_all)
+        return self.line_search(loss0, closure, p_all, step_size_all, dp_all)
-- 
2.43.0


From 320fef2e0d61a0218b6e3ce33da5e6f81e86e2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:35 +0000
Subject: [PATCH 02/40] fix: each PybulletSampleGenerator uses its own physics
 connection

The pybullet calls carried no client id, so with two generators (or any other
pybullet connection) alive they acted on whichever connection pybullet takes as
the default: wrong samples, or a crash restoring another client's state.
---
 .../pybullet_data_generation.py                    | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/neural_network_lyapunov/pybullet_data_generation.py b/neural_network_lyapunov/pybullet_data_generation.py
index 6b1be58..04bbbdc 100644
--- a/neural_network_lyapunov/pybullet_data_generation.py
+++ b/neural_network_lyapunov/pybullet_data_generation.py
@@ -1,6 +1,7 @@
 import torch
 import numpy as np
-import pybullet as pb
+import pybullet
+from pybullet_utils import bullet_client
 import matplotlib.pyplot as plt
 from torch.utils.data import TensorDataset, DataLoader
 
@@ -133,9 +134,12 @@ class PybulletSampleGenerator:
         """
         self.dtype = dtype
         if gui:
-            self.physics_client = pb.connect(pb.GUI)
+            pb = bullet_client.BulletClient(pybullet.GUI)
         else:
-            self.physics_client = pb.connect(pb.DIRECT)
+            pb = bullet_client.BulletClient(pybullet.DIRECT)
+        # Talks to this generator's own physics server, which is disconnected
+        # together with the generator.
+        self.pb = pb
         pb.setGravity(0, 0, -9.8)
         self.timestep = 1. / 240.
         pb.setTimeStep(self.timestep)
@@ -173,9 +177,6 @@ class PybulletSampleGenerator:
             pb.stepSimulation()
         self.state_id = pb.saveState()
 
-    def __del__(self):
-        pb.disconnect(self.physics_client)
-
     def generate_sample(self, x0, dt):
         """
         generate a single transition from state x0. A first image is taken
@@ -192,6 +193,7 @@ class PybulletSampleGenerator:
         """
         assert (isinstance(x0, torch.Tensor))
         assert (len(x0) == self.x_dim)
+        pb = self.pb
         pb.restoreState(self.state_id)
         num_step = int(dt * (.5 / self.timestep))
         X = np.zeros((6, self.image_width, self.image_height), dtype=np.uint8)
-- 
2.43.0


From 149647f12a7703b8fb14a6ab239a5723869f774e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:35 +0000
Subject: [PATCH 03/40] fix: PybulletSampleGenerator reads every joint's
 position and velocity

getJointStates returns one (position, velocity, ...) tuple per joint; slicing
the first tuple only works for robots with a single joint.
---
 neural_network_lyapunov/pybullet_data_generation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/pybullet_data_generation.py b/neural_network_lyapunov/pybullet_data_generation.py
index 04bbbdc..4603595 100644
--- a/neural_network_lyapunov/pybullet_data_generation.py
+++ b/neural_network_lyapunov/pybullet_data_generation.py
@@ -227,8 +227,8 @@ class PybulletSampleGenerator:
             pb.stepSimulation()
         if self.joint_space:
             state = pb.getJointStates(self.robot_id, list(range(len(q0))))
-            q1 = state[0][:len(q0)]
-            v1 = state[0][len(q0):len(q0) + len(v0)]
+            q1 = [joint_state[0] for joint_state in state]
+            v1 = [joint_state[1] for joint_state in state]
             q1 = torch.tensor(q1, dtype=self.dtype)
             v1 = torch.tensor(v1, dtype=self.dtype)
             x1 = torch.cat((q1, v1))
-- 
2.43.0


From 6e4f43337897eca0fb29013d7f3f7bc1498f6c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:35 +0000
Subject: [PATCH 04/40] fix: PybulletSampleGenerator does not lose a step to
 rounding

For some dt that are multiples of two time steps (e.g. 1.025) truncating
dt * .5 / timestep dropped one step of each half.
---
 neural_network_lyapunov/pybullet_data_generation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/pybullet_data_generation.py b/neural_network_lyapunov/pybullet_data_generation.py
index 4603595..80187b2 100644
--- a/neural_network_lyapunov/pybullet_data_generation.py
+++ b/neural_network_lyapunov/pybullet_data_generation.py
@@ -195,7 +195,7 @@ class PybulletSampleGenerator:
         assert (len(x0) == self.x_dim)
         pb = self.pb
         pb.restoreState(self.state_id)
-        num_step = int(dt * (.5 / self.timestep))
+        num_step = int(round(dt * (.5 / self.timestep)))
         X = np.zeros((6, self.image_width, self.image_height), dtype=np.uint8)
         X_next = np.zeros((3, self.image_width, self.image_height),
                           dtype=np.uint8)
-- 
2.43.0


From 5aed8acdd3211670a6781b4e4b846392be7f8bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:46 +0000
Subject: [PATCH 05/40] fix: verification objectives are the proved ones when
 the solver stops early

---
 neural_network_lyapunov/gurobi_torch_mip.py       | 11 +++++++++++
 neural_network_lyapunov/train_lyapunov_barrier.py |  8 ++++----
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/neural_network_lyapunov/gurobi_torch_mip.py b/neural_network_lyapunov/gurobi_torch_mip.py
index 038fc3e..1910f0a 100644
--- a/neural_network_lyapunov/gurobi_torch_mip.py
+++ b/neural_network_lyapunov/gurobi_torch_mip.py
@@ -1032,6 +1032,17 @@ class GurobiTorchMIP:
                 objective_match = True
                 return objective
 
+    def proved_objective(self):
+        """
+        Returns the objective value that the solver has proved after
+        optimize(): the optimal objective, or, if the solver stopped before
+        proving optimality (interrupted, reached a limit, etc), its bound on
+        the optimal objective.
+        """
+        if self.gurobi_model.status == gurobipy.GRB.Status.OPTIMAL:
+            return self.gurobi_model.ObjVal
+        return self.gurobi_model.ObjBound
+
     def remove_binary_relaxation(self):
         """
         Loop through all the variables in self.zeta, if the variable is not
diff --git a/neural_network_lyapunov/train_lyapunov_barrier.py b/neural_network_lyapunov/train_lyapunov_barrier.py
index 788c9af..9f67292 100644
--- a/neural_network_lyapunov/train_lyapunov_barrier.py
+++ b/neural_network_lyapunov/train_lyapunov_barrier.py
@@ -344,7 +344,7 @@ class Trainer:
         else:
             lyapunov_positivity_mip.gurobi_model.optimize()
         lyapunov_positivity_mip_obj = \
-            lyapunov_positivity_mip.gurobi_model.ObjVal
+            lyapunov_positivity_mip.proved_objective()
         if self.lyapunov_positivity_mip_warmstart:
             self.lyapunov_positivity_last_x_adv = torch.tensor(
                 [v.x for v in lyapunov_positivity_as_milp_return[1]],
@@ -408,7 +408,7 @@ class Trainer:
         else:
             lyapunov_derivative_mip.gurobi_model.optimize()
         lyapunov_derivative_mip_obj = \
-            lyapunov_derivative_mip.gurobi_model.ObjVal
+            lyapunov_derivative_mip.proved_objective()
 
         if self.output_flag:
             print("adversarial x " +
@@ -543,7 +543,7 @@ class Trainer:
                     gurobipy.GRB.Param.PoolSolutions,
                     self.barrier_value_mip_pool_solutions)
             mip[region_count].gurobi_model.optimize()
-            mip_obj[region_count] = mip[region_count].gurobi_model.ObjVal
+            mip_obj[region_count] = mip[region_count].proved_objective()
             num_adversarial = np.min((self.barrier_value_mip_pool_solutions,
                                       mip[region_count].gurobi_model.solCount))
             mip_adversarial[region_count] = torch.empty(
@@ -569,7 +569,7 @@ class Trainer:
         for param, val in self.barrier_derivative_mip_params.items():
             barrier_deriv_return.milp.gurobi_model.setParam(param, val)
         barrier_deriv_return.milp.gurobi_model.optimize()
-        barrier_deriv_mip_obj = barrier_deriv_return.milp.gurobi_model.ObjVal
+        barrier_deriv_mip_obj = barrier_deriv_return.milp.proved_objective()
         num_adversarial = np.min(
             (self.barrier_derivative_mip_pool_solutions,
              barrier_deriv_return.milp.gurobi_model.solCount))
-- 
2.43.0


From d6a221f4d9873fd29b122606319b0d8ba68f5c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:19 +0000
Subject: [PATCH 06/40] fix: the best training parameters are restored in
 place, R included

---
 .../train_lyapunov_barrier.py                 | 21 +++++++------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/neural_network_lyapunov/train_lyapunov_barrier.py b/neural_network_lyapunov/train_lyapunov_barrier.py
index 9f67292..920871c 100644
--- a/neural_network_lyapunov/train_lyapunov_barrier.py
+++ b/neural_network_lyapunov/train_lyapunov_barrier.py
@@ -1007,6 +1007,7 @@ class Trainer:
         assert (state_samples_all.shape[1] ==
                 self.lyapunov_hybrid_system.system.x_dim)
         best_loss = np.inf
+        best_training_params = self._get_current_training_params()
         training_params = self._training_params()
         optimizer = torch.optim.Adam(training_params, lr=self.learning_rate)
         dataset = torch.utils.data.TensorDataset(state_samples_all)
@@ -1064,20 +1065,10 @@ class Trainer:
                   f"{test_loss.item()}")
             if test_loss.item() < best_loss:
                 best_loss = test_loss.item()
-                best_lyapunov_relu = copy.deepcopy(
-                    self.lyapunov_hybrid_system.lyapunov_relu)
-                if isinstance(self.lyapunov_hybrid_system.system,
-                              feedback_system.FeedbackSystem):
-                    best_controller_relu = copy.deepcopy(
-                        self.lyapunov_hybrid_system.system.controller_network)
+                best_training_params = self._get_current_training_params()
 
         print(f"best loss {best_loss}")
-        self.lyapunov_hybrid_system.lyapunov_relu.load_state_dict(
-            best_lyapunov_relu.state_dict())
-        if isinstance(self.lyapunov_hybrid_system.system,
-                      feedback_system.FeedbackSystem):
-            self.lyapunov_hybrid_system.system.controller_network.\
-                load_state_dict(best_controller_relu.state_dict())
+        self._set_training_params(best_training_params)
 
     class AdversarialTrainingOptions:
         def __init__(self):
@@ -1112,7 +1103,7 @@ class Trainer:
         params["lyap_relu_params"] = copy.deepcopy(
             self.lyapunov_hybrid_system.lyapunov_relu.state_dict())
         if not self.R_options.fixed_R:
-            params["R_params"] = self.R_options._variables.clone()
+            params["R_params"] = self.R_options._variables.detach().clone()
         if isinstance(self.lyapunov_hybrid_system.system,
                       feedback_system.FeedbackSystem):
             params["controller_params"] = copy.deepcopy(
@@ -1127,7 +1118,9 @@ class Trainer:
         self.lyapunov_hybrid_system.lyapunov_relu.load_state_dict(
             params["lyap_relu_params"])
         if not self.R_options.fixed_R:
-            self.R_options._variables = params["R_params"].clone()
+            # Keep the tensor that the optimizers hold.
+            with torch.no_grad():
+                self.R_options._variables.copy_(params["R_params"])
         if isinstance(self.lyapunov_hybrid_system.system,
                       feedback_system.FeedbackSystem):
             self.lyapunov_hybrid_system.system.controller_network.\
-- 
2.43.0


From 11ebcf23fee5011c0a8d5e4565e17c4753f70946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:57 +0000
Subject: [PATCH 07/40] fix: no violating state is an empty counterexample set
 for the barrier derivative

---
 neural_network_lyapunov/train_lyapunov_barrier.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/train_lyapunov_barrier.py b/neural_network_lyapunov/train_lyapunov_barrier.py
index 920871c..a92f314 100644
--- a/neural_network_lyapunov/train_lyapunov_barrier.py
+++ b/neural_network_lyapunov/train_lyapunov_barrier.py
@@ -583,7 +583,11 @@ class Trainer:
                 mip_adversarial.append(
                     torch.tensor([v.xn for v in barrier_deriv_return.x],
                                  dtype=dtype))
-        mip_adversarial = torch.stack(mip_adversarial)
+        if len(mip_adversarial) > 0:
+            mip_adversarial = torch.stack(mip_adversarial)
+        else:
+            mip_adversarial = torch.empty(
+                (0, self.barrier_system.system.x_dim), dtype=dtype)
         return barrier_deriv_return.milp, barrier_deriv_mip_obj,\
             mip_adversarial
 
-- 
2.43.0


From 3d40d330e9b35d95c002844ebb4ed4fd4ac6d032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:36 +0000
Subject: [PATCH 08/40] fix: the region of attraction does not ignore states
 the solver did not search

---
 neural_network_lyapunov/lyapunov.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/neural_network_lyapunov/lyapunov.py b/neural_network_lyapunov/lyapunov.py
index e4b480f..e8b481f 100644
--- a/neural_network_lyapunov/lyapunov.py
+++ b/neural_network_lyapunov/lyapunov.py
@@ -1116,15 +1116,13 @@ class LyapunovDiscreteTimeHybridSystem(LyapunovHybridLinearSystem):
             V_lambda, R, x_equilibrium, x_lo_larger, x_up_larger, True)
         milp1.gurobi_model.setParam(gurobipy.GRB.Param.OutputFlag, False)
         milp1.gurobi_model.optimize()
-        obj1 = milp1.gurobi_model.ObjVal if milp1.gurobi_model.status ==\
-            gurobipy.GRB.Status.OPTIMAL else np.inf
+        obj1 = _roa_milp_objective(milp1)
 
         milp2, _, _, _, _ = self._construct_milp_for_roa(
             V_lambda, R, x_equilibrium, x_lo_larger, x_up_larger, False)
         milp2.gurobi_model.setParam(gurobipy.GRB.Param.OutputFlag, False)
         milp2.gurobi_model.optimize()
-        obj2 = milp2.gurobi_model.ObjVal if milp2.gurobi_model.status ==\
-            gurobipy.GRB.Status.OPTIMAL else np.inf
+        obj2 = _roa_milp_objective(milp2)
 
         if V_upper_bound is None:
             V_upper_bound = np.inf
@@ -1259,6 +1257,19 @@ class LyapunovDiscreteTimeHybridSystem(LyapunovHybridLinearSystem):
         return milp, x_curr, x_next, t_slack, box_zeta
 
 
+def _roa_milp_objective(milp):
+    """
+    The minimal value proved by an MILP in compute_region_of_attraction().
+    Only a program that is proved infeasible imposes no restriction; if the
+    solver stops early, then we use its lower bound on the minimal value. (The
+    objective V(x) is bounded as x is bounded, so INF_OR_UNBD is infeasible).
+    """
+    if milp.gurobi_model.status in (gurobipy.GRB.Status.INFEASIBLE,
+                                    gurobipy.GRB.Status.INF_OR_UNBD):
+        return np.inf
+    return milp.proved_objective()
+
+
 def _get_R(R, x_dim: int, device):
     """
     Take matrix R used in the 1-norm |R*(x-x*)|₁.
-- 
2.43.0


From bb273f46bc1b0e3ce19dbfd15d4fe287052c2636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:15 +0000
Subject: [PATCH 09/40] fix: the region of attraction considers successors that
 leave through several faces at once

---
 neural_network_lyapunov/lyapunov.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/neural_network_lyapunov/lyapunov.py b/neural_network_lyapunov/lyapunov.py
index e8b481f..b22b4fa 100644
--- a/neural_network_lyapunov/lyapunov.py
+++ b/neural_network_lyapunov/lyapunov.py
@@ -1176,9 +1176,9 @@ class LyapunovDiscreteTimeHybridSystem(LyapunovHybridLinearSystem):
         # x_lo_larger <= x <= x_up_larger.
         # This region could be written as the union of boxes
         # box i: x_up(i) <= x(i) <= x_up_larger(i)
-        #        x_lo(j) <= x(j) <= x_up(j) ∀ j≠ i
+        #        x_lo_larger(j) <= x(j) <= x_up_larger(j) ∀ j≠ i
         # box x_dim + i: x_lo_larger(i) <= x(i) <= x_lo(i)
-        #                       x_lo(j) <= x(j) <= x_up(j) ∀ j≠ i
+        #                x_lo_larger(j) <= x(j) <= x_up_larger(j) ∀ j≠ i
         # If we denote the bounds for the i'th box as
         # x_box_lo_i <= x <= x_box_up_i
         # We need to introduce 2 * x_dim binary variables ζ to determine in
@@ -1202,14 +1202,11 @@ class LyapunovDiscreteTimeHybridSystem(LyapunovHybridLinearSystem):
                                       lb=-gurobipy.GRB.INFINITY,
                                       vtype=gurobipy.GRB.CONTINUOUS,
                                       name=f"t_slack[{i}]")
-            x_box_lo_i = torch.from_numpy(self.system.x_lo_all).clone()
-            x_box_up_i = torch.from_numpy(self.system.x_up_all).clone()
+            x_box_lo_i = torch.as_tensor(x_lo_larger, dtype=dtype).clone()
+            x_box_up_i = torch.as_tensor(x_up_larger, dtype=dtype).clone()
             if i < self.system.x_dim:
                 x_box_lo_i[i] = self.system.x_up_all[i]
-                x_box_up_i[i] = x_up_larger[i]
             else:
-                x_box_lo_i[i - self.system.x_dim] = \
-                    x_lo_larger[i-self.system.x_dim]
                 x_box_up_i[i-self.system.x_dim] = \
                     self.system.x_lo_all[i-self.system.x_dim]
             # Now add the constraint
-- 
2.43.0


From c8783016480104828e28f9a8666f6f73e12f0b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:50 +0000
Subject: [PATCH 10/40] fix: do not use an unproved solver value as a bound of
 Rxdot

---
 neural_network_lyapunov/continuous_time_lyapunov.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neural_network_lyapunov/continuous_time_lyapunov.py b/neural_network_lyapunov/continuous_time_lyapunov.py
index 992ccb3..635a0e8 100644
--- a/neural_network_lyapunov/continuous_time_lyapunov.py
+++ b/neural_network_lyapunov/continuous_time_lyapunov.py
@@ -211,6 +211,8 @@ class LyapunovContinuousTimeSystem(lyapunov.LyapunovHybridLinearSystem):
                     gurobipy.GRB.MAXIMIZE)
                 system_constraint_return.x_next_bound_prog.gurobi_model.\
                     optimize()
+                assert (system_constraint_return.x_next_bound_prog.
+                        gurobi_model.status == gurobipy.GRB.Status.OPTIMAL)
                 Rxdot_ub[i] = system_constraint_return.x_next_bound_prog.\
                     gurobi_model.ObjVal
                 system_constraint_return.x_next_bound_prog.setObjective(
@@ -218,6 +220,8 @@ class LyapunovContinuousTimeSystem(lyapunov.LyapunovHybridLinearSystem):
                     gurobipy.GRB.MINIMIZE)
                 system_constraint_return.x_next_bound_prog.gurobi_model.\
                     optimize()
+                assert (system_constraint_return.x_next_bound_prog.
+                        gurobi_model.status == gurobipy.GRB.Status.OPTIMAL)
                 Rxdot_lb[i] = system_constraint_return.x_next_bound_prog.\
                     gurobi_model.ObjVal
         dl1dx_times_xdot_slack = milp.addVars(R.shape[0],
-- 
2.43.0


From 437785f446e763b53b7c6689e86c9b7bc56c5f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:50 +0000
Subject: [PATCH 11/40] fix: do not use an unproved solver value as a bound of
 Ai*x

---
 neural_network_lyapunov/hybrid_linear_system.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neural_network_lyapunov/hybrid_linear_system.py b/neural_network_lyapunov/hybrid_linear_system.py
index d4f63d5..feae708 100644
--- a/neural_network_lyapunov/hybrid_linear_system.py
+++ b/neural_network_lyapunov/hybrid_linear_system.py
@@ -637,10 +637,14 @@ class AutonomousHybridLinearSystem:
             prob = cp.Problem(
                 cp.Maximize(self.A[mode_index][j].detach().numpy() @ x), con)
             prob.solve(solver=cp.GUROBI)
+            if prob.status in (cp.OPTIMAL_INACCURATE, cp.USER_LIMIT):
+                raise Exception("The bound of Ai*x is not proved.")
             upper[j] = prob.value
             prob = cp.Problem(
                 cp.Minimize(self.A[mode_index][j].detach().numpy() @ x), con)
             prob.solve(solver=cp.GUROBI)
+            if prob.status in (cp.OPTIMAL_INACCURATE, cp.USER_LIMIT):
+                raise Exception("The bound of Ai*x is not proved.")
             lower[j] = prob.value
         return (lower, upper)
 
-- 
2.43.0


From 52ac308e5bb19c2d32557d57320fe304efe1e522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:40 +0000
Subject: [PATCH 12/40] fix: concatenated constraints use the second operand's
 number of binaries for its bounds

---
 neural_network_lyapunov/gurobi_torch_mip.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/neural_network_lyapunov/gurobi_torch_mip.py b/neural_network_lyapunov/gurobi_torch_mip.py
index 1910f0a..1461e15 100644
--- a/neural_network_lyapunov/gurobi_torch_mip.py
+++ b/neural_network_lyapunov/gurobi_torch_mip.py
@@ -340,8 +340,6 @@ def concatenate_mixed_integer_constraints(
         ret.binary_lo = take_maximum(cnstr1.binary_lo, cnstr2.binary_lo)
         ret.binary_up = take_minimum(cnstr1.binary_up, cnstr2.binary_up)
     else:
-        num_binary1 = cnstr1.num_binary()
-        num_binary2 = cnstr1.num_binary()
         ret.binary_lo = stack_bounds(cnstr1.binary_lo, cnstr2.binary_lo,
                                      num_binary1, num_binary2, False)
         ret.binary_up = stack_bounds(cnstr1.binary_up, cnstr2.binary_up,
-- 
2.43.0


From df179cb5852a1cf770451e01f4d928137a16d85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:40 +0000
Subject: [PATCH 13/40] fix: the recomputed MIQP objective accounts for the
 cross term and for non-symmetric quadratic coefficients

---
 neural_network_lyapunov/gurobi_torch_mip.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/gurobi_torch_mip.py b/neural_network_lyapunov/gurobi_torch_mip.py
index 1461e15..ea156a7 100644
--- a/neural_network_lyapunov/gurobi_torch_mip.py
+++ b/neural_network_lyapunov/gurobi_torch_mip.py
@@ -1339,13 +1339,15 @@ class GurobiTorchMIQP(GurobiTorchMIP):
         M = torch.zeros((len(self.r) + len(b_act), len(self.r) + len(b_act)),
                         dtype=self.dtype)
         M[:len(self.r), :len(self.r)] =\
-            2 * self.Q_r + penalty * torch.eye(len(self.r), dtype=self.dtype)
+            self.Q_r + self.Q_r.T +\
+            penalty * torch.eye(len(self.r), dtype=self.dtype)
         M[:len(self.r), len(self.r):] = A_act.T
         M[len(self.r):, :len(self.r)] = A_act
         M[len(self.r):, len(self.r):] =\
             penalty * torch.eye(len(b_act), dtype=self.dtype)
 
-        primal_dual = torch.inverse(M) @ torch.cat((-self.c_r, b_act), axis=0)
+        primal_dual = torch.inverse(M) @ torch.cat(
+            (-self.c_r - self.Q_rzeta @ zeta_sol, b_act), axis=0)
         r = primal_dual[:len(self.r)]
         return r @ (self.Q_r @ r) + zeta_sol @ (self.Q_zeta @ zeta_sol) +\
             r @ (self.Q_rzeta @ zeta_sol) + self.c_r @ r +\
-- 
2.43.0


From b774223fb2aa2865b373b6fc53d6b1b570fd30ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 14/40] fix: write checkpoints to a temporary file and rename
 it when complete

A crash or a full disk while saving left a truncated file in place of the
previous checkpoint.
---
 neural_network_lyapunov/dynamics_learning.py  |  6 ++--
 .../train_lyapunov_barrier.py                 | 12 ++++---
 neural_network_lyapunov/utils.py              | 33 +++++++++++++++++--
 3 files changed, 41 insertions(+), 10 deletions(-)

diff --git a/neural_network_lyapunov/dynamics_learning.py b/neural_network_lyapunov/dynamics_learning.py
index 0ea8ba9..d51c86f 100644
--- a/neural_network_lyapunov/dynamics_learning.py
+++ b/neural_network_lyapunov/dynamics_learning.py
@@ -542,7 +542,8 @@ class StateSpaceDynamicsLearning(DynamicsLearning):
         """
         if not os.path.exists(save_path):
             os.makedirs(save_path)
-        with open(os.path.join(save_path, 'dyn_learner.pkl'), 'wb') as output:
+        with utils.replace_file_when_complete(
+                os.path.join(save_path, 'dyn_learner.pkl')) as output:
             pickle.dump(self.lyap, output, pickle.HIGHEST_PROTOCOL)
 
     @classmethod
@@ -673,7 +674,8 @@ class LatentSpaceDynamicsLearning(DynamicsLearning):
         """
         if not os.path.exists(save_path):
             os.makedirs(save_path)
-        with open(os.path.join(save_path, 'dyn_learner.pkl'), 'wb') as output:
+        with utils.replace_file_when_complete(
+                os.path.join(save_path, 'dyn_learner.pkl')) as output:
             pickle.dump(self.lyap, output, pickle.HIGHEST_PROTOCOL)
             pickle.dump(self.encoder, output, pickle.HIGHEST_PROTOCOL)
             pickle.dump(self.decoder, output, pickle.HIGHEST_PROTOCOL)
diff --git a/neural_network_lyapunov/train_lyapunov_barrier.py b/neural_network_lyapunov/train_lyapunov_barrier.py
index a92f314..d149645 100644
--- a/neural_network_lyapunov/train_lyapunov_barrier.py
+++ b/neural_network_lyapunov/train_lyapunov_barrier.py
@@ -850,13 +850,15 @@ class Trainer:
     def _save_network(self, iter_count):
         if self.save_network_path:
             if iter_count % self.save_network_iterations == 0:
-                torch.save(self.lyapunov_hybrid_system.lyapunov_relu,
-                           self.save_network_path + f'{"/lyapunov.pt"}')
-                torch.save(self.R_options.R(),
-                           self.save_network_path + f'{"/R.pt"}')
+                utils.atomic_torch_save(
+                    self.lyapunov_hybrid_system.lyapunov_relu,
+                    self.save_network_path + f'{"/lyapunov.pt"}')
+                utils.atomic_torch_save(
+                    self.R_options.R(),
+                    self.save_network_path + f'{"/R.pt"}')
                 if isinstance(self.lyapunov_hybrid_system.system,
                               feedback_system.FeedbackSystem):
-                    torch.save(
+                    utils.atomic_torch_save(
                         self.lyapunov_hybrid_system.system.controller_network,
                         self.save_network_path + f'{"/controller.pt"}')
 
diff --git a/neural_network_lyapunov/utils.py b/neural_network_lyapunov/utils.py
index da34766..d666543 100644
--- a/neural_network_lyapunov/utils.py
+++ b/neural_network_lyapunov/utils.py
@@ -1,3 +1,5 @@
+import contextlib
+import os
 import numpy as np
 import torch
 import cvxpy as cp
@@ -1106,11 +1108,36 @@ def get_meshgrid_samples(lower, upper, mesh_size: tuple, dtype) ->\
         [mesh_tensors[i].reshape((-1, 1)) for i in range(sample_dim)], dim=1)
 
 
+@contextlib.contextmanager
+def replace_file_when_complete(file_path):
+    """
+    Opens a temporary file next to file_path for (binary) writing, and renames
+    it to file_path only after it was written completely. If the process or
+    the disk fails half way, then the previous file_path is left untouched.
+    """
+    tmp_path = f"{file_path}.{os.getpid()}.tmp"
+    try:
+        with open(tmp_path, 'wb') as output:
+            yield output
+            output.flush()
+            os.fsync(output.fileno())
+        os.replace(tmp_path, file_path)
+    except BaseException:
+        with contextlib.suppress(OSError):
+            os.remove(tmp_path)
+        raise
+
+
+def atomic_torch_save(obj, file_path):
+    with replace_file_when_complete(file_path) as output:
+        torch.save(obj, output)
+
+
 def save_second_order_forward_model(forward_relu, q_equilibrium, u_equilibrium,
                                     dt, file_path):
     linear_layer_width, negative_slope, bias = extract_relu_structure(
         forward_relu)
-    torch.save(
+    atomic_torch_save(
         {
             "linear_layer_width": linear_layer_width,
             "state_dict": forward_relu.state_dict(),
@@ -1141,13 +1168,13 @@ def save_lyapunov_model(lyapunov_relu, V_lambda, lyapunov_positivity_epsilon,
     }
     R_params = R_options.extract_params()
     saved_params.update(R_params)
-    torch.save(saved_params, file_path)
+    atomic_torch_save(saved_params, file_path)
 
 
 def save_controller_model(controller_relu, x_lo, x_up, u_lo, u_up, file_path):
     linear_layer_width, negative_slope, bias = extract_relu_structure(
         controller_relu)
-    torch.save(
+    atomic_torch_save(
         {
             "linear_layer_width": linear_layer_width,
             "state_dict": controller_relu.state_dict(),
-- 
2.43.0


From 835de5945a601de3a25aca05a7fd1bf6117973d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 15/40] fix: SearchRwithSPDOptions.extract_params reads
 attributes that do not exist

---
 neural_network_lyapunov/r_options.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/r_options.py b/neural_network_lyapunov/r_options.py
index fcb3d7c..3d18443 100644
--- a/neural_network_lyapunov/r_options.py
+++ b/neural_network_lyapunov/r_options.py
@@ -111,8 +111,8 @@ class SearchRwithSPDOptions(ROptions):
     def extract_params(self):
         return {
             "R_size": self.R_size,
-            "R_epsilon": self.R_epsilon,
-            "R_variables": self.R_variables()
+            "R_epsilon": self.epsilon,
+            "R_variables": self._variables
         }
 
 
-- 
2.43.0


From 436dce04bc5ac4ff0e5a0ddfbfff4c675cec1f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:29 +0000
Subject: [PATCH 16/40] fix: reconstruction_loss used only the first sample of
 the batch

---
 neural_network_lyapunov/dynamics_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/dynamics_learning.py b/neural_network_lyapunov/dynamics_learning.py
index d51c86f..c82d8e5 100644
--- a/neural_network_lyapunov/dynamics_learning.py
+++ b/neural_network_lyapunov/dynamics_learning.py
@@ -780,7 +780,7 @@ class LatentSpaceDynamicsLearning(DynamicsLearning):
         if self.opt.use_bce:
             loss = self.bce_loss(x_decoded, x)
         else:
-            loss = (x - x_decoded).pow(2).mean(dim=[1, 2, 3])[0]
+            loss = (x - x_decoded).pow(2).mean()
         return loss
 
     def dynamics_loss(self, x, x_next):
-- 
2.43.0


From 96b377a4c57a17ac639a6eb9f7d08789659f7d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:29 +0000
Subject: [PATCH 17/40] fix: sample losses are scalars also when no sample lies
 in the box

---
 neural_network_lyapunov/dynamics_learning.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neural_network_lyapunov/dynamics_learning.py b/neural_network_lyapunov/dynamics_learning.py
index c82d8e5..a200ebe 100644
--- a/neural_network_lyapunov/dynamics_learning.py
+++ b/neural_network_lyapunov/dynamics_learning.py
@@ -336,11 +336,11 @@ class DynamicsLearning:
         x = x_all[torch.all(x_all <= x_up.to(x_all.device), dim=1), :]
         x = x[torch.all(x >= x_lo.to(x_all.device), dim=1), :]
         if x.shape[0] == 0:
-            sample_pos_loss = torch.zeros(1, dtype=self.opt.dtype).to(
+            sample_pos_loss = torch.zeros((), dtype=self.opt.dtype).to(
                 x_all.device)
-            sample_der_lo_loss = torch.zeros(1, dtype=self.opt.dtype).to(
+            sample_der_lo_loss = torch.zeros((), dtype=self.opt.dtype).to(
                 x_all.device)
-            sample_der_up_loss = torch.zeros(1, dtype=self.opt.dtype).to(
+            sample_der_up_loss = torch.zeros((), dtype=self.opt.dtype).to(
                 x_all.device)
             return sample_pos_loss, sample_der_lo_loss, sample_der_up_loss
         x_next = self.lyap.system.step_forward(x)
-- 
2.43.0


From d0154c80b6f7703639f724c43ef4904fd1ef6e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:14 +0000
Subject: [PATCH 18/40] fix: solve_lyap_derivative_mip prints a solution that
 may not exist

---
 neural_network_lyapunov/train_lyapunov_barrier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/train_lyapunov_barrier.py b/neural_network_lyapunov/train_lyapunov_barrier.py
index d149645..1100648 100644
--- a/neural_network_lyapunov/train_lyapunov_barrier.py
+++ b/neural_network_lyapunov/train_lyapunov_barrier.py
@@ -410,7 +410,7 @@ class Trainer:
         lyapunov_derivative_mip_obj = \
             lyapunov_derivative_mip.proved_objective()
 
-        if self.output_flag:
+        if self.output_flag and lyapunov_derivative_mip.gurobi_model.solCount:
             print("adversarial x " +
                   f"{[v.x for v in lyapunov_derivative_as_milp_return.x]}")
         if self.lyapunov_derivative_mip_warmstart:
-- 
2.43.0


From d00a1622207f8bed6459b27c2ee9d7e8ce5cec10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:55 +0000
Subject: [PATCH 19/40] fix: adversarial_samples crashed when no state violates
 the conditions

---
 neural_network_lyapunov/dynamics_learning.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/neural_network_lyapunov/dynamics_learning.py b/neural_network_lyapunov/dynamics_learning.py
index a200ebe..25522dd 100644
--- a/neural_network_lyapunov/dynamics_learning.py
+++ b/neural_network_lyapunov/dynamics_learning.py
@@ -132,6 +132,8 @@ class DynamicsLearning:
                                  dtype=self.opt.dtype).unsqueeze(0))
         if len(z_adv_pos) > 0:
             z_adv_pos = torch.cat(z_adv_pos, dim=0)
+        else:
+            z_adv_pos = torch.empty((0, len(x_var)), dtype=self.opt.dtype)
 
         lyap_der_mip_ = self.lyap.lyapunov_derivative_as_milp(
             self.lyap.system.x_equilibrium,
@@ -160,6 +162,8 @@ class DynamicsLearning:
                                  dtype=self.opt.dtype).unsqueeze(0))
         if len(z_adv_der) > 0:
             z_adv_der_lo = torch.cat(z_adv_der, dim=0)
+        else:
+            z_adv_der_lo = torch.empty((0, len(x_var)), dtype=self.opt.dtype)
 
         lyap_der_mip_ = self.lyap.lyapunov_derivative_as_milp(
             self.lyap.system.x_equilibrium,
@@ -188,6 +192,8 @@ class DynamicsLearning:
                                  dtype=self.opt.dtype).unsqueeze(0))
         if len(z_adv_der) > 0:
             z_adv_der_up = torch.cat(z_adv_der, dim=0)
+        else:
+            z_adv_der_up = torch.empty((0, len(x_var)), dtype=self.opt.dtype)
 
         return z_adv_pos, z_adv_der_lo, z_adv_der_up
 
-- 
2.43.0


From 6f50a808effc7428a9d46271204ad7088cbb8692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:55 +0000
Subject: [PATCH 20/40] fix: rollout_loss passed the label as the prediction of
 the cross entropy

---
 neural_network_lyapunov/dynamics_learning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/dynamics_learning.py b/neural_network_lyapunov/dynamics_learning.py
index 25522dd..e8409a2 100644
--- a/neural_network_lyapunov/dynamics_learning.py
+++ b/neural_network_lyapunov/dynamics_learning.py
@@ -891,8 +891,8 @@ class LatentSpaceDynamicsLearning(DynamicsLearning):
             rollout_expected.shape[0] - 2,
             decode_intermediate=decode_intermediate)
         if self.opt.use_bce:
-            loss = self.bce_loss_none(rollout_expected,
-                                      rollout_pred).mean(dim=[1, 2, 3])
+            loss = self.bce_loss_none(rollout_pred,
+                                      rollout_expected).mean(dim=[1, 2, 3])
         else:
             loss = (rollout_expected - rollout_pred).pow(2).mean(dim=[1, 2, 3])
         return loss
-- 
2.43.0


From f9a111e23a755eeb990533522f4fc35dd39b05ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:55 +0000
Subject: [PATCH 21/40] fix: rollout_validation returned the sum, not the mean,
 over the rollouts

---
 neural_network_lyapunov/dynamics_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/dynamics_learning.py b/neural_network_lyapunov/dynamics_learning.py
index e8409a2..50c52d4 100644
--- a/neural_network_lyapunov/dynamics_learning.py
+++ b/neural_network_lyapunov/dynamics_learning.py
@@ -387,7 +387,7 @@ class DynamicsLearning:
                 validation_loss += self.rollout_loss(rollout_expected)
         self.all_to_device('cpu')
         validation_loss = validation_loss.to('cpu')
-        return validation_loss
+        return validation_loss / len(rollouts)
 
     def log(self, name, value):
         if self.writer is not None:
-- 
2.43.0


From 2b62d244fe746c494c7c89e808765507d30a08cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:55 +0000
Subject: [PATCH 22/40] fix: latent rollout crashed for a one-dimensional
 latent state

---
 neural_network_lyapunov/dynamics_learning.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neural_network_lyapunov/dynamics_learning.py b/neural_network_lyapunov/dynamics_learning.py
index 50c52d4..ac63dd4 100644
--- a/neural_network_lyapunov/dynamics_learning.py
+++ b/neural_network_lyapunov/dynamics_learning.py
@@ -843,7 +843,7 @@ class LatentSpaceDynamicsLearning(DynamicsLearning):
         V_traj = []
         z_traj.append(self.encoder(x_init.unsqueeze(0))[0])
         V_traj.append(
-            self.lyap.lyapunov_value(z_traj[-1].squeeze(),
+            self.lyap.lyapunov_value(z_traj[-1].squeeze(0),
                                      self.lyap.system.x_equilibrium,
                                      self.opt.V_lambda,
                                      R=self.opt.R).item())
@@ -855,7 +855,7 @@ class LatentSpaceDynamicsLearning(DynamicsLearning):
                     z_traj.append(z)
                     V_traj.append(
                         self.lyap.lyapunov_value(
-                            z.squeeze(),
+                            z.squeeze(0),
                             self.lyap.system.x_equilibrium,
                             self.opt.V_lambda,
                             R=self.opt.R).item())
@@ -870,7 +870,7 @@ class LatentSpaceDynamicsLearning(DynamicsLearning):
                     z_traj.append(z_next)
                     V_traj.append(
                         self.lyap.lyapunov_value(
-                            z_next.squeeze(),
+                            z_next.squeeze(0),
                             self.lyap.system.x_equilibrium,
                             self.opt.V_lambda,
                             R=self.opt.R).item())
-- 
2.43.0


From 91f344a06dbc7221c85e3dcddf0a87fa9a2fea43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:55 +0000
Subject: [PATCH 23/40] fix: lyapunov_loss presented an unproved value as the
 worst violation

---
 neural_network_lyapunov/dynamics_learning.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/neural_network_lyapunov/dynamics_learning.py b/neural_network_lyapunov/dynamics_learning.py
index ac63dd4..f0a05c5 100644
--- a/neural_network_lyapunov/dynamics_learning.py
+++ b/neural_network_lyapunov/dynamics_learning.py
@@ -233,6 +233,8 @@ class DynamicsLearning:
                                            False)
         if self.opt.lyap_loss_optimal:
             lyap_pos_mip.gurobi_model.optimize()
+            assert (lyap_pos_mip.gurobi_model.status ==
+                    gurobipy.GRB.Status.OPTIMAL)
             lyap_pos_loss = lyap_pos_mip.\
                 compute_objective_from_mip_data_and_solution()
         else:
@@ -271,6 +273,8 @@ class DynamicsLearning:
                                            False)
         if self.opt.lyap_loss_optimal:
             lyap_der_mip.gurobi_model.optimize()
+            assert (lyap_der_mip.gurobi_model.status ==
+                    gurobipy.GRB.Status.OPTIMAL)
             lyap_der_lo_loss = lyap_der_mip.\
                 compute_objective_from_mip_data_and_solution()
         else:
@@ -309,6 +313,8 @@ class DynamicsLearning:
                                            False)
         if self.opt.lyap_loss_optimal:
             lyap_der_mip.gurobi_model.optimize()
+            assert (lyap_der_mip.gurobi_model.status ==
+                    gurobipy.GRB.Status.OPTIMAL)
             lyap_der_up_loss = lyap_der_mip.\
                 compute_objective_from_mip_data_and_solution()
         else:
-- 
2.43.0


From 2a5155bb9089154d593c7cc0ddd7db38ceda9924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:12 +0000
Subject: [PATCH 24/40] fix: a discrete-time trajectory that leaves the domain
 aborted the whole cost-to-go data set

---
 neural_network_lyapunov/hybrid_linear_system.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/hybrid_linear_system.py b/neural_network_lyapunov/hybrid_linear_system.py
index feae708..f3490e9 100644
--- a/neural_network_lyapunov/hybrid_linear_system.py
+++ b/neural_network_lyapunov/hybrid_linear_system.py
@@ -702,7 +702,9 @@ def compute_discrete_time_system_cost_to_go(system,
                 mode = j
                 x_steps[i + 1] = system.A[j] @ x_steps[i] + system.g[j]
                 break
-        assert (mode is not None)
+        if mode is None:
+            raise AutonomousHybridLinearSystem.StepForwardException(
+                "x is not in any mode.")
         cost_steps[i + 1] = instantaneous_cost_fun(x_steps[i + 1])
         total_cost += cost_steps[i + 1]
         costs_from_start[i + 1] = costs_from_start[i] + cost_steps[i + 1]
-- 
2.43.0


From 4728bb88a6a72508bd255f8b40dfc47c8ef8b444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:12 +0000
Subject: [PATCH 25/40] fix: computing the discrete-time cost-to-go changed the
 tensor returned by the cost function

---
 neural_network_lyapunov/hybrid_linear_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/hybrid_linear_system.py b/neural_network_lyapunov/hybrid_linear_system.py
index f3490e9..88c2478 100644
--- a/neural_network_lyapunov/hybrid_linear_system.py
+++ b/neural_network_lyapunov/hybrid_linear_system.py
@@ -684,7 +684,7 @@ def compute_discrete_time_system_cost_to_go(system,
     if x_goal is not None:
         assert (isinstance(x_goal, torch.Tensor))
         assert (x_goal.shape == (system.x_dim, ))
-    total_cost = instantaneous_cost_fun(x_start)
+    total_cost = instantaneous_cost_fun(x_start).clone()
     costs_from_start = [None] * (num_steps + 1)
     costs_from_start[0] = total_cost.clone()
     cost_steps = [None] * (num_steps + 1)
-- 
2.43.0


From 02ea8c28768d9ecf5c3473cd1a2e9daff12c2590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:12 +0000
Subject: [PATCH 26/40] fix: an integration that failed half way produced
 cost-to-go labels

---
 neural_network_lyapunov/hybrid_linear_system.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neural_network_lyapunov/hybrid_linear_system.py b/neural_network_lyapunov/hybrid_linear_system.py
index 88c2478..34dd497 100644
--- a/neural_network_lyapunov/hybrid_linear_system.py
+++ b/neural_network_lyapunov/hybrid_linear_system.py
@@ -777,6 +777,8 @@ def compute_continuous_time_system_cost_to_go(system,
                     np.hstack((x0, 0.)),
                     rtol=1e-8,
                     events=events)
+    if not sol.success:
+        raise AutonomousHybridLinearSystem.StepForwardException(sol.message)
     total_cost = torch.tensor(sol.y[-1, -1], dtype=system.dtype)
     x_traj = torch.tensor(sol.y[:-1, :], dtype=system.dtype)
     cost_to_go_traj = total_cost - torch.tensor(sol.y[-1, :],
-- 
2.43.0


From 42cdb54a85cdfd72b05374d1bceecc168ff77938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:49 +0000
Subject: [PATCH 27/40] fix: project_gradient produced NaN for a zero gradient

---
 neural_network_lyapunov/train_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/train_utils.py b/neural_network_lyapunov/train_utils.py
index 9a54b5b..c7fbaae 100644
--- a/neural_network_lyapunov/train_utils.py
+++ b/neural_network_lyapunov/train_utils.py
@@ -53,7 +53,7 @@ def project_gradient(network, loss1, loss2, mode, retain_graph=False):
     loss2.backward(retain_graph=retain_graph)
     n2 = torch.cat([p.grad.reshape((-1, )) for p in network.parameters()])
     with torch.no_grad():
-        if n1 @ n2 > 0:
+        if n1 @ n2 >= 0:
             grad = n1 + n2
             need_projection = False
         else:
-- 
2.43.0


From 9257d61a78aaf208e7b50f23c02f122afdf20426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:47 +0000
Subject: [PATCH 28/40] fix: l1_gradient treats every entry within zero_tol as
 zero

The number of such entries was counted with a strict inequality, and the
entries to replace were found by comparing their sign, not their value, so
small but nonzero entries kept the sign they had: one-sided gradients were
missing and others repeated.
---
 neural_network_lyapunov/utils.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/neural_network_lyapunov/utils.py b/neural_network_lyapunov/utils.py
index d666543..7b00444 100644
--- a/neural_network_lyapunov/utils.py
+++ b/neural_network_lyapunov/utils.py
@@ -1462,29 +1462,28 @@ def l1_gradient(x: torch.Tensor,
         assert (np.all(subgradient_samples > -1)
                 and np.all(subgradient_samples < 1))
 
-    if not torch.any(torch.abs(x) <= zero_tol):
+    is_zero = torch.abs(x) <= zero_tol
+    if not torch.any(is_zero):
         return torch.sign(x).reshape((1, -1))
-    elif torch.sum(torch.abs(x) < zero_tol) == 1:
+    elif torch.sum(is_zero) == 1:
         s = torch.sign(x)
         s_plus = s.clone()
-        s_plus[torch.abs(s_plus) <= zero_tol] = 1
+        s_plus[is_zero] = 1
         s_minus = s.clone()
-        s_minus[torch.abs(s_minus) <= zero_tol] = -1
+        s_minus[is_zero] = -1
         if subgradient_samples is None:
             return torch.vstack((s_plus, s_minus))
         else:
             s_list = [s_plus, s_minus]
             for i in range(subgradient_samples.size):
                 s_subgradient = s.clone()
-                s_subgradient[torch.abs(s_subgradient) <=
-                              zero_tol] = subgradient_samples[i]
+                s_subgradient[is_zero] = subgradient_samples[i]
                 s_list.append(s_subgradient)
             return torch.vstack(s_list)
     else:
         # Denote the first index of x[i] == 0 as k
         # Get the gradient of 1-norm(x[:k])
-        first_zero_index = (torch.abs(x) <= zero_tol).nonzero(
-            as_tuple=True)[0][0]
+        first_zero_index = is_zero.nonzero(as_tuple=True)[0][0]
         grad_before = torch.sign(x[:first_zero_index])
         # The gradient w.r.t x[k] is 1 and -1 (plus subgradient_samples)
         # Also compute the gradient w.r.t x[k+1:]
-- 
2.43.0


From e9379969a825d41c52bdb13254f3b370bd475080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:47 +0000
Subject: [PATCH 29/40] fix: max encoding with exactly one input that can never
 be the maximum

squeeze() turned the single index into a number, and len() of it raised.
---
 neural_network_lyapunov/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/utils.py b/neural_network_lyapunov/utils.py
index 7b00444..ccc6a0b 100644
--- a/neural_network_lyapunov/utils.py
+++ b/neural_network_lyapunov/utils.py
@@ -106,7 +106,7 @@ def max_as_mixed_integer_constraint(
     non_maximal_idx = torch.nonzero(
         torch.any(x_up.unsqueeze(1).repeat(1, nx) -
                   x_lo.unsqueeze(1).T.repeat(nx, 1) < 0,
-                  dim=1)).squeeze().tolist()
+                  dim=1)).squeeze(1).tolist()
     if (len(non_maximal_idx) > 0):
         Aeq_binary_non_maximal = torch.zeros((len(non_maximal_idx), nx),
                                              dtype=dtype)
-- 
2.43.0


From 79825b10d0b5fdbbf71d4b033d0279ed4f376197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:47 +0000
Subject: [PATCH 30/40] fix: linear_program_cost with more than one active
 inequality

np.nonzero returns a tuple of index arrays, so each row was assigned all
the active rows and the second one raised.
---
 neural_network_lyapunov/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/utils.py b/neural_network_lyapunov/utils.py
index ccc6a0b..3fe55db 100644
--- a/neural_network_lyapunov/utils.py
+++ b/neural_network_lyapunov/utils.py
@@ -890,7 +890,7 @@ def linear_program_cost(c, d, A_in, b_in, A_eq, b_eq):
     b_act = torch.empty((num_act, ), dtype=torch.float64)
     A_act[:num_eq, :] = A_eq
     b_act[:num_eq] = b_eq
-    active_in_indices = np.nonzero(active_in_flag)
+    active_in_indices = np.nonzero(active_in_flag)[0]
     for i in range(num_act - num_eq):
         A_act[i + num_eq] = A_in[active_in_indices[i]]
         b_act[i + num_eq] = b_in[active_in_indices[i]]
-- 
2.43.0


From 7c976cc556933cb60a63adca5cd58ae24eefd312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:00 +0000
Subject: [PATCH 31/40] fix: partition_state_input_space rounded the cells to
 single precision

The cell limits went through float32, so neighbouring cells did not meet
the box they partition: points on its border were in no cell.
---
 neural_network_lyapunov/hybrid_linear_system.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/neural_network_lyapunov/hybrid_linear_system.py b/neural_network_lyapunov/hybrid_linear_system.py
index 34dd497..5eff671 100644
--- a/neural_network_lyapunov/hybrid_linear_system.py
+++ b/neural_network_lyapunov/hybrid_linear_system.py
@@ -917,14 +917,14 @@ def partition_state_input_space(x_lo, x_up, u_lo, u_up, num_breaks_x,
     states_u_up = torch.Tensor(0, u_dim).type(dtype)
     for k in range(indices_cart_product.shape[0]):
         indices = indices_cart_product[k, :]
-        sample = torch.Tensor([
-            grid_samples[i][indices[i]] for i in range(x_dim + u_dim)
-        ]).type(dtype)
+        sample = torch.tensor(
+            [grid_samples[i][indices[i]] for i in range(x_dim + u_dim)],
+            dtype=dtype)
         x_sample = sample[:x_dim]
         u_sample = sample[x_dim:x_dim + u_dim]
-        sample_limits = torch.Tensor([
-            grid_limits[i][indices[i]] for i in range(x_dim + u_dim)
-        ]).type(dtype)
+        sample_limits = torch.tensor(
+            [grid_limits[i][indices[i]] for i in range(x_dim + u_dim)],
+            dtype=dtype)
         sample_lo = sample_limits[:, 0]
         sample_up = sample_limits[:, 1]
         x_sample_lo = sample_lo[:x_dim] - x_delta_scaled
-- 
2.43.0


From 7a6a8d66013d9a1bda90f89f39a93c46ce730b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:00 +0000
Subject: [PATCH 32/40] fix: SimplePWLLyapunov continuity with a number of
 vertices other than x_dim

One equation per common vertex is needed; the offset was repeated x_dim
times instead.
---
 neural_network_lyapunov/simple_pwl_lyapunov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/simple_pwl_lyapunov.py b/neural_network_lyapunov/simple_pwl_lyapunov.py
index f38258d..239cf29 100644
--- a/neural_network_lyapunov/simple_pwl_lyapunov.py
+++ b/neural_network_lyapunov/simple_pwl_lyapunov.py
@@ -147,7 +147,7 @@ class SimplePWLLyapunov:
         self.constraints.append(
             common_vertices @ (self.c[:, mode_i] - self.c[:, mode_j]) +
             (self.d[mode_i] - self.d[mode_j]) *
-            np.ones(common_vertices.shape[1]) == 0)
+            np.ones(common_vertices.shape[0]) == 0)
 
     def solve(self, weight):
         """
-- 
2.43.0


From 40fd704b99f105df41182af327e2125aa9d8c3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:03 +0000
Subject: [PATCH 33/40] fix: apex_map_linear_approximation put a length-1 array
 into a matrix entry, which numpy refuses

---
 neural_network_lyapunov/slip_hybrid_linear_system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/slip_hybrid_linear_system.py b/neural_network_lyapunov/slip_hybrid_linear_system.py
index 3ca0eb6..e3a39b0 100644
--- a/neural_network_lyapunov/slip_hybrid_linear_system.py
+++ b/neural_network_lyapunov/slip_hybrid_linear_system.py
@@ -82,9 +82,9 @@ class SlipHybridLinearSystem:
         # Now approximate the constraint that at liftoff, the vertical velocity
         # should be positive.
         P[1, :3] = -dx_post_lo_dx_apex[3, :]
-        P[1, 3] = -dx_post_lo_dleg_angle[3]
+        P[1, 3] = -dx_post_lo_dleg_angle[3, 0]
         q[1, 0] = x_post_lo[3] - dx_post_lo_dx_apex[3, :].dot(apex_state) -\
-            dx_post_lo_dleg_angle[3] * leg_angle
+            dx_post_lo_dleg_angle[3, 0] * leg_angle
         # Now approximate the constraint that the touchdown point is on the
         # stepping stone left ≤ x⁻_TD[0] + l₀sinθ ≤ right
         constraint_count = 2
-- 
2.43.0


From a39ad82d92b1dadd3bd8dc1a20b94e16d117a7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:03 +0000
Subject: [PATCH 34/40] fix: SLIP.simulate went on after a step without
 touchdown, lift-off or next apex

---
 .../spring_loaded_inverted_pendulum.py                | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/neural_network_lyapunov/spring_loaded_inverted_pendulum.py b/neural_network_lyapunov/spring_loaded_inverted_pendulum.py
index 5a3fa9c..194b74d 100644
--- a/neural_network_lyapunov/spring_loaded_inverted_pendulum.py
+++ b/neural_network_lyapunov/spring_loaded_inverted_pendulum.py
@@ -242,6 +242,9 @@ class SLIP:
                                         x_step_start,
                                         events=touchdown)
             sol.append(sol_step_flight)
+            if len(sol_step_flight.t_events[0]) == 0:
+                # The foot does not touch the ground.
+                break
             pre_td_state = sol_step_flight.y[:, -1]
             post_td_state = self.touchdown_transition(pre_td_state,
                                                       theta_step[step])
@@ -270,12 +273,14 @@ class SLIP:
                 events=[lo, hitground1, hitground2],
                 rtol=1e-8)
             sol.append(sol_step_stance)
-            if (sol_step_stance.y[1, -1] + np.pi / 2 < 1E-5):
-                break
-            if (np.pi / 2 - sol_step_stance.y[1, -1] < 1E-5):
+            if len(sol_step_stance.t_events[0]) == 0:
+                # The mass hits the ground before the foot lifts off.
                 break
             x_post_lo = self.liftoff_transition(sol_step_stance.y[:, -1])
             t_post_lo = sol_step_stance.t[-1]
+            if (x_post_lo[3] < 0):
+                # The vertical velocity is negative, there is no next apex.
+                break
             # The ascending phase, compute the next apex state.
             t_lo_to_apex = x_post_lo[3] / self.g
             next_apex_pos_x = x_post_lo[0] + x_post_lo[2] * t_lo_to_apex
-- 
2.43.0


From b415a42bb62ce113f235d7050b7689197f5f20dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:53 +0000
Subject: [PATCH 35/40] fix: example systems could not be put into a
 FeedbackSystem, which passes binary_var_type and u_input_prog and expects a
 constraint return

---
 .../examples/car/acceleration_car.py               |  3 ++-
 neural_network_lyapunov/examples/car/unicycle.py   | 14 ++++++++++----
 .../examples/pole/pole_relu_system.py              |  3 ++-
 .../examples/quadrotor3d/quadrotor.py              |  3 ++-
 4 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/neural_network_lyapunov/examples/car/acceleration_car.py b/neural_network_lyapunov/examples/car/acceleration_car.py
index 0e3fd64..444a9ba 100644
--- a/neural_network_lyapunov/examples/car/acceleration_car.py
+++ b/neural_network_lyapunov/examples/car/acceleration_car.py
@@ -159,7 +159,8 @@ class AccelerationCarReLUModel:
                                 binary_var_name,
                                 additional_u_lo: torch.Tensor = None,
                                 additional_u_up: torch.Tensor = None,
-                                binary_var_type=gurobipy.GRB.BINARY):
+                                binary_var_type=gurobipy.GRB.BINARY,
+                                u_input_prog=None):
         """
         Add the dynamic constraints a mixed-integer linear constraints. Refer
         to relu_system.py for the common API.
diff --git a/neural_network_lyapunov/examples/car/unicycle.py b/neural_network_lyapunov/examples/car/unicycle.py
index 65ebf9d..1f339ca 100644
--- a/neural_network_lyapunov/examples/car/unicycle.py
+++ b/neural_network_lyapunov/examples/car/unicycle.py
@@ -198,7 +198,9 @@ class UnicycleReLUModel:
                                 slack_var_name,
                                 binary_var_name,
                                 additional_u_lo: torch.Tensor = None,
-                                additional_u_up: torch.Tensor = None):
+                                additional_u_up: torch.Tensor = None,
+                                binary_var_type=gurobipy.GRB.BINARY,
+                                u_input_prog=None):
         """
         Add the dynamic constraints a mixed-integer linear constraints. Refer
         to relu_system.py for the common API.
@@ -238,7 +240,7 @@ class UnicycleReLUModel:
             mip.add_mixed_integer_linear_constraints(
                 mip_cnstr_result, input_vars, None, slack_var_name,
                 binary_var_name, "unicycle_forward_dynamics_ineq",
-                "unicycle_forward_dyamics_eq", None)
+                "unicycle_forward_dyamics_eq", None, binary_var_type)
         # Now add the constraint on the output of the network, that
         # [delta_pos_x, delta_pos_y] =
         # ϕ(θ[n], vel[n], θ_dot[n])−ϕ(0, 0, 0)
@@ -367,7 +369,8 @@ class UnicycleReLUZeroVelModel(UnicycleReLUModel):
                                 binary_var_name,
                                 additional_u_lo: torch.Tensor = None,
                                 additional_u_up: torch.Tensor = None,
-                                binary_var_type=gurobipy.GRB.BINARY):
+                                binary_var_type=gurobipy.GRB.BINARY,
+                                u_input_prog=None):
         """
         Add the dynamic constraints a mixed-integer linear constraints. Refer
         to relu_system.py for the common API.
@@ -458,7 +461,10 @@ class UnicycleReLUZeroVelModel(UnicycleReLUModel):
                        sense=gurobipy.GRB.EQUAL,
                        rhs=0.,
                        name="unicycle_theta_dynamics")
-        return forward_slack, forward_binary
+        ret = relu_system.ReLUDynamicsConstraintReturn(
+            forward_slack, forward_binary)
+        ret.from_mip_cnstr_return(mip_cnstr_result, input_vars)
+        return ret
 
 
 class UnicycleVisualizer:
diff --git a/neural_network_lyapunov/examples/pole/pole_relu_system.py b/neural_network_lyapunov/examples/pole/pole_relu_system.py
index ca642b9..5a6ab20 100644
--- a/neural_network_lyapunov/examples/pole/pole_relu_system.py
+++ b/neural_network_lyapunov/examples/pole/pole_relu_system.py
@@ -95,7 +95,8 @@ class PoleReluSystem:
                                 forward_binary_var_name,
                                 additional_u_lo: torch.Tensor = None,
                                 additional_u_up: torch.Tensor = None,
-                                binary_var_type=gurobipy.GRB.BINARY):
+                                binary_var_type=gurobipy.GRB.BINARY,
+                                u_input_prog=None):
         u_lo = self.u_lo if additional_u_lo is None else torch.max(
             self.u_lo, additional_u_lo)
         u_up = self.u_up if additional_u_up is None else torch.min(
diff --git a/neural_network_lyapunov/examples/quadrotor3d/quadrotor.py b/neural_network_lyapunov/examples/quadrotor3d/quadrotor.py
index d891e17..de39894 100644
--- a/neural_network_lyapunov/examples/quadrotor3d/quadrotor.py
+++ b/neural_network_lyapunov/examples/quadrotor3d/quadrotor.py
@@ -301,7 +301,8 @@ class QuadrotorWithPixhawkReLUSystem:
                                 binary_var_name,
                                 additional_u_lo: torch.Tensor = None,
                                 additional_u_up: torch.Tensor = None,
-                                binary_var_type=gurobipy.GRB.BINARY):
+                                binary_var_type=gurobipy.GRB.BINARY,
+                                u_input_prog=None):
         """
         Add the dynamic constraint
         pos[n+1] = pos[n] + (v[n] + v[n+1]) * dt / 2
-- 
2.43.0


From e2220b772c9796fbbd0da29e013bb93799db4384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:50 +0000
Subject: [PATCH 36/40] fix: the program bounding the next state was of the
 base class, without setObjective

---
 neural_network_lyapunov/relu_system.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/relu_system.py b/neural_network_lyapunov/relu_system.py
index a75d27f..20759c7 100644
--- a/neural_network_lyapunov/relu_system.py
+++ b/neural_network_lyapunov/relu_system.py
@@ -1032,7 +1032,10 @@ def _add_forward_dynamics_mip_constraints(
         x_next_ub_IA = mip_cnstr.x_next_ub
     else:
         if u_input_prog is None:
-            bound_prog = gurobi_torch_mip.GurobiTorchMIP(forward_system.dtype)
+            bound_prog = gurobi_torch_mip.GurobiTorchMILP(
+                forward_system.dtype)
+            bound_prog.gurobi_model.setParam(gurobipy.GRB.Param.OutputFlag,
+                                             False)
             bound_prog_x_var = bound_prog.addVars(forward_system.x_dim,
                                                   lb=-gurobipy.GRB.INFINITY)
             bound_prog_u_var = bound_prog.addVars(forward_system.u_dim,
-- 
2.43.0


From c688ca4d13a701b68e9a7ea946ff691bc8fc0f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:33 +0000
Subject: [PATCH 37/40] fix: additional control limits replaced the system's
 own in _add_forward_dynamics_mip_constraints

---
 neural_network_lyapunov/relu_system.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/relu_system.py b/neural_network_lyapunov/relu_system.py
index 20759c7..352ae4f 100644
--- a/neural_network_lyapunov/relu_system.py
+++ b/neural_network_lyapunov/relu_system.py
@@ -1014,8 +1014,11 @@ def _add_forward_dynamics_mip_constraints(
       u_input_prog: Set to None don't plan to compute the ReLU input bounds
       through optimization.
     """
-    mip_cnstr = forward_system.mixed_integer_constraints(
-        additional_u_lo, additional_u_up)
+    u_lo = forward_system.u_lo if additional_u_lo is None else torch.max(
+        forward_system.u_lo, additional_u_lo)
+    u_up = forward_system.u_up if additional_u_up is None else torch.min(
+        forward_system.u_up, additional_u_up)
+    mip_cnstr = forward_system.mixed_integer_constraints(u_lo, u_up)
     input_vars = x_var + u_var
     slack, binary = mip.add_mixed_integer_linear_constraints(
         mip_cnstr, input_vars, x_next_var, slack_var_name, binary_var_name,
-- 
2.43.0


From 1c883451046077b2b098991a17641ef7fe637684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:39 +0000
Subject: [PATCH 38/40] fix: update_relu_params made the network share the
 caller's tensor, so training it overwrote that tensor

---
 neural_network_lyapunov/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/utils.py b/neural_network_lyapunov/utils.py
index 3fe55db..7816e23 100644
--- a/neural_network_lyapunov/utils.py
+++ b/neural_network_lyapunov/utils.py
@@ -1006,13 +1006,13 @@ def update_relu_params(relu, params: torch.Tensor):
         if isinstance(layer, torch.nn.Linear):
             layer.weight.data = params[params_count:params_count +
                                        layer.in_features *
-                                       layer.out_features].reshape(
+                                       layer.out_features].clone().reshape(
                                            (layer.out_features,
                                             layer.in_features))
             params_count += layer.in_features * layer.out_features
             if layer.bias is not None:
                 layer.bias.data = params[params_count:params_count +
-                                         layer.out_features]
+                                         layer.out_features].clone()
                 params_count += layer.out_features
 
 
-- 
2.43.0


From f0aef810b3db0be9355e0e27b10330074507764b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:39 +0000
Subject: [PATCH 39/40] fix: uniform_sample_on_box_boundary indexed past the
 last axis when torch.rand returned exactly 0

---
 neural_network_lyapunov/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/utils.py b/neural_network_lyapunov/utils.py
index 7816e23..c09fd41 100644
--- a/neural_network_lyapunov/utils.py
+++ b/neural_network_lyapunov/utils.py
@@ -1372,8 +1372,9 @@ def uniform_sample_on_box_boundary(lo: torch.Tensor, hi: torch.Tensor,
     x_dim = lo.numel()
     boundary_face_rand = torch.rand((num_samples, )) * 2 - 1
     for i in range(num_samples):
-        boundary_face_index = int(
-            (torch.abs(boundary_face_rand[i]) * x_dim).item())
+        # torch.rand can return exactly 0, namely |boundary_face_rand[i]| = 1.
+        boundary_face_index = min(
+            int((torch.abs(boundary_face_rand[i]) * x_dim).item()), x_dim - 1)
         samples_in_box[i, boundary_face_index] = lo[
             boundary_face_index] if boundary_face_rand[i] < 0 else hi[
                 boundary_face_index]
-- 
2.43.0


From f59cdef90c5c8a3552abe8b4c1875a17330c1583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:40 +0000
Subject: [PATCH 40/40] Revert the fix of the example systems: files under
 examples/ are left as they are

---
 .../examples/car/acceleration_car.py               |  3 +--
 neural_network_lyapunov/examples/car/unicycle.py   | 14 ++++----------
 .../examples/pole/pole_relu_system.py              |  3 +--
 .../examples/quadrotor3d/quadrotor.py              |  3 +--
 4 files changed, 7 insertions(+), 16 deletions(-)

diff --git a/neural_network_lyapunov/examples/car/acceleration_car.py b/neural_network_lyapunov/examples/car/acceleration_car.py
index 444a9ba..0e3fd64 100644
--- a/neural_network_lyapunov/examples/car/acceleration_car.py
+++ b/neural_network_lyapunov/examples/car/acceleration_car.py
@@ -159,8 +159,7 @@ class AccelerationCarReLUModel:
                                 binary_var_name,
                                 additional_u_lo: torch.Tensor = None,
                                 additional_u_up: torch.Tensor = None,
-                                binary_var_type=gurobipy.GRB.BINARY,
-                                u_input_prog=None):
+                                binary_var_type=gurobipy.GRB.BINARY):
         """
         Add the dynamic constraints a mixed-integer linear constraints. Refer
         to relu_system.py for the common API.
diff --git a/neural_network_lyapunov/examples/car/unicycle.py b/neural_network_lyapunov/examples/car/unicycle.py
index 1f339ca..65ebf9d 100644
--- a/neural_network_lyapunov/examples/car/unicycle.py
+++ b/neural_network_lyapunov/examples/car/unicycle.py
@@ -198,9 +198,7 @@ class UnicycleReLUModel:
                                 slack_var_name,
                                 binary_var_name,
                                 additional_u_lo: torch.Tensor = None,
-                                additional_u_up: torch.Tensor = None,
-                                binary_var_type=gurobipy.GRB.BINARY,
-                                u_input_prog=None):
+                                additional_u_up: torch.Tensor = None):
         """
         Add the dynamic constraints a mixed-integer linear constraints. Refer
         to relu_system.py for the common API.
@@ -240,7 +238,7 @@ class UnicycleReLUModel:
             mip.add_mixed_integer_linear_constraints(
                 mip_cnstr_result, input_vars, None, slack_var_name,
                 binary_var_name, "unicycle_forward_dynamics_ineq",
-                "unicycle_forward_dyamics_eq", None, binary_var_type)
+                "unicycle_forward_dyamics_eq", None)
         # Now add the constraint on the output of the network, that
         # [delta_pos_x, delta_pos_y] =
         # ϕ(θ[n], vel[n], θ_dot[n])−ϕ(0, 0, 0)
@@ -369,8 +367,7 @@ class UnicycleReLUZeroVelModel(UnicycleReLUModel):
                                 binary_var_name,
                                 additional_u_lo: torch.Tensor = None,
                                 additional_u_up: torch.Tensor = None,
-                                binary_var_type=gurobipy.GRB.BINARY,
-                                u_input_prog=None):
+                                binary_var_type=gurobipy.GRB.BINARY):
         """
         Add the dynamic constraints a mixed-integer linear constraints. Refer
         to relu_system.py for the common API.
@@ -461,10 +458,7 @@ class UnicycleReLUZeroVelModel(UnicycleReLUModel):
                        sense=gurobipy.GRB.EQUAL,
                        rhs=0.,
                        name="unicycle_theta_dynamics")
-        ret = relu_system.ReLUDynamicsConstraintReturn(
-            forward_slack, forward_binary)
-        ret.from_mip_cnstr_return(mip_cnstr_result, input_vars)
-        return ret
+        return forward_slack, forward_binary
 
 
 class UnicycleVisualizer:
diff --git a/neural_network_lyapunov/examples/pole/pole_relu_system.py b/neural_network_lyapunov/examples/pole/pole_relu_system.py
index 5a6ab20..ca642b9 100644
--- a/neural_network_lyapunov/examples/pole/pole_relu_system.py
+++ b/neural_network_lyapunov/examples/pole/pole_relu_system.py
@@ -95,8 +95,7 @@ class PoleReluSystem:
                                 forward_binary_var_name,
                                 additional_u_lo: torch.Tensor = None,
                                 additional_u_up: torch.Tensor = None,
-                                binary_var_type=gurobipy.GRB.BINARY,
-                                u_input_prog=None):
+                                binary_var_type=gurobipy.GRB.BINARY):
         u_lo = self.u_lo if additional_u_lo is None else torch.max(
             self.u_lo, additional_u_lo)
         u_up = self.u_up if additional_u_up is None else torch.min(
diff --git a/neural_network_lyapunov/examples/quadrotor3d/quadrotor.py b/neural_network_lyapunov/examples/quadrotor3d/quadrotor.py
index de39894..d891e17 100644
--- a/neural_network_lyapunov/examples/quadrotor3d/quadrotor.py
+++ b/neural_network_lyapunov/examples/quadrotor3d/quadrotor.py
@@ -301,8 +301,7 @@ class QuadrotorWithPixhawkReLUSystem:
                                 binary_var_name,
                                 additional_u_lo: torch.Tensor = None,
                                 additional_u_up: torch.Tensor = None,
-                                binary_var_type=gurobipy.GRB.BINARY,
-                                u_input_prog=None):
+                                binary_var_type=gurobipy.GRB.BINARY):
         """
         Add the dynamic constraint
         pos[n+1] = pos[n] + (v[n] + v[n+1]) * dt / 2
-- 
2.43.0

