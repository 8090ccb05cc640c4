From 84d6ba8a3c5a8113343ffff4cd857cfd2d005e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:40 +0000
Subject: [PATCH 01/30] fix: update_by_slice_in_dim accepts a scalar update
 index with batched input indices

---
 waymax/datatypes/operations.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/waymax/datatypes/operations.py b/waymax/datatypes/operations.py
index dc57cd7..2e28591 100644
--- a/waymax/datatypes/operations.py
+++ b/waymax/datatypes/operations.py
@@ -158,6 +158,11 @@ def update_by_slice_in_dim(
 
   if updates_start_idx is None:
     updates_start_idx = inputs_start_idx
+  elif hasattr(inputs_start_idx, 'shape'):
+    # Both indices are mapped over the batch dimensions of inputs_start_idx.
+    updates_start_idx = jnp.broadcast_to(
+        updates_start_idx, inputs_start_idx.shape
+    )
 
   def _update(source, update, inputs_start_idx, updates_start_idx):
     if slice_size is not None:
-- 
2.43.0


From 565fe3396ec47c61bd090d994571dcf947abc8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:14 +0000
Subject: [PATCH 02/30] fix: PlanningAgentDynamics.forward tiles the validity
 over the object axis

---
 waymax/env/planning_agent_environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waymax/env/planning_agent_environment.py b/waymax/env/planning_agent_environment.py
index d547a30..c4164a0 100644
--- a/waymax/env/planning_agent_environment.py
+++ b/waymax/env/planning_agent_environment.py
@@ -100,7 +100,7 @@ class PlanningAgentDynamics(_dynamics.DynamicsModel):
         action.data[..., jnp.newaxis, :], trajectory.num_objects, axis=-2
     )
     tiled_valid = jnp.repeat(
-        action.valid[..., jnp.newaxis], trajectory.num_objects, axis=-1
+        action.valid[..., jnp.newaxis, :], trajectory.num_objects, axis=-2
     )
     tiled_action = datatypes.Action(data=tiled_action_data, valid=tiled_valid)
     tiled_action.validate()
-- 
2.43.0


From 86a0954bae8f16947a3a6858343048508de41914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:42 +0000
Subject: [PATCH 03/30] fix: PlanningAgentDynamics.forward follows the
 DynamicsModel interface and honours object injection

---
 waymax/env/planning_agent_environment.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/waymax/env/planning_agent_environment.py b/waymax/env/planning_agent_environment.py
index c4164a0..1d1b5cb 100644
--- a/waymax/env/planning_agent_environment.py
+++ b/waymax/env/planning_agent_environment.py
@@ -64,10 +64,10 @@ class PlanningAgentDynamics(_dynamics.DynamicsModel):
       self,
       action: datatypes.Action,
       trajectory: datatypes.Trajectory,
-      log_trajectory: datatypes.Trajectory,
+      reference_trajectory: datatypes.Trajectory,
       is_controlled: jax.Array,
       timestep: int,
-      allow_new_objects: bool = True,
+      allow_object_injection: bool = False,
   ) -> datatypes.Trajectory:
     """Updates a simulated trajectory to the next timestep given an update.
 
@@ -81,14 +81,14 @@ class PlanningAgentDynamics(_dynamics.DynamicsModel):
         trajectory will be updated by this function updated with the trajectory
         update. It is expected that this trajectory will have been updated up to
         `timestep`. This is of shape: (..., num_objects, num_timesteps).
-      log_trajectory: Logged trajectory for all objects over the entire run
-        segment. Certain fields such as valid are optionally taken from this
+      reference_trajectory: Logged trajectory for all objects over the entire
+        run segment. Certain fields such as valid are optionally taken from this
         trajectory. This is of shape: (..., num_objects, num_timesteps).
       is_controlled: Boolean array specifying which objects are to be controlled
         by the trajectory update of shape (..., num_objects).
       timestep: Timestep of the current simulation.
-      allow_new_objects: Whether to allow new objects to enter the secene. If
-        this is set to False, all objects that are not valid at the current
+      allow_object_injection: Whether to allow new objects to enter the scene.
+        If this is set to False, all objects that are not valid at the current
         timestep will not be valid at the next timestep and visa versa.
 
     Returns:
@@ -107,9 +107,10 @@ class PlanningAgentDynamics(_dynamics.DynamicsModel):
     return self.wrapped_dynamics.forward(
         tiled_action,
         trajectory,
-        log_trajectory,
+        reference_trajectory,
         is_controlled,
         timestep,
+        allow_object_injection,
     )
 
   def inverse(
-- 
2.43.0


From 0a1b3016be552b32717bc8be0a227ab7fd7daa16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:45 +0000
Subject: [PATCH 04/30] fix: inverse_action_by_search fits the actions of all
 objects, not only of the SDC

---
 waymax/dynamics/discretizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/waymax/dynamics/discretizer.py b/waymax/dynamics/discretizer.py
index b7e7add..1e00adc 100644
--- a/waymax/dynamics/discretizer.py
+++ b/waymax/dynamics/discretizer.py
@@ -19,7 +19,6 @@ from dm_env import specs
 import jax
 import jax.numpy as jnp
 
-from waymax import config as _config
 from waymax import datatypes
 from waymax.dynamics import abstract_dynamics
 
@@ -252,7 +251,8 @@ def inverse_action_by_search(
     An Action that converts traj[timestep] to traj[timestep+1] of shape
       (..., num_objects, dim=2).
   """
-  is_controlled = datatypes.get_control_mask(metadata, _config.ObjectType.SDC)
+  del metadata  # Unused: the action is fit for every object.
+  is_controlled = jnp.ones(traj.shape[:-1], dtype=jnp.bool_)
   valids = jax.lax.dynamic_slice_in_dim(
       traj.valid, start_index=timestep, slice_size=2, axis=-1
   )
-- 
2.43.0


From 283a6abf37c30085c174641a4897d064afd2fd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:45 +0000
Subject: [PATCH 05/30] fix: Discretizer rejects bins whose shape differs from
 the bounds

---
 waymax/dynamics/discretizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waymax/dynamics/discretizer.py b/waymax/dynamics/discretizer.py
index 1e00adc..741755c 100644
--- a/waymax/dynamics/discretizer.py
+++ b/waymax/dynamics/discretizer.py
@@ -46,7 +46,7 @@ class Discretizer:
       bins: Number of bins for the different vector elements to discretize of
         shape (num_vector_elements,).
     """
-    if min_value.shape != max_value.shape and min_value.shape != bins.shape:
+    if min_value.shape != max_value.shape or min_value.shape != bins.shape:
       raise ValueError('Shapes do not match.')
     self._mins = min_value
     self._maxs = max_value
-- 
2.43.0


From 8093fc51ea6b1bd18f8e46c527db58be1aab2f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:41 +0000
Subject: [PATCH 06/30] fix: planning kinematic metric's warm-up mask
 broadcasts over objects for batched timesteps

---
 waymax/env/planning_agent_environment.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/waymax/env/planning_agent_environment.py b/waymax/env/planning_agent_environment.py
index 1d1b5cb..798a082 100644
--- a/waymax/env/planning_agent_environment.py
+++ b/waymax/env/planning_agent_environment.py
@@ -310,7 +310,10 @@ class PlanningAgentEnvironment(abstract_environment.AbstractEnvironment):
       # necessarily kinematically feasible, so we choose to ignore the first
       # state's sdc_kim value and set it to 0 (kinematically feasible) because
       # the action is not chosen by the actor and is thus not clipped.
-      kim_metric_valid = state.timestep > self.config.init_steps - 1
+      # Shape: (..., 1), to broadcast over objects.
+      kim_metric_valid = (
+          state.timestep[..., jnp.newaxis] > self.config.init_steps - 1
+      )
       kim_metric = metric_dict['kinematic_infeasibility']
       kim_metric = kim_metric.replace(
           value=kim_metric.value * kim_metric_valid,
-- 
2.43.0


From 565c37631173586f6b5848b1b0f8ea0286cc47e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:53 +0000
Subject: [PATCH 07/30] fix: compute_inverse accepts the batched timestep of a
 batched state (kinematic metric)

---
 waymax/dynamics/bicycle_model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/waymax/dynamics/bicycle_model.py b/waymax/dynamics/bicycle_model.py
index 347c143..ef3b52d 100644
--- a/waymax/dynamics/bicycle_model.py
+++ b/waymax/dynamics/bicycle_model.py
@@ -74,13 +74,13 @@ def compute_inverse(
   xy_yaw_vel = jnp.stack(
       [traj.x, traj.y, traj.yaw, traj.vel_x, traj.vel_y], axis=-1
   )
-  xy_yaw_vel_slice = jax.lax.dynamic_slice_in_dim(
-      xy_yaw_vel, start_index=timestep, slice_size=2, axis=-2
+  xy_yaw_vel_slice = datatypes.dynamic_slice(
+      xy_yaw_vel, timestep, slice_size=2, axis=-2
   )
   # Each has shape (..., num_timesteps = 2, 1).
   _, _, yaw, vel_x, vel_y = jnp.split(xy_yaw_vel_slice, 5, axis=-1)
-  valids = jax.lax.dynamic_slice_in_dim(
-      traj.valid, start_index=timestep, slice_size=2, axis=-1
+  valids = datatypes.dynamic_slice(
+      traj.valid, timestep, slice_size=2, axis=-1
   )
   valid = valids[..., 0:1] & valids[..., 1:2]
   # Calculate acceleration.
-- 
2.43.0


From 84689f990f0fe7b4084baebd11e7419d84d069fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:48 +0000
Subject: [PATCH 08/30] fix: linear reward broadcasts SDC metrics over the
 agents of batched states

---
 waymax/rewards/linear_combination_reward.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/waymax/rewards/linear_combination_reward.py b/waymax/rewards/linear_combination_reward.py
index 2bf1d7e..afc0117 100644
--- a/waymax/rewards/linear_combination_reward.py
+++ b/waymax/rewards/linear_combination_reward.py
@@ -55,6 +55,9 @@ class LinearCombinationReward(abstract_reward_function.AbstractRewardFunction):
     reward = jnp.zeros_like(agent_mask)
     for reward_metric_name, reward_weight in self._config.rewards.items():
       metric_all_agents = all_metrics[reward_metric_name].masked_value()
+      if metric_all_agents.ndim < agent_mask.ndim:
+        # SDC metrics have shape (...) and apply to every masked agent.
+        metric_all_agents = metric_all_agents[..., jnp.newaxis]
       metric = metric_all_agents * agent_mask
       reward += metric * reward_weight
 
-- 
2.43.0


From 1d40d7276d38006ca2e26ec0e1f957bb9b319106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:48 +0000
Subject: [PATCH 09/30] fix: linear reward is a float array also without any
 configured metric

---
 waymax/rewards/linear_combination_reward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waymax/rewards/linear_combination_reward.py b/waymax/rewards/linear_combination_reward.py
index afc0117..d06c5cc 100644
--- a/waymax/rewards/linear_combination_reward.py
+++ b/waymax/rewards/linear_combination_reward.py
@@ -52,7 +52,7 @@ class LinearCombinationReward(abstract_reward_function.AbstractRewardFunction):
     del action  # unused
     all_metrics = metrics.run_metrics(simulator_state, self._metrics_config)
 
-    reward = jnp.zeros_like(agent_mask)
+    reward = jnp.zeros_like(agent_mask, dtype=jnp.float32)
     for reward_metric_name, reward_weight in self._config.rewards.items():
       metric_all_agents = all_metrics[reward_metric_name].masked_value()
       if metric_all_agents.ndim < agent_mask.ndim:
-- 
2.43.0


From 030c0d8780a6a889413a898d954a2a44f8d7800f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:20 +0000
Subject: [PATCH 10/30] fix: Discretizer traces with jax bin counts (sizes are
 kept on the host)

---
 waymax/dynamics/discretizer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/waymax/dynamics/discretizer.py b/waymax/dynamics/discretizer.py
index 741755c..9c1a83f 100644
--- a/waymax/dynamics/discretizer.py
+++ b/waymax/dynamics/discretizer.py
@@ -18,6 +18,7 @@ import functools
 from dm_env import specs
 import jax
 import jax.numpy as jnp
+import numpy as np
 
 from waymax import datatypes
 from waymax.dynamics import abstract_dynamics
@@ -53,6 +54,8 @@ class Discretizer:
     self._bins = bins
     self._shift = min_value
     self._scale = bins / (max_value - min_value)
+    # Kept on the host: the sizes have to be concrete also while tracing.
+    self._sizes = np.asarray(bins) + 1
     self._max_discrete_idx = jnp.prod(self._bins + 1) - 1
 
   def discretize(self, values: jax.Array) -> jax.Array:
@@ -74,7 +77,7 @@ class Discretizer:
     ).astype(jnp.int32)
     indices_1d = jnp.ravel_multi_index(  # pytype: disable=wrong-arg-types  # jnp-type
         jnp.split(indices_nd, self._bins.shape[0], -1),
-        self._bins + 1,
+        self._sizes,
         mode='clip',
     )
     return indices_1d
@@ -91,7 +94,7 @@ class Discretizer:
         value discretized by `indices_1d`.
     """
     indices_nd = jnp.stack(
-        jnp.unravel_index(jnp.reshape(indices_1d, [-1]), self._bins + 1),
+        jnp.unravel_index(jnp.reshape(indices_1d, [-1]), self._sizes),
         axis=-1,
     )
     # Shape: (..., num_vector_elements)
-- 
2.43.0


From 05189cda629282060d9f1036c73ce74b3cafac7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:37 +0000
Subject: [PATCH 11/30] fix: DMEnvWrapper stays uninitialized when reset yields
 a finished episode

---
 waymax/env/wrappers/dm_env_wrapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/waymax/env/wrappers/dm_env_wrapper.py b/waymax/env/wrappers/dm_env_wrapper.py
index 6c89bc1..2b6f18b 100644
--- a/waymax/env/wrappers/dm_env_wrapper.py
+++ b/waymax/env/wrappers/dm_env_wrapper.py
@@ -86,10 +86,11 @@ class DMEnvWrapper(dm_env.Environment):
 
   def reset(self) -> dm_env.TimeStep:
     """Resets the environment and returns the initial TimeStep."""
+    self._initialized = False
     self._cur_state = self.stateless_env.reset(next(self._data_generator))
-    self._initialized = True
     if self._cur_state.is_done:
       raise errors.SimulationNotInitializedError()
+    self._initialized = True
     self._done = False
     return dm_env.restart(observation=self.observe(self._cur_state))
 
-- 
2.43.0


From 9c8a7dacc77414edfc65fe84beaab42da11d15c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:43 +0000
Subject: [PATCH 12/30] fix: DMEnvWrapper gives the reward the executed Action

---
 waymax/env/wrappers/dm_env_wrapper.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/waymax/env/wrappers/dm_env_wrapper.py b/waymax/env/wrappers/dm_env_wrapper.py
index 2b6f18b..cc75d7d 100644
--- a/waymax/env/wrappers/dm_env_wrapper.py
+++ b/waymax/env/wrappers/dm_env_wrapper.py
@@ -115,10 +115,6 @@ class DMEnvWrapper(dm_env.Environment):
     if self._done:
       raise errors.EpisodeAlreadyFinishedError()
 
-    # Calculate the reward on the simulation step before updating the state with
-    # the given action.
-    reward = self._jitted_stateless_env_reward(self._cur_state, action)
-
     action = jnp.asarray(action)
     # Reshape the action to what the underlying environment wants.
     action = jnp.reshape(
@@ -130,6 +126,9 @@ class DMEnvWrapper(dm_env.Environment):
         data=action, valid=jnp.ones_like(action[..., 0:1], dtype=jnp.bool_)
     )
     action.validate()
+    # Calculate the reward on the simulation step before updating the state with
+    # the given action.
+    reward = self._jitted_stateless_env_reward(self._cur_state, action)
     self._cur_state = self._jitted_stateless_env_step(self._cur_state, action)
 
     termination = self._stateless_env.termination(self._cur_state)
-- 
2.43.0


From 6d8d6bc07fefb55fc9e2f3c88024d9add36274c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:21 +0000
Subject: [PATCH 13/30] fix: make_sdc_dm_environment gives each simulated agent
 its parameters

---
 waymax/env/wrappers/dm_env_wrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/waymax/env/wrappers/dm_env_wrapper.py b/waymax/env/wrappers/dm_env_wrapper.py
index cc75d7d..a462815 100644
--- a/waymax/env/wrappers/dm_env_wrapper.py
+++ b/waymax/env/wrappers/dm_env_wrapper.py
@@ -218,5 +218,6 @@ def make_sdc_dm_environment(
       dynamics_model=dynamics_model,
       config=env_config,
       sim_agent_actors=sim_agent_actors,
+      sim_agent_params=[{} for _ in sim_agent_actors],
   )
   return DMEnvWrapper(dataset_iterator, single_env)
-- 
2.43.0


From 6fc3193e4bd5904c29f56d5367b3a486d9c98e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:06 +0000
Subject: [PATCH 14/30] fix: observation_from_state marks every observer as its
 own ego

---
 waymax/datatypes/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waymax/datatypes/observation.py b/waymax/datatypes/observation.py
index 8836305..55309a8 100644
--- a/waymax/datatypes/observation.py
+++ b/waymax/datatypes/observation.py
@@ -568,7 +568,7 @@ def observation_from_state(
   # state.shape + (num_obj, num_obj)
   target_shape = state.shape + (num_obj, num_obj)
   is_ego = jax.lax.broadcast_in_dim(
-      jnp.diag(jnp.arange(num_obj)) == 1,
+      jnp.eye(num_obj, dtype=jnp.bool_),
       shape=target_shape,
       broadcast_dimensions=(len(target_shape) - 2, len(target_shape) - 1),
   )
-- 
2.43.0


From 78e4c67af7242f4281bf07647864c65000eed44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:06 +0000
Subject: [PATCH 15/30] fix: Observation.for_obj slices the observer axis

---
 waymax/datatypes/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waymax/datatypes/observation.py b/waymax/datatypes/observation.py
index 55309a8..3981400 100644
--- a/waymax/datatypes/observation.py
+++ b/waymax/datatypes/observation.py
@@ -254,7 +254,7 @@ class Observation:
     Returns:
       A Observation with shape (..., 1).
     """
-    axis = len(self.shape) - 2
+    axis = len(self.shape) - 1
     return operations.dynamic_slice(
         inputs=self, start_index=idx, slice_size=1, axis=axis
     )
-- 
2.43.0


From 36720cd948a2d856df2513edddf0b0cfec3e83f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:06 +0000
Subject: [PATCH 16/30] fix: Observation.num_objects counts the observed
 objects

---
 waymax/datatypes/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waymax/datatypes/observation.py b/waymax/datatypes/observation.py
index 3981400..e516f35 100644
--- a/waymax/datatypes/observation.py
+++ b/waymax/datatypes/observation.py
@@ -238,7 +238,7 @@ class Observation:
   @property
   def num_objects(self) -> int:
     """The number of objects."""
-    return self.shape[-1]
+    return self.metadata.shape[-1]
 
   @property
   def valid(self) -> jax.Array:
-- 
2.43.0


From 78abe022e75eaa811ef8cdf940de6d0c5e00f6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:06 +0000
Subject: [PATCH 17/30] fix: transform_observation also transforms the SDC
 paths

---
 waymax/datatypes/observation.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/waymax/datatypes/observation.py b/waymax/datatypes/observation.py
index e516f35..3731c44 100644
--- a/waymax/datatypes/observation.py
+++ b/waymax/datatypes/observation.py
@@ -391,6 +391,28 @@ def transform_traffic_lights(
   return tls.replace(x=dst_xy[..., 0], y=dst_xy[..., 1], valid=valid)
 
 
+def transform_paths(paths: route.Paths, pose2d: ObjectPose2D) -> route.Paths:
+  """Transforms Paths into coordinates specified by pose2d.
+
+  Args:
+    paths: Paths with shape (..., num_observations, num_paths,
+      num_points_per_path).
+    pose2d: A ObjectPose2D with shape (..., num_observations).
+
+  Returns:
+    Transformed Paths in local coordinates per-observation defined by the pose.
+  """
+  chex.assert_equal(paths.shape, pose2d.shape + paths.shape[-2:])
+
+  dst_xy = geometry.transform_points(
+      pts=paths.xy,
+      pose_matrix=pose2d.matrix,
+  )
+  valid = jnp.logical_and(paths.valid, pose2d.valid[..., None, None])
+
+  return paths.replace(x=dst_xy[..., 0], y=dst_xy[..., 1], valid=valid)
+
+
 def transform_observation(
     observation: Observation, pose2d: ObjectPose2D
 ) -> Observation:
@@ -416,11 +438,15 @@ def transform_observation(
       observation.roadgraph_static_points, pose
   )
   transf_tls = transform_traffic_lights(observation.traffic_lights, pose)
+  transf_paths = observation.sdc_paths
+  if transf_paths is not None:
+    transf_paths = transform_paths(transf_paths, pose)
 
   obs = observation.replace(
       trajectory=transf_traj,
       roadgraph_static_points=transf_rg,
       traffic_lights=transf_tls,
+      sdc_paths=transf_paths,
       pose2d=pose2d,
   )
   obs.validate()
-- 
2.43.0


From 09fe2ac41be1ed1429c545d503f38d5a7a77eb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:11 +0000
Subject: [PATCH 18/30] fix: filter_topk_roadgraph_points keeps ids exact

---
 waymax/datatypes/roadgraph.py | 31 +++----------------------------
 1 file changed, 3 insertions(+), 28 deletions(-)

diff --git a/waymax/datatypes/roadgraph.py b/waymax/datatypes/roadgraph.py
index 5a24223..1ba37f0 100644
--- a/waymax/datatypes/roadgraph.py
+++ b/waymax/datatypes/roadgraph.py
@@ -200,34 +200,9 @@ def filter_topk_roadgraph_points(
     )
     valid_distances = jnp.where(roadgraph.valid, distances, float('inf'))
     _, top_idx = jax.lax.top_k(-valid_distances, topk)
-
-    stacked = jnp.stack(
-        [
-            roadgraph.x,
-            roadgraph.y,
-            roadgraph.z,
-            roadgraph.dir_x,
-            roadgraph.dir_y,
-            roadgraph.dir_z,
-            roadgraph.types,
-            roadgraph.ids,
-            roadgraph.valid,
-        ],
-        axis=-1,
-        dtype=jnp.float32,
-    )
-    filtered = jnp.take_along_axis(stacked, top_idx[..., None], axis=-2)
-
-    return RoadgraphPoints(
-        x=filtered[..., 0],
-        y=filtered[..., 1],
-        z=filtered[..., 2],
-        dir_x=filtered[..., 3],
-        dir_y=filtered[..., 4],
-        dir_z=filtered[..., 5],
-        types=filtered[..., 6].astype(jnp.int32),
-        ids=filtered[..., 7].astype(jnp.int32),
-        valid=filtered[..., 8].astype(jnp.bool_),
+    # Every field is gathered in its own type, float32 cannot hold every id.
+    return jax.tree_util.tree_map(
+        lambda x: jnp.take_along_axis(x, top_idx, axis=-1), roadgraph
     )
   else:
     return roadgraph
-- 
2.43.0


From 16ed7915146a3ba69307b02ffd587df69190ddcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:43 +0000
Subject: [PATCH 19/30] fix: inferred delta actions respect the heading bound

---
 waymax/dynamics/delta.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/waymax/dynamics/delta.py b/waymax/dynamics/delta.py
index b70a80b..533d657 100644
--- a/waymax/dynamics/delta.py
+++ b/waymax/dynamics/delta.py
@@ -114,7 +114,11 @@ class DeltaGlobal(abstract_dynamics.DynamicsModel):
         self.action_spec().minimum[1],
         self.action_spec().maximum[1],
     )
-    yaw = geometry.wrap_yaws(action[..., 2])
+    yaw = jnp.clip(
+        geometry.wrap_yaws(action[..., 2]),
+        self.action_spec().minimum[2],
+        self.action_spec().maximum[2],
+    )
     return jnp.stack([x, y, yaw], axis=-1)
 
   def inverse(
-- 
2.43.0


From 6fc8a5e5b13e16dbf7b69db149a83b4fb6dcb066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:43 +0000
Subject: [PATCH 20/30] fix: shuffle seed 0 also shuffles the files

---
 waymax/dataloader/dataloader_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waymax/dataloader/dataloader_utils.py b/waymax/dataloader/dataloader_utils.py
index 6ef2c80..cc72b42 100644
--- a/waymax/dataloader/dataloader_utils.py
+++ b/waymax/dataloader/dataloader_utils.py
@@ -115,7 +115,7 @@ def tf_examples_dataset(
   files_to_load = [path]
   if '@' in os.path.basename(path):
     files_to_load = generate_sharded_filenames(path)
-  if shuffle_seed:
+  if shuffle_seed is not None:
     random.seed(shuffle_seed)
     random.shuffle(files_to_load)
   files = tf.data.Dataset.from_tensor_slices(files_to_load)
-- 
2.43.0


From 9ae3b98e4549db0e201e0e82658523d8645f9d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:43 +0000
Subject: [PATCH 21/30] fix: limiting the objects keeps every entry of
 which_time

---
 waymax/dataloader/womd_dataloader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/waymax/dataloader/womd_dataloader.py b/waymax/dataloader/womd_dataloader.py
index e851294..2b2454d 100644
--- a/waymax/dataloader/womd_dataloader.py
+++ b/waymax/dataloader/womd_dataloader.py
@@ -71,8 +71,11 @@ def preprocess_womd_example(
 
   if max_num_objects is not None:
     # TODO(b/246965197) check sdc included if it is needed.
+    # Per-object features only: which_time has no object axis.
     return {
-        k: v[:max_num_objects] if k.startswith('state/') else v
+        k: v[:max_num_objects]
+        if k.startswith('state/') and k != 'state/which_time'
+        else v
         for k, v in processed.items()
     }
   else:
-- 
2.43.0


From f58fed392276446e48f4b5a35d715dad3a84b3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:55 +0000
Subject: [PATCH 22/30] fix: masked_mean broadcasts the mean back along the
 reduced axis

---
 waymax/datatypes/operations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/waymax/datatypes/operations.py b/waymax/datatypes/operations.py
index 2e28591..4f51ba3 100644
--- a/waymax/datatypes/operations.py
+++ b/waymax/datatypes/operations.py
@@ -283,9 +283,9 @@ def masked_mean(
   Returns:
     Array representing the mean of the array of all valid values.
   """
-  num_valid = jnp.sum(valid.astype(jnp.float32), axis=axis)
-  masked_sum = jnp.sum(x, where=valid, axis=axis)
+  num_valid = jnp.sum(valid.astype(jnp.float32), axis=axis, keepdims=True)
+  masked_sum = jnp.sum(x, where=valid, axis=axis, keepdims=True)
   mean = masked_sum / num_valid
   mean = jnp.where(num_valid == 0, invalid_value, mean)
   # Broadcast back to the original shape.
-  return jnp.broadcast_to(mean[..., None], x.shape)
+  return jnp.broadcast_to(mean, x.shape)
-- 
2.43.0


From 00553c860d20b0c3be996d722ceb86d687729d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:07 +0000
Subject: [PATCH 23/30] fix: WOMD validity features encoded as -1 parse as
 invalid

---
 waymax/dataloader/womd_factories.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/waymax/dataloader/womd_factories.py b/waymax/dataloader/womd_factories.py
index 24c05e6..574c775 100644
--- a/waymax/dataloader/womd_factories.py
+++ b/waymax/dataloader/womd_factories.py
@@ -223,7 +223,8 @@ def trajectory_from_womd_dict(
   """
   prefix = f'state/{time_key}'
 
-  valid = jnp.asarray(example[f'{prefix}/valid'], jnp.bool_)
+  # Invalid entries are encoded as 0 or -1.
+  valid = jnp.asarray(example[f'{prefix}/valid'] == 1, jnp.bool_)
   length = jnp.asarray(example[f'{prefix}/length'], jnp.float32)
   length = operations.masked_mean(length, valid=valid, axis=-1)
   width = jnp.asarray(example[f'{prefix}/width'], jnp.float32)
@@ -282,7 +283,8 @@ def traffic_lights_from_womd_dict(
 
   state = jnp.asarray(example[f'{prefix_time_key}/state'], dtype=jnp.int32)
   lane_ids = jnp.asarray(example[f'{prefix_time_key}/id'], dtype=jnp.int32)
-  valid = jnp.asarray(example[f'{prefix_time_key}/valid'], dtype=jnp.bool_)
+  # Invalid entries are encoded as 0 or -1.
+  valid = jnp.asarray(example[f'{prefix_time_key}/valid'] == 1, dtype=jnp.bool_)
 
   origin = traffic_lights.TrafficLights(
       x=x, y=y, z=z, state=state, lane_ids=lane_ids, valid=valid
-- 
2.43.0


From daafe33b3721785f13546545061e00910c6a92d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:06 +0000
Subject: [PATCH 24/30] fix: comparing states with different optional parts
 returns False

---
 waymax/datatypes/operations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/waymax/datatypes/operations.py b/waymax/datatypes/operations.py
index 4f51ba3..72792bb 100644
--- a/waymax/datatypes/operations.py
+++ b/waymax/datatypes/operations.py
@@ -211,6 +211,10 @@ def compare_all_leaf_nodes(  # pytype: disable=annotation-type-mismatch  # jnp-t
   """
   if not isinstance(second, type(first)):
     return False
+  if jax.tree_util.tree_structure(first) != jax.tree_util.tree_structure(
+      second
+  ):
+    return False
   flags = jax.tree_util.tree_map(compare_func, first, second)
   return jax.tree_util.tree_all(flags)
 
-- 
2.43.0


From d6c703401c236115d74c748113340b2bc093cdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:06 +0000
Subject: [PATCH 25/30] fix: state validation covers the SDC paths

---
 waymax/datatypes/simulator_state.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/waymax/datatypes/simulator_state.py b/waymax/datatypes/simulator_state.py
index 568b3ce..1aed930 100644
--- a/waymax/datatypes/simulator_state.py
+++ b/waymax/datatypes/simulator_state.py
@@ -126,6 +126,8 @@ class SimulatorState:
     ]
     if self.roadgraph_points is not None:
       data.append(self.roadgraph_points)
+    if self.sdc_paths is not None:
+      data.append(self.sdc_paths)
     chex.assert_equal_shape_prefix(data, len(self.shape))
 
 
-- 
2.43.0


From 11410c1e74b74502815574bca6126cc95193d72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 26/30] fix: environment interface names its parameters as the
 environments do

---
 waymax/env/abstract_environment.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/waymax/env/abstract_environment.py b/waymax/env/abstract_environment.py
index b98c847..396d92d 100644
--- a/waymax/env/abstract_environment.py
+++ b/waymax/env/abstract_environment.py
@@ -26,7 +26,7 @@ class AbstractEnvironment(abc.ABC):
 
   @abc.abstractmethod
   def reset(
-      self, scenario: types.GenericScenario, rng: jax.Array | None = None
+      self, state: types.GenericScenario, rng: jax.Array | None = None
   ) -> types.GenericState:
     """Initializes a simulation state.
 
@@ -35,7 +35,7 @@ class AbstractEnvironment(abc.ABC):
     no-op.
 
     Args:
-      scenario: Scenario used to generate the initial state.
+      state: Scenario used to generate the initial state.
       rng: Optional random number generator for stochastic environments.
 
     Returns:
@@ -46,14 +46,14 @@ class AbstractEnvironment(abc.ABC):
   def step(
       self,
       state: types.GenericState,
-      actions: types.GenericAction,
+      action: types.GenericAction,
       rng: jax.Array | None = None,
   ) -> types.GenericState:
     """Advances the simulation by one timestep.
 
     Args:
       state: The current state of the simulator.
-      actions: Action to apply to the state to produce the updated simulator
+      action: Action to apply to the state to produce the updated simulator
         state.
       rng: Optional random number generator for stochastic environments.
 
-- 
2.43.0


From 41d71f219134efbcb04f3711b28f8e58c18b7f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 27/30] fix: multi-agent action spec accepts scalar bounds of
 the dynamics model

---
 waymax/env/base_environment.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/waymax/env/base_environment.py b/waymax/env/base_environment.py
index afcc90d..6dc4d6c 100644
--- a/waymax/env/base_environment.py
+++ b/waymax/env/base_environment.py
@@ -21,6 +21,7 @@ import chex
 from dm_env import specs
 import jax
 from jax import numpy as jnp
+import numpy as np
 from waymax import config as _config
 from waymax import datatypes
 from waymax import dynamics as _dynamics
@@ -168,17 +169,12 @@ class BaseEnvironment(abstract_environment.AbstractEnvironment):
     # Dynamics model class defines specs for a single agent.
     # Need to expand it to multiple objects.
     single_agent_spec = self.dynamics.action_spec()  # rank 1
+    data_shape = (self.config.max_num_objects,) + single_agent_spec.shape
     data_spec = specs.BoundedArray(
-        shape=(self.config.max_num_objects,) + single_agent_spec.shape,
+        shape=data_shape,
         dtype=single_agent_spec.dtype,
-        minimum=jnp.tile(
-            single_agent_spec.minimum[jnp.newaxis, :],
-            [self.config.max_num_objects, 1],
-        ),
-        maximum=jnp.tile(
-            single_agent_spec.maximum[jnp.newaxis, :],
-            [self.config.max_num_objects, 1],
-        ),
+        minimum=np.broadcast_to(single_agent_spec.minimum, data_shape),
+        maximum=np.broadcast_to(single_agent_spec.maximum, data_shape),
     )
     valid_spec = specs.Array(
         shape=(self.config.max_num_objects, 1), dtype=jnp.bool_
-- 
2.43.0


From 317b4ff31518df6727fbb7c2fc82cc56d8298a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:49 +0000
Subject: [PATCH 28/30] fix: drawing centred on a chosen object no longer
 indexes its position as a matrix

---
 waymax/visualization/viz.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/waymax/visualization/viz.py b/waymax/visualization/viz.py
index e94e3c7..caf7179 100644
--- a/waymax/visualization/viz.py
+++ b/waymax/visualization/viz.py
@@ -299,7 +299,7 @@ def plot_simulator_state(
   if viz_config.center_agent_idx == -1:
     xy = current_xy[state.object_metadata.is_sdc]
   else:
-    xy = current_xy[viz_config.center_agent_idx]
+    xy = current_xy[viz_config.center_agent_idx][np.newaxis]
   origin_x, origin_y = xy[0, :2]
   ax.axis((
       origin_x - viz_config.back_x,
@@ -374,7 +374,7 @@ def plot_observation(
   if viz_config.center_agent_idx == -1:
     xy = current_xy[obs.metadata.is_sdc]
   else:
-    xy = current_xy[viz_config.center_agent_idx]
+    xy = current_xy[viz_config.center_agent_idx][np.newaxis]
   origin_x, origin_y = xy[0, :2]
   ax.axis((
       origin_x - viz_config.back_x,
@@ -450,7 +450,7 @@ def plot_single_agent_brax_timestep(
   if viz_config.center_agent_idx == -1:
     xy = current_xy[state.object_metadata.is_sdc]
   else:
-    xy = current_xy[viz_config.center_agent_idx]
+    xy = current_xy[viz_config.center_agent_idx][np.newaxis]
   origin_x, origin_y = xy[0, :2]
   ax.axis((
       origin_x - viz_config.back_x,
-- 
2.43.0


From fbb23688aa867b3d842fca6d92375d65f823d9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:49 +0000
Subject: [PATCH 29/30] fix: scenes without a map or routes, which a state may
 lack, can be drawn

---
 waymax/visualization/viz.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/waymax/visualization/viz.py b/waymax/visualization/viz.py
index caf7179..2ffa8a7 100644
--- a/waymax/visualization/viz.py
+++ b/waymax/visualization/viz.py
@@ -288,7 +288,8 @@ def plot_simulator_state(
   )  # pytype: disable=wrong-arg-types  # jax-ndarray
 
   # 2. Plots road graph elements.
-  plot_roadgraph_points(ax, state.roadgraph_points, verbose=False)
+  if state.roadgraph_points is not None:
+    plot_roadgraph_points(ax, state.roadgraph_points, verbose=False)
   plot_traffic_light_signals_as_points(
       ax, state.log_traffic_light, state.timestep, verbose=False
   )
@@ -436,13 +437,15 @@ def plot_single_agent_brax_timestep(
   )
 
   # 2. Plots road graph elements.
-  plot_roadgraph_points(ax, state.roadgraph_points, verbose=False)
+  if state.roadgraph_points is not None:
+    plot_roadgraph_points(ax, state.roadgraph_points, verbose=False)
   plot_traffic_light_signals_as_points(
       ax, state.log_traffic_light, state.timestep, verbose=False
   )
 
   # Plots paths.
-  _plot_path_points(ax, state.sdc_paths)
+  if state.sdc_paths is not None:
+    _plot_path_points(ax, state.sdc_paths)
 
   # 3. Gets np img, centered on selected agent's current location.
   # [A, 2]
-- 
2.43.0


From 090c806b011082c58531f63a241ac6986d675df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:49 +0000
Subject: [PATCH 30/30] fix: trajectories can be drawn without a highlighted
 step, the documented default

---
 waymax/visualization/viz.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/waymax/visualization/viz.py b/waymax/visualization/viz.py
index 2ffa8a7..6598792 100644
--- a/waymax/visualization/viz.py
+++ b/waymax/visualization/viz.py
@@ -36,7 +36,7 @@ _RoadGraphDefaultColor = (0.9, 0.9, 0.9)
 def _plot_bounding_boxes(
     ax: matplotlib.axes.Axes,
     traj_5dof: np.ndarray,
-    time_idx: int,
+    time_idx: Optional[int],
     is_controlled: np.ndarray,
     valid: np.ndarray,
     add_label: bool = False,
@@ -45,6 +45,17 @@ def _plot_bounding_boxes(
   # Plots bounding boxes (traj_5dof) with shape: (A, T)
   # is_controlled: (A,)
   # valid: (A, T)
+  if time_idx is None:
+    # No step to highlight: only the positions are shown.
+    utils.plot_numpy_bounding_boxes(
+        ax=ax,
+        bboxes=traj_5dof[valid],
+        color=color.COLOR_DICT['history'],
+        as_center_pts=True,
+        label='history' if add_label else None,
+    )
+    return
+
   valid_controlled = is_controlled[:, np.newaxis] & valid
   valid_context = ~is_controlled[:, np.newaxis] & valid
 
-- 
2.43.0

