From eafad71437d0797fbfb68c5d53e1ac3c6d7be70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 01/61] fix: pedestrian set_velocity stores the rotational
 velocity instead of overwriting vx

---
 src/dg_commons/sim/models/pedestrian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/models/pedestrian.py b/src/dg_commons/sim/models/pedestrian.py
index a002d17..3514238 100644
--- a/src/dg_commons/sim/models/pedestrian.py
+++ b/src/dg_commons/sim/models/pedestrian.py
@@ -249,7 +249,7 @@ class PedestrianModel(SimModel[SE2value, float]):
             vel = rot @ vel
         self._state.vx = vel[0]
         self._state.vy = vel[1]
-        self._state.vx = omega
+        self._state.dpsi = omega
 
     @property
     def model_geometry(self) -> PedestrianGeometry:
-- 
2.43.0


From e8767bb020092fb88b00ef4afcc2cefbce02e635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 02/61] fix: dynamic vehicle set_velocity stores the rotational
 velocity in dpsi

---
 src/dg_commons/sim/models/vehicle_dynamic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/models/vehicle_dynamic.py b/src/dg_commons/sim/models/vehicle_dynamic.py
index a068cad..917e885 100644
--- a/src/dg_commons/sim/models/vehicle_dynamic.py
+++ b/src/dg_commons/sim/models/vehicle_dynamic.py
@@ -215,7 +215,7 @@ class VehicleModelDyn(VehicleModel):
 
         self._state.vx = vel[0]
         self._state.vy = vel[1]
-        self._state.dtheta = omega
+        self._state.dpsi = omega
 
     def get_acceleration_split(self, Facc: float) -> Sequence[float]:
         """Returns split of acceleration force to be applied on front and rear wheel"""
-- 
2.43.0


From 0c6fc1756ab6c8d0f4508b0fc98b3f3a4ae239d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 03/61] fix: SpacecraftCommands.from_array uses the existing
 index key

---
 src/dg_commons/sim/models/spacecraft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/models/spacecraft.py b/src/dg_commons/sim/models/spacecraft.py
index a13d9ce..b98a5e0 100644
--- a/src/dg_commons/sim/models/spacecraft.py
+++ b/src/dg_commons/sim/models/spacecraft.py
@@ -55,7 +55,7 @@ class SpacecraftCommands:
     @classmethod
     def from_array(cls, z: np.ndarray):
         assert cls.get_n_commands() == z.size == z.shape[0], f"z vector {z} cannot initialize VehicleInputs."
-        return SpacecraftCommands(acc_left=z[cls.idx["acc_left "]], acc_right=z[cls.idx["acc_right"]])
+        return SpacecraftCommands(acc_left=z[cls.idx["acc_left"]], acc_right=z[cls.idx["acc_right"]])
 
 
 @dataclass(unsafe_hash=True, eq=True, order=True)
-- 
2.43.0


From e16910de8fea3fb926c938ea965ca973df7212b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 04/61] fix: scaling a VehicleStateDyn from the left also
 scales vy and dpsi

---
 src/dg_commons/sim/models/vehicle_dynamic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dg_commons/sim/models/vehicle_dynamic.py b/src/dg_commons/sim/models/vehicle_dynamic.py
index 917e885..2db8e2b 100644
--- a/src/dg_commons/sim/models/vehicle_dynamic.py
+++ b/src/dg_commons/sim/models/vehicle_dynamic.py
@@ -39,6 +39,8 @@ class VehicleStateDyn(VehicleState):
         else:
             raise NotImplementedError
 
+    __radd__ = __add__
+
     def __mul__(self, val: float) -> "VehicleStateDyn":
         return replace(
             self,
@@ -51,6 +53,8 @@ class VehicleStateDyn(VehicleState):
             delta=self.delta * val,
         )
 
+    __rmul__ = __mul__
+
     def as_ndarray(self) -> np.ndarray:
         return np.array([self.x, self.y, self.psi, self.vx, self.vy, self.dpsi, self.delta])
 
-- 
2.43.0


From 404490c68ae96011a8070acff78e26fc4bb41d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:38 +0000
Subject: [PATCH 05/61] fix: rocket velocity accessors treat the state's
 velocities as global, as its dynamics does

---
 src/dg_commons/sim/models/rocket.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/dg_commons/sim/models/rocket.py b/src/dg_commons/sim/models/rocket.py
index a4fce0e..fb08ce6 100644
--- a/src/dg_commons/sim/models/rocket.py
+++ b/src/dg_commons/sim/models/rocket.py
@@ -272,20 +272,20 @@ class RocketModel(SimModel[RocketState, RocketCommands]):
         return self.rg
 
     def get_velocity(self, in_model_frame: bool) -> (T2value, float):
-        """Returns velocity at COG"""
+        """Returns velocity at COG (note that the state carries velocities expressed in the global frame)"""
         vx = self._state.vx
         vy = self._state.vy
         dpsi = self._state.dpsi
-        v_l = np.array([vx, vy])
-        if in_model_frame:
-            return v_l, dpsi
-        rot: SO2value = SO2_from_angle(self._state.psi)
-        v_g = rot @ v_l
-        return v_g, dpsi
+        v_g = np.array([vx, vy])
+        if not in_model_frame:
+            return v_g, dpsi
+        rot: SO2value = SO2_from_angle(-self._state.psi)
+        v_l = rot @ v_g
+        return v_l, dpsi
 
     def set_velocity(self, vel: T2value, dpsi: float, in_model_frame: bool):
-        if not in_model_frame:
-            rot: SO2value = SO2_from_angle(-self._state.psi)
+        if in_model_frame:
+            rot: SO2value = SO2_from_angle(self._state.psi)
             vel = rot @ vel
         self._state.vx = vel[0]
         self._state.vy = vel[1]
-- 
2.43.0


From 3fe24837e5a688e32632ccc6b07df44a234bbac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:59 +0000
Subject: [PATCH 06/61] fix: PoseGoal.get_plottable_geometry returns the
 polygon instead of raising it

---
 src/dg_commons/sim/goals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/goals.py b/src/dg_commons/sim/goals.py
index 4cf7b3a..58610f1 100644
--- a/src/dg_commons/sim/goals.py
+++ b/src/dg_commons/sim/goals.py
@@ -108,7 +108,7 @@ class PoseGoal(PlanningGoal):
         return np.linalg.norm(pose - goal_pose) <= self.tol
 
     def get_plottable_geometry(self, at: SimTime | float = 0) -> BaseGeometry:
-        raise self.goal_pose_poly
+        return self.goal_pose_poly
 
     @cached_property
     def goal_pose_poly(self) -> Polygon:
-- 
2.43.0


From 1e9c4c8b5d4ab3a332bc7c5db0a1f5d4f7cd5fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:59 +0000
Subject: [PATCH 07/61] fix: command sampler parameters derive from
 acceleration and steering rate limits

---
 src/dg_commons/planning/commands_sampler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dg_commons/planning/commands_sampler.py b/src/dg_commons/planning/commands_sampler.py
index 7f57ff8..fd5ba4c 100644
--- a/src/dg_commons/planning/commands_sampler.py
+++ b/src/dg_commons/planning/commands_sampler.py
@@ -38,9 +38,9 @@ class CommandsSamplerParam:
         :param vp:
         :return:
         """
-        vel_linspace = (vp.vx_limits[0], vp.vx_limits[1], n_acc)
-        steer_linspace = (-vp.delta_max, vp.delta_max, n_steer_rate)
-        return CommandsSamplerParam(dt=dt, n_steps=n_steps, acc=vel_linspace, steer_rate=steer_linspace)
+        acc_linspace = (vp.acc_limits[0], vp.acc_limits[1], n_acc)
+        steer_linspace = (-vp.ddelta_max, vp.ddelta_max, n_steer_rate)
+        return CommandsSamplerParam(dt=dt, n_steps=n_steps, acc=acc_linspace, steer_rate=steer_linspace)
 
 
 class CommandsSampler(TrajGenerator):
-- 
2.43.0


From 2fccc855021c9f69c01fba4db672528ff49601b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:59 +0000
Subject: [PATCH 08/61] fix: delayed observations are never fresher than the
 latency

---
 src/dg_commons/sim/sim_perception.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/sim/sim_perception.py b/src/dg_commons/sim/sim_perception.py
index ddb5528..78dc5b0 100644
--- a/src/dg_commons/sim/sim_perception.py
+++ b/src/dg_commons/sim/sim_perception.py
@@ -1,5 +1,5 @@
 from abc import ABC, abstractmethod
-from bisect import bisect_left
+from bisect import bisect_right
 from dataclasses import replace
 
 import numpy as np
@@ -112,7 +112,8 @@ class DelayedObsFilter(ObsFilter):
         shifted_t = obs.time + self.latency
         self.obs_history.append((shifted_t, replace(obs, time=shifted_t)))
         history_ts = self._get_obs_history_timestamps()
-        idx = bisect_left(history_ts, obs.time)
+        # most recent observation that is at least as old as the latency (the first one if none is old enough yet)
+        idx = max(bisect_right(history_ts, obs.time) - 1, 0)
         return self.obs_history[idx][1]
 
     def _get_obs_history_timestamps(self) -> list[SimTime]:
-- 
2.43.0


From ae747e25ad20366a5fcd3efa5f2ac444871cb00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 09/61] fix: commands_plan_from_trajectory iterates over the
 trajectory's intervals

---
 src/dg_commons/planning/trajectory.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dg_commons/planning/trajectory.py b/src/dg_commons/planning/trajectory.py
index d73d65a..70c0121 100644
--- a/src/dg_commons/planning/trajectory.py
+++ b/src/dg_commons/planning/trajectory.py
@@ -152,9 +152,11 @@ JointTrajectories = Mapping[PlayerName, Trajectory]
 def commands_plan_from_trajectory(trajectory: Trajectory) -> DgSampledSequence[VehicleCommands]:
     timestamps = []
     commands = []
-    for t0, _, dt, v0, v1 in iterate_with_dt(trajectory):
-        timestamps.append(t0)
-        commands.append(VehicleCommands(acc=(v1.vx - v0.vx) / dt, ddelta=(v1.delta - v0.delta) / dt))
+    for it in iterate_with_dt(trajectory):
+        timestamps.append(it.t0)
+        commands.append(
+            VehicleCommands(acc=(it.v1.vx - it.v0.vx) / it.dt, ddelta=(it.v1.delta - it.v0.delta) / it.dt)
+        )
     return DgSampledSequence[VehicleCommands](timestamps, commands)
 
 
-- 
2.43.0


From a511a8bc1467a67d099de5cfe40abb603d6d6627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 10/61] fix: TrajectoryGraph.add_edge keeps nodes that are
 already in the graph

---
 src/dg_commons/planning/trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/planning/trajectory.py b/src/dg_commons/planning/trajectory.py
index 70c0121..795e336 100644
--- a/src/dg_commons/planning/trajectory.py
+++ b/src/dg_commons/planning/trajectory.py
@@ -178,7 +178,7 @@ class TrajectoryGraph(DiGraph):
         start_time, end_time = states.get_start(), states.get_end()
         self.check_node(node=(start_time, source))
         attr["transition"] = transition
-        if target not in self.nodes:
+        if (end_time, target) not in self.nodes:
             self.add_node(timed_state=(end_time, target), gen=self.nodes.get((start_time, source))["gen"] + 1)
 
         super(TrajectoryGraph, self).add_edge(u_of_edge=(start_time, source), v_of_edge=(end_time, target), **attr)
-- 
2.43.0


From ec87d20e93d42e5097a6d27ff25ee6b110d2b0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:44 +0000
Subject: [PATCH 11/61] fix: sampled sequences refuse NaN among their
 timestamps

---
 src/dg_commons/seq/sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/seq/sequence.py b/src/dg_commons/seq/sequence.py
index acff96a..eed28b7 100644
--- a/src/dg_commons/seq/sequence.py
+++ b/src/dg_commons/seq/sequence.py
@@ -53,7 +53,7 @@ class DgSampledSequence(Generic[X]):
                     raise ZValueError(f'I expected a real number as "Timestamp", got {type(t)}')
             for i in range(len(timestamps) - 1):
                 dt = timestamps[i + 1] - timestamps[i]
-                if dt <= 0:
+                if not dt > 0:
                     raise ZValueError(f"Invalid dt = {dt} at i = {i}; ts= {timestamps}")
             ts_types = set([type(ts) for ts in timestamps])
             if D in ts_types and any([int in ts_types, float in ts_types]):
-- 
2.43.0


From 81aad7aee65e55c878c2652c90f36f783d1edee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:45 +0000
Subject: [PATCH 12/61] fix: find_crossings supports Decimal timestamps

---
 src/dg_commons/seq/seq_op.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/seq/seq_op.py b/src/dg_commons/seq/seq_op.py
index 9a5f32e..8515912 100644
--- a/src/dg_commons/seq/seq_op.py
+++ b/src/dg_commons/seq/seq_op.py
@@ -1,3 +1,4 @@
+from decimal import Decimal
 from operator import add
 
 import numpy as np
@@ -61,6 +62,7 @@ def find_crossings(sequence: DgSampledSequence[float], threshold: float) -> list
         v0, v1 = values[i], values[i_plus_1]
         dt = t1 - t0
         # linear interpolation
-        t = t0 + (v0 / (v0 - v1)) * dt
+        ratio = float(v0 / (v0 - v1))
+        t = t0 + (Decimal(ratio) if isinstance(dt, Decimal) else ratio) * dt
         crossings.append(t)
     return crossings
-- 
2.43.0


From bae92ba4d4974a22963fac76a0ea7cfed40a327e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:45 +0000
Subject: [PATCH 13/61] fix: get_acc_rms inverts the spectrum with the original
 number of samples

---
 src/dg_commons/eval/comfort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/eval/comfort.py b/src/dg_commons/eval/comfort.py
index 65b91bb..97bb6f4 100644
--- a/src/dg_commons/eval/comfort.py
+++ b/src/dg_commons/eval/comfort.py
@@ -41,7 +41,7 @@ def get_acc_rms(commands: DgSampledSequence[U], t_range: tuple[Timestamp | None,
     freqs = np.fft.rfftfreq(n=len(acc_time), d=st)
     acc_freq_weighted = [acc_freq * acc_freq_filter(freq) for acc_freq, freq in zip(acc_freqs, freqs)]
     acc_freq_weighted = np.array(acc_freq_weighted)
-    acc_time_weighted = np.fft.irfft(acc_freq_weighted)
+    acc_time_weighted = np.fft.irfft(acc_freq_weighted, n=len(acc_time))
     acc_rms = 0
     for acc in acc_time_weighted:
         acc_rms += np.square(acc)
-- 
2.43.0


From 02846896266d22c2cc265f50248516935181201c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:45 +0000
Subject: [PATCH 14/61] fix: combining collision reports supports players
 without details

---
 src/dg_commons/sim/collision_structures.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dg_commons/sim/collision_structures.py b/src/dg_commons/sim/collision_structures.py
index c801620..d799b62 100644
--- a/src/dg_commons/sim/collision_structures.py
+++ b/src/dg_commons/sim/collision_structures.py
@@ -75,6 +75,10 @@ def combine_collision_reports(r1: CollisionReport, r2: CollisionReport) -> Colli
     combined_players_report: dict[PlayerName, CollisionReportPlayer] = {}
     for p in first_report.players:
         r1_player, r2_player = first_report.players[p], second_report.players[p]
+        if r1_player is None or r2_player is None:
+            # at least one of the reports carries no details about the player (e.g. unresolved contact geometry)
+            combined_players_report[p] = r2_player if r1_player is None else r1_player
+            continue
         combined_players_report[p] = replace(
             r1_player,
             locations=r1_player.locations + r2_player.locations,
-- 
2.43.0


From 7db2c90d00aa2c629171dc3a759b07d9fe5a3261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:45 +0000
Subject: [PATCH 15/61] fix: road boundaries support outlines that are not
 split by gates

---
 src/dg_commons/maps/road_bounds.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/maps/road_bounds.py b/src/dg_commons/maps/road_bounds.py
index b302b13..2fe49fb 100644
--- a/src/dg_commons/maps/road_bounds.py
+++ b/src/dg_commons/maps/road_bounds.py
@@ -44,5 +44,7 @@ def build_road_boundary_obstacle(scenario: Scenario, buffer: float = 0.1) -> tup
         ext_bounds = geo.exterior
         for eeg in entrance_exit_gates:
             ext_bounds = ext_bounds.difference(eeg)
-        scenario_bounds += [g for g in ext_bounds.geoms]
+        if not ext_bounds.is_empty:
+            # a single piece is left if the gates do not split the boundary
+            scenario_bounds += [g for g in getattr(ext_bounds, "geoms", [ext_bounds])]
     return scenario_bounds, entrance_exit_gates
-- 
2.43.0


From a9c33bd3ec74502a815dbe1db240630d35b120c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:45 +0000
Subject: [PATCH 16/61] fix: static obstacles of a CommonRoad scenario are
 placed at their initial state

---
 src/dg_commons/sim/scenarios/factory.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/dg_commons/sim/scenarios/factory.py b/src/dg_commons/sim/scenarios/factory.py
index a9e2ee3..1e6659b 100644
--- a/src/dg_commons/sim/scenarios/factory.py
+++ b/src/dg_commons/sim/scenarios/factory.py
@@ -67,12 +67,11 @@ def get_scenario_commonroad_replica(
                 logger.warn("Unable to convert CommonRoad dynamic obstacle due to " + e.args[0] + " skipping...")
     logger.info(f"Managed to load {len(players)}")
     for sobs in scenario.static_obstacles:
-        static_obstacles.append(
-            StaticObstacle(
-                obstacle_type=sobs.obstacle_type,
-                shape=sobs.obstacle_shape.shapely_object,
-            )
+        shape = apply_SE2_to_shapely_geo(
+            shapely_geometry=sobs.obstacle_shape.shapely_object,
+            se2_value=SE2_from_xytheta([*sobs.initial_state.position, sobs.initial_state.orientation]),
         )
+        static_obstacles.append(StaticObstacle(obstacle_type=sobs.obstacle_type, shape=shape))
     sim_param = SimParameters() if sim_param is None else sim_param
     return SimContext(
         dg_scenario=DgScenario(scenario, static_obstacles=static_obstacles),
-- 
2.43.0


From cb07828c2e6f92e77766e9d8d392591930bb4af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 17/61] fix: a Simulator's state is neither shared among
 instances nor carried over between runs

---
 src/dg_commons/sim/simulator.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/dg_commons/sim/simulator.py b/src/dg_commons/sim/simulator.py
index d13061e..f99808c 100644
--- a/src/dg_commons/sim/simulator.py
+++ b/src/dg_commons/sim/simulator.py
@@ -73,16 +73,21 @@ class Simulator:
         - A post-update function that checks the new states of all the models and resolves collisions
     """
 
-    # fixme check if this is okay once you have multiple simulators running together
-    last_observations: SimObservations = SimObservations(players=fd({}), time=Decimal(0))
-    last_get_commands_ts: SimTime = SimTime("-Infinity")
-    last_commands: dict[PlayerName, U] = {}
-    simlogger: dict[PlayerName, PlayerLogger] = {}
+    def __init__(self):
+        self._reset()
+
+    def _reset(self):
+        """The state of the simulator belongs to a single run of a single instance"""
+        self.last_observations: SimObservations = SimObservations(players=fd({}), time=Decimal(0))
+        self.last_get_commands_ts: SimTime = SimTime("-Infinity")
+        self.last_commands: dict[PlayerName, U] = {}
+        self.simlogger: dict[PlayerName, PlayerLogger] = {}
 
     @time_function
     def run(self, sim_context: SimContext):
         logger.info("~~~~~> Beginning simulation")
         # initialize the simulation
+        self._reset()
         for player_name, player in sim_context.players.items():
             scenario = deepcopy(sim_context.dg_scenario)
             init_obs = InitSimObservations(
-- 
2.43.0


From 71f643ce17fe6bf3d97a5804ae08645fda50cd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 18/61] fix: held and logged commands are not affected by
 agents modifying what they returned

---
 src/dg_commons/sim/simulator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dg_commons/sim/simulator.py b/src/dg_commons/sim/simulator.py
index f99808c..557e867 100644
--- a/src/dg_commons/sim/simulator.py
+++ b/src/dg_commons/sim/simulator.py
@@ -144,6 +144,8 @@ class Simulator:
                 tic = perf_counter()
                 cmds = agent.get_commands(p_observations)
                 toc = perf_counter()
+                # the agent keeps a reference to what it returned, it must not be able to alter it afterwards
+                cmds = deepcopy(cmds)
                 self.last_commands[player_name] = cmds
                 self.simlogger[player_name].commands.add(t=t, v=cmds)
                 self.simlogger[player_name].info.add(t=t, v=toc - tic)
-- 
2.43.0


From 1225f5c426ea2ab7eac5da0453ac19faee262a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 19/61] fix: agents cannot alter the observations of other
 agents

---
 src/dg_commons/sim/simulator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dg_commons/sim/simulator.py b/src/dg_commons/sim/simulator.py
index 557e867..7820063 100644
--- a/src/dg_commons/sim/simulator.py
+++ b/src/dg_commons/sim/simulator.py
@@ -141,6 +141,11 @@ class Simulator:
                 p_observations = sim_context.sensors[player_name].sense(
                     sim_context.dg_scenario, self.last_observations, player_name
                 )
+                # the snapshot is shared among the players (and possibly kept by the sensors), hand out a private copy
+                p_observations = replace(
+                    p_observations,
+                    players=fd({p: replace(o, state=deepcopy(o.state)) for p, o in p_observations.players.items()}),
+                )
                 tic = perf_counter()
                 cmds = agent.get_commands(p_observations)
                 toc = perf_counter()
-- 
2.43.0


From 9b08307e7eb91b145cc3c12365be2a7dfd8bcd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 20/61] fix: LFAgent uses the pure pursuit controller it is
 given

---
 src/dg_commons/sim/agents/lane_follower.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/agents/lane_follower.py b/src/dg_commons/sim/agents/lane_follower.py
index fd0a8cd..af489a9 100644
--- a/src/dg_commons/sim/agents/lane_follower.py
+++ b/src/dg_commons/sim/agents/lane_follower.py
@@ -35,7 +35,9 @@ class LFAgent(Agent):
         self.speed_controller: SpeedController = SpeedController.from_vehicle_params(model_param=model_params)
         self.speed_behavior: SpeedBehavior = SpeedBehavior() if speed_behavior is None else speed_behavior
         self.steer_controller: SteerController = SteerController.from_vehicle_params(vehicle_param=model_params)
-        self.pure_pursuit: PurePursuit = PurePursuit.from_model_geometry(model_geo)
+        self.pure_pursuit: PurePursuit = (
+            PurePursuit.from_model_geometry(model_geo) if pure_pursuit is None else pure_pursuit
+        )
         self.my_name: Optional[PlayerName] = None
         self.return_extra: bool = return_extra
         self._emergency: bool = False
-- 
2.43.0


From 66f856fc386029b8ee82f889ac07a587f19c095d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 21/61] fix: LFAgent lights do not depend on the hash seed of
 the interpreter

---
 src/dg_commons/sim/agents/lane_follower.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/agents/lane_follower.py b/src/dg_commons/sim/agents/lane_follower.py
index af489a9..1556d6a 100644
--- a/src/dg_commons/sim/agents/lane_follower.py
+++ b/src/dg_commons/sim/agents/lane_follower.py
@@ -42,7 +42,7 @@ class LFAgent(Agent):
         self.return_extra: bool = return_extra
         self._emergency: bool = False
         self._my_obs: Optional[X] = None
-        self.lights_test_seq = DgSampledSequence[LightsCmd](timestamps=[0, 2, 4, 6, 8], values=list(LightsValues))
+        self.lights_test_seq = DgSampledSequence[LightsCmd](timestamps=[0, 2, 4, 6, 8], values=sorted(LightsValues))
 
     def on_episode_init(self, init_sim_obs: InitSimObservations):
         self.my_name = init_sim_obs.my_name
-- 
2.43.0


From 6b09593213d1791206419b6219b092ecd0a2df93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 22/61] fix: LFAgent does not carry emergencies and controller
 states over to a new episode

---
 src/dg_commons/controllers/pid.py          | 4 ++++
 src/dg_commons/sim/agents/lane_follower.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/dg_commons/controllers/pid.py b/src/dg_commons/controllers/pid.py
index 078003a..48cd5ec 100644
--- a/src/dg_commons/controllers/pid.py
+++ b/src/dg_commons/controllers/pid.py
@@ -26,6 +26,10 @@ class PID:
 
     def __init__(self, params: PIDParam):
         self.params = params
+        self.reset()
+
+    def reset(self):
+        """Forgets measurements, references and past errors"""
         self.measurement: float = 0
         self.reference: float = 0
         self.last_request_at: Optional[float] = None
diff --git a/src/dg_commons/sim/agents/lane_follower.py b/src/dg_commons/sim/agents/lane_follower.py
index 1556d6a..bab0b7e 100644
--- a/src/dg_commons/sim/agents/lane_follower.py
+++ b/src/dg_commons/sim/agents/lane_follower.py
@@ -48,6 +48,10 @@ class LFAgent(Agent):
         self.my_name = init_sim_obs.my_name
         self.speed_behavior.my_name = init_sim_obs.my_name
         self.pure_pursuit.update_path(self.ref_lane)
+        # a new episode starts afresh
+        self._emergency = False
+        self.speed_controller.reset()
+        self.steer_controller.reset()
 
     def get_commands(self, sim_obs: SimObservations) -> VehicleCommands:
         self._my_obs = sim_obs.players[self.my_name].state
-- 
2.43.0


From bad58f58e8de0da5546f44c513bc2517bcb7acaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:05 +0000
Subject: [PATCH 23/61] fix: degenerate contact geometries raise
 CollisionException instead of crashing the simulation

---
 src/dg_commons/sim/collision_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/collision_utils.py b/src/dg_commons/sim/collision_utils.py
index 7149053..be85403 100644
--- a/src/dg_commons/sim/collision_utils.py
+++ b/src/dg_commons/sim/collision_utils.py
@@ -45,7 +45,10 @@ def _find_intersection_points(a_shape: Polygon, b_shape: BaseGeometry) -> list[t
             f"Try a smaller physics step for improved accuracy."
         )
         # this could still lead to some ill-posed cases
-        points = list(int_shape.exterior.coords[:-1])
+        if isinstance(int_shape, Polygon):
+            points = list(int_shape.exterior.coords[:-1])
+        else:  # the contact points are aligned
+            points = list(int_shape.coords)
     else:
         raise CollisionException(f"Unable to handle intersection shape: {int_shape}")
 
@@ -98,6 +101,8 @@ def compute_impact_geometry(a: Polygon, b: BaseGeometry) -> (np.ndarray, Point):
     if a.contains(b):
         impact_point = b.centroid
         r_ap = np.array(impact_point.coords[0]) - np.array(a.centroid.coords[0])
+        if not np.linalg.norm(r_ap) > 0:
+            raise CollisionException("The normal of impact is undefined for coincident centers")
         normal = r_ap / np.linalg.norm(r_ap)
     else:
         intersecting_points = _find_intersection_points(a, b)
-- 
2.43.0


From 21cc5408384f8e62426fe0440a77ae8f937b2085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:05 +0000
Subject: [PATCH 24/61] fix: bodies that merely touch do not crash the
 simulation

---
 src/dg_commons/sim/collision.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dg_commons/sim/collision.py b/src/dg_commons/sim/collision.py
index 16d7690..903ca36 100644
--- a/src/dg_commons/sim/collision.py
+++ b/src/dg_commons/sim/collision.py
@@ -49,6 +49,9 @@ def resolve_collision(a: PlayerName, b: PlayerName, sim_context: SimContext) ->
     b_model: SimModel = sim_context.models[b]
     a_shape = a_model.get_footprint()
     b_shape = b_model.get_footprint()
+    if a_shape.touches(b_shape):
+        logger.debug(f"Not solving the collision between {a}, {b} since they are only touching")
+        return None
     # Compute collision geometry
     impact_normal, impact_point = compute_impact_geometry(a_shape, b_shape)
     a_cog = translation_angle_from_SE2(a_model.get_pose())[0]
@@ -143,6 +146,9 @@ def resolve_collision_with_environment(
     """
     a_shape = a_model.get_footprint()
     b_shape = b_obstacle.shape
+    if a_shape.touches(b_shape):
+        logger.debug(f"Not solving the collision of {a} with the environment since they are only touching")
+        return None
     # Compute collision geometry
     impact_normal, impact_point = compute_impact_geometry(a_shape, b_shape)
     a_cog = translation_angle_from_SE2(a_model.get_pose())[0]
-- 
2.43.0


From f7e8cbd9b4c81fdc1cdc82068bfe95934ac0ca21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:05 +0000
Subject: [PATCH 25/61] fix: collisions with segments and multi-part obstacles
 do not crash the simulation

---
 src/dg_commons/sim/collision.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/sim/collision.py b/src/dg_commons/sim/collision.py
index 903ca36..9405114 100644
--- a/src/dg_commons/sim/collision.py
+++ b/src/dg_commons/sim/collision.py
@@ -2,7 +2,7 @@ from typing import Optional
 
 import numpy as np
 from geometry import translation_angle_from_SE2
-from shapely.geometry import Polygon
+from shapely.geometry import LineString, Polygon
 from shapely.geometry.base import BaseGeometry
 
 from dg_commons import PlayerName
@@ -195,7 +195,10 @@ def resolve_collision_with_environment(
     )
     # create a report for the "environment" as a fictitious player
     if not isinstance(b_shape, Polygon):
-        b_shape = Polygon(b_shape)
+        if isinstance(b_shape, LineString) and len(b_shape.coords) > 2:
+            b_shape = Polygon(b_shape)
+        else:  # segments and multi-part shapes do not enclose an area on their own
+            b_shape = b_shape.buffer(1e-3).convex_hull
     b_locations = [
         (IMPACT_EVERYWHERE, b_shape),
     ]
-- 
2.43.0


From 7997c0da2f6ccb346c23efd2d62f2a2b6b59e258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 26/61] fix: lane caches are thread safe

---
 src/dg_commons/maps/lanes.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dg_commons/maps/lanes.py b/src/dg_commons/maps/lanes.py
index 488e488..023d3fc 100644
--- a/src/dg_commons/maps/lanes.py
+++ b/src/dg_commons/maps/lanes.py
@@ -1,5 +1,6 @@
 from dataclasses import dataclass
 from math import atan2, isclose, pi
+from threading import RLock
 from typing import Sequence, Optional
 
 import numpy as np
@@ -105,13 +106,13 @@ class DgLanelet:
             ctr_points.append(LaneCtrPoint(q, r=np.linalg.norm(normal) / 2))
         return DgLanelet(ctr_points)
 
-    @cached(LRUCache(maxsize=128))
+    @cached(LRUCache(maxsize=128), lock=RLock())
     @staticmethod
     def get_lanelets(lane_network: LaneletNetwork, points: list[np.ndarray]) -> list[Lanelet]:
         lane_ids = lane_network.find_lanelet_by_position(point_list=points)
         return [lane_network.find_lanelet_by_id(lid[0]) for lid in lane_ids]
 
-    @cached(LRUCache(maxsize=128))
+    @cached(LRUCache(maxsize=128), lock=RLock())
     def get_lane_lengths(self) -> list[float]:
         res = []
         for i in range(len(self.control_points) - 1):
@@ -318,7 +319,7 @@ class DgLanelet:
             beta, _ = self.find_along_lane_closest_point(position, tol=tol, bracket=bracket)
         return self.along_lane_from_beta(beta)
 
-    @cached(LRUCache(maxsize=128))
+    @cached(LRUCache(maxsize=128), lock=RLock())
     def lane_profile(self, points_per_segment: int = 5) -> list[T2value]:
         """Lane bounds - left and right along the lane"""
         points_left = []
-- 
2.43.0


From ab82f7b596e7962d3b38418767b0ac542626f2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 27/61] fix: RefLaneGoal places its polygon at the progress in
 meters rather than in control points

---
 src/dg_commons/sim/goals.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/goals.py b/src/dg_commons/sim/goals.py
index 58610f1..bcc3092 100644
--- a/src/dg_commons/sim/goals.py
+++ b/src/dg_commons/sim/goals.py
@@ -58,7 +58,9 @@ class RefLaneGoal(PlanningGoal):
 
     @cached_property
     def goal_polygon(self) -> Polygon:
-        poly = _polygon_at_along_lane(self.ref_lane, self.goal_progress)
+        # the progress is in meters along the lane
+        beta = self.ref_lane.beta_from_along_lane(self.goal_progress)
+        poly = _polygon_at_along_lane(self.ref_lane, beta)
         return poly
 
 
-- 
2.43.0


From e49810f8eecbd96c9dab7aa91aaf7af02685f733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 28/61] fix: desired_lane_reached terminates also on road
 networks with loops and kinks

---
 src/dg_commons/eval/efficiency.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/eval/efficiency.py b/src/dg_commons/eval/efficiency.py
index 5873502..8301047 100644
--- a/src/dg_commons/eval/efficiency.py
+++ b/src/dg_commons/eval/efficiency.py
@@ -54,7 +54,10 @@ def desired_lane_reached(
     ego_pose = SE2Transform.from_PoseState(ego_posestate)
     ref_lane = goal_lane.ref_lane  # dglanelet
     lane_pose = ref_lane.lane_pose_from_SE2Transform(ego_pose)
-    while not lane_pose.along_inside:
+    # roads can be closed or have kinks at the joints, stop after having visited as many lanes as there are
+    hops_left = len(lanelet_network.lanelets)
+    while not lane_pose.along_inside and hops_left > 0:
+        hops_left -= 1
         if np.abs(lane_pose.along_lane) < 1.0 or np.abs(lane_pose.along_lane - ref_lane.get_lane_length()) < 1.0:
             # not inside the lane but close enough
             break
-- 
2.43.0


From 34fc8c513ff2631eaf179488f1fe569dfc266e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 29/61] fix: PolicyAgent applies its policy to the state of the
 player

---
 src/dg_commons/sim/agents/agent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/agents/agent.py b/src/dg_commons/sim/agents/agent.py
index 6a5ffbc..e8e541a 100644
--- a/src/dg_commons/sim/agents/agent.py
+++ b/src/dg_commons/sim/agents/agent.py
@@ -65,5 +65,5 @@ class PolicyAgent(Agent):
         self.my_name = init_sim_obs.my_name
 
     def get_commands(self, sim_obs: SimObservations) -> U:
-        my_state: X = sim_obs.players[self.my_name]
+        my_state: X = sim_obs.players[self.my_name].state
         return self.policy(my_state)
-- 
2.43.0


From bb6bf731bd9195b6deef0dcc6b1af36b81f25ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 30/61] fix: dynamic obstacles respect the limits of their
 rotational acceleration

---
 src/dg_commons/sim/models/obstacles_dyn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/models/obstacles_dyn.py b/src/dg_commons/sim/models/obstacles_dyn.py
index 5081d12..a5ed585 100644
--- a/src/dg_commons/sim/models/obstacles_dyn.py
+++ b/src/dg_commons/sim/models/obstacles_dyn.py
@@ -195,7 +195,8 @@ class DynObstacleModel(SimModel[DynObstacleState, DynObstacleCommands]):
 
         acc_x = apply_full_acceleration_limits(speed=vx, acceleration=u.acc_x + x0.dpsi * vy, p=self.op)
         acc_y = apply_full_acceleration_limits(speed=vy, acceleration=u.acc_y - x0.dpsi * vx, p=self.op)
-        acc_psi = apply_rot_speed_constraint(omega=x0.dpsi, domega=u.acc_psi, p=self.op)
+        domega = min(max(u.acc_psi, self.op.ddpsi_limits[0]), self.op.ddpsi_limits[1])
+        acc_psi = apply_rot_speed_constraint(omega=x0.dpsi, domega=domega, p=self.op)
 
         return DynObstacleState(x=xdot, y=ydot, psi=x0.dpsi, vx=acc_x, vy=acc_y, dpsi=acc_psi)
 
-- 
2.43.0


From f1afdc2e93d02b91651653cf1025ace82ec9f4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 31/61] fix: moving recorded pedestrians are skipped as
 unsupported instead of crashing the conversion

---
 src/dg_commons/sim/scenarios/convert_from_commonroad.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/dg_commons/sim/scenarios/convert_from_commonroad.py b/src/dg_commons/sim/scenarios/convert_from_commonroad.py
index 690eada..426cb63 100644
--- a/src/dg_commons/sim/scenarios/convert_from_commonroad.py
+++ b/src/dg_commons/sim/scenarios/convert_from_commonroad.py
@@ -6,6 +6,8 @@ from dg_commons.sim import SimModel
 from dg_commons.sim.agents.agent import Agent
 from dg_commons.sim.agents.lane_follower import LFAgent
 from dg_commons.sim.models.vehicle_dynamic import VehicleModelDyn
+from dg_commons.sim.models.vehicle_utils import VehicleParameters
+from dg_commons.sim.scenarios import NotSupportedConversion
 from dg_commons.sim.scenarios.model_from_dyn_obstacle import infer_model_from_cr_dyn_obstacle
 from dg_commons.sim.scenarios.utils_dyn_obstacle import infer_lane_from_dyn_obs
 
@@ -25,6 +27,11 @@ def model_agent_from_dynamic_obstacle(
     """
 
     model: SimModel = infer_model_from_cr_dyn_obstacle(dyn_obs, color)
+    if not isinstance(model.model_params, VehicleParameters):
+        # the lane following agent only knows how to drive vehicles
+        raise NotSupportedConversion(
+            "Cannot create an agent for Commonroad type", commonroad_type=dyn_obs.obstacle_type
+        )
     # Agent
     dglane = infer_lane_from_dyn_obs(dyn_obs=dyn_obs, network=lanelet_network)
     agent = LFAgent(dglane, model_params=model.model_params, model_geo=model.model_geometry)
-- 
2.43.0


From 3e958984918af795d08e175c0595ae7c98d8e45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 32/61] fix: lane inference compares lanelet ids instead of
 their digits

---
 src/dg_commons/sim/scenarios/utils_dyn_obstacle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py b/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
index a0d558a..645a320 100644
--- a/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
+++ b/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
@@ -23,9 +23,9 @@ def infer_lane_from_dyn_obs(dyn_obs: DynamicObstacle, network: LaneletNetwork) -
     candidates: list[DgLanelet] = []
     for init_id in init_ids:
         lanelet = network.find_lanelet_by_id(init_id)
-        merged_lanelets, _ = lanelet.all_lanelets_by_merging_successors_from_lanelet(lanelet=lanelet, network=network)
-        for merged_lanelet in merged_lanelets:
-            if any(str(id) in str(merged_lanelet.lanelet_id) for id in final_ids):
+        merged_lanelets, merged_ids = lanelet.all_lanelets_by_merging_successors_from_lanelet(lanelet=lanelet, network=network)
+        for merged_lanelet, lanelet_ids in zip(merged_lanelets, merged_ids):
+            if any(final_id in lanelet_ids for final_id in final_ids):
                 candidates.append(DgLanelet.from_commonroad_lanelet(merged_lanelet))
 
     if len(candidates) == 1:
-- 
2.43.0


From b0d6d872ee77f79c873726c57f6ba1858568b39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 33/61] fix: lane inference wraps the angle between obstacle
 and lane

---
 src/dg_commons/sim/scenarios/utils_dyn_obstacle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py b/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
index 645a320..0610dde 100644
--- a/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
+++ b/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
@@ -37,7 +37,8 @@ def infer_lane_from_dyn_obs(dyn_obs: DynamicObstacle, network: LaneletNetwork) -
         for candidate_lane in candidates:
             _, q = candidate_lane.find_along_lane_closest_point_fast(init_position)
             s_prime = angle_from_SE2(q)
-            displacement_angles.append(np.abs(dyn_obs.initial_state.orientation - s_prime))
+            displacement = dyn_obs.initial_state.orientation - s_prime
+            displacement_angles.append(np.abs(np.arctan2(np.sin(displacement), np.cos(displacement))))
         return candidates[np.argmin(displacement_angles)]
     else:
         # if we reach this point we did not find any lanelet,
-- 
2.43.0


From be62579a1c9a7e4de0dd7c774033ff8fe0fb7cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 34/61] fix: impact zones of differential drive robots cover
 the body and name the right sides

---
 src/dg_commons/sim/models/diff_drive.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/dg_commons/sim/models/diff_drive.py b/src/dg_commons/sim/models/diff_drive.py
index 2a04efc..233aaad 100644
--- a/src/dg_commons/sim/models/diff_drive.py
+++ b/src/dg_commons/sim/models/diff_drive.py
@@ -1,6 +1,6 @@
 from dataclasses import dataclass, replace
 from decimal import Decimal
-from math import cos, sin
+from math import cos, pi, sin
 from typing import Type, Mapping
 
 import numpy as np
@@ -175,15 +175,21 @@ class DiffDriveModel(SimModel[DiffDriveState, DiffDriveCommands]):
         return apply_SE2_to_shapely_geo(footprint, transform)
 
     def get_mesh(self) -> Mapping[ImpactLocation, Polygon]:
+        # the footprint is circular: one 90 degrees sector around the heading of each side
+        center = self._state.x, self._state.y
+        radius = 2 * self.vg.radius
         footprint = self.get_footprint()
-        vertices = footprint.exterior.coords[:-1]
-        cxy = footprint.centroid.coords[0]
-        # fixme maybe we can use triangulate from shapely inferring the side from the relative angle
+
+        def _sector(heading: float) -> Polygon:
+            angles = [self._state.psi + heading + a for a in (-pi / 4, 0, pi / 4)]
+            wedge = Polygon([center] + [(center[0] + radius * cos(a), center[1] + radius * sin(a)) for a in angles])
+            return wedge.intersection(footprint)
+
         impact_locations: Mapping[ImpactLocation, Polygon] = {
-            IMPACT_RIGHT: Polygon([cxy, vertices[0], vertices[3], cxy]),
-            IMPACT_LEFT: Polygon([cxy, vertices[1], vertices[2], cxy]),
-            IMPACT_BACK: Polygon([cxy, vertices[0], vertices[1], cxy]),
-            IMPACT_FRONT: Polygon([cxy, vertices[2], vertices[3], cxy]),
+            IMPACT_RIGHT: _sector(-pi / 2),
+            IMPACT_LEFT: _sector(pi / 2),
+            IMPACT_BACK: _sector(pi),
+            IMPACT_FRONT: _sector(0.0),
         }
         for shape in impact_locations.values():
             assert shape.is_valid
-- 
2.43.0


From a46e8e88fa5250ff9df658185ee2eb540664a30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 35/61] fix: lanes are extended beyond their ends at one metre
 per metre of distance along the lane

---
 src/dg_commons/maps/lanes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dg_commons/maps/lanes.py b/src/dg_commons/maps/lanes.py
index 023d3fc..1b77d67 100644
--- a/src/dg_commons/maps/lanes.py
+++ b/src/dg_commons/maps/lanes.py
@@ -268,11 +268,11 @@ class DgLanelet:
 
         if i < 0:
             q0 = self.control_points[0].q.as_SE2()
-            q1 = SE2.multiply(q0, SE2_from_translation_angle([0.1, 0], 0))
+            q1 = SE2.multiply(q0, SE2_from_translation_angle([1.0, 0], 0))
             alpha = beta
         elif i >= n - 1:
             q0 = self.control_points[-1].q.as_SE2()
-            q1 = SE2.multiply(q0, SE2_from_translation_angle([0.1, 0], 0))
+            q1 = SE2.multiply(q0, SE2_from_translation_angle([1.0, 0], 0))
             alpha = beta - (n - 1)
         else:
             alpha = beta - i
@@ -287,12 +287,12 @@ class DgLanelet:
         i = int(np.floor(beta))
         if i < 0:
             q0 = self.control_points[0].q
-            q1_tmp = SE2.multiply(q0.as_SE2(), SE2_from_translation_angle([0.1, 0], 0))
+            q1_tmp = SE2.multiply(q0.as_SE2(), SE2_from_translation_angle([1.0, 0], 0))
             q1 = SE2Transform.from_SE2(q1_tmp)
             alpha = beta
         elif i >= n - 1:
             q0 = self.control_points[-1].q
-            q1_tmp = SE2.multiply(q0.as_SE2(), SE2_from_translation_angle([0.1, 0], 0))
+            q1_tmp = SE2.multiply(q0.as_SE2(), SE2_from_translation_angle([1.0, 0], 0))
             q1 = SE2Transform.from_SE2(q1_tmp)
             alpha = beta - (n - 1)
         else:
-- 
2.43.0


From e705e61d8a689ff4996a8a3a984e310bba5ab095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 36/61] fix: coincident intersection points yield an empty
 report instead of NaN velocities

---
 src/dg_commons/sim/collision_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dg_commons/sim/collision_utils.py b/src/dg_commons/sim/collision_utils.py
index be85403..d108196 100644
--- a/src/dg_commons/sim/collision_utils.py
+++ b/src/dg_commons/sim/collision_utils.py
@@ -110,6 +110,8 @@ def compute_impact_geometry(a: Polygon, b: BaseGeometry) -> (np.ndarray, Point):
         first, second = intersecting_points
         dxdy_surface = (second[0] - first[0], second[1] - first[1])
         normal = np.array([-dxdy_surface[1], dxdy_surface[0]])
+        if not np.linalg.norm(normal) > 0:
+            raise CollisionException("The normal of impact is undefined for coincident intersection points")
         normal /= np.linalg.norm(normal)
         r_ap = np.array(impact_point.coords[0]) - np.array(a.centroid.coords[0])
     if np.dot(r_ap, normal) < 0:
-- 
2.43.0


From d717fc8d1da966adc60ca895f5c5116caa312b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:28 +0000
Subject: [PATCH 37/61] fix: merge_unsafe supports an empty second trajectory

---
 src/dg_commons/planning/trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/planning/trajectory.py b/src/dg_commons/planning/trajectory.py
index 795e336..eeb6e52 100644
--- a/src/dg_commons/planning/trajectory.py
+++ b/src/dg_commons/planning/trajectory.py
@@ -91,7 +91,7 @@ class Trajectory(DgSampledSequence[VehicleState]):
 
     def merge_unsafe(self, other: "Trajectory", tol=1e-3) -> "Trajectory":
         """Only checks that timestamps between the end and start of the trajectories to merge are consistent."""
-        if not self.is_empty():
+        if not self.is_empty() and not other.is_empty():
             assert (
                 abs(self.timestamps[-1] - other.timestamps[0]) <= tol
             ), "End and start timestamps of the trajectories to merge are not consistent."
-- 
2.43.0


From aa82205dba4ced00ae8b06eb81568cb0b39c0f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:11 +0000
Subject: [PATCH 38/61] fix: a field of view narrower than the angular
 resolution is not empty

---
 src/dg_commons/perception/sensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/perception/sensor.py b/src/dg_commons/perception/sensor.py
index 2f3fa3d..d91dcbc 100644
--- a/src/dg_commons/perception/sensor.py
+++ b/src/dg_commons/perception/sensor.py
@@ -53,7 +53,7 @@ class VisRangeSensor(Sensor):
         if not self.is_omnidirectional():
             vertices.append(self.pose.p)
 
-        num_ray_angles = int(self.field_of_view / self.angle_resolution) + 1
+        num_ray_angles = max(int(self.field_of_view / self.angle_resolution) + 1, 2)
         ray_angles = self.pose.theta + np.linspace(-self.field_of_view / 2, self.field_of_view / 2, num_ray_angles)
 
         cc = pycrcc.CollisionChecker()
-- 
2.43.0


From 4827ddba632ea9110510720dbf86a0087b0ed95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:11 +0000
Subject: [PATCH 39/61] fix: a field of view filter follows the static
 obstacles of the scenario it is used in

---
 src/dg_commons/sim/sim_perception.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/sim_perception.py b/src/dg_commons/sim/sim_perception.py
index 78dc5b0..13b00c5 100644
--- a/src/dg_commons/sim/sim_perception.py
+++ b/src/dg_commons/sim/sim_perception.py
@@ -45,6 +45,7 @@ class FovObsFilter(ObsFilter):
     def __init__(self, sensor: Sensor):
         self.sensor: Sensor = sensor
         self._static_obstacles: list[crPolygon] = []
+        self._static_obstacles_of: DgScenario | None = None
         self._tmp_debug: int = 0
 
     def sense(self, scenario: DgScenario, full_obs: SimObservations, pov: PlayerName) -> SimObservations:
@@ -58,7 +59,8 @@ class FovObsFilter(ObsFilter):
         # first update sensor pose
         self.sensor.pose = SE2Transform.from_SE2(extract_pose_from_state(full_obs.players[pov].state))
         # then filter
-        if not self._static_obstacles:
+        if self._static_obstacles_of is not scenario:
+            self._static_obstacles_of = scenario
             self._static_obstacles = list(interleave([shapely2crPolygons(o.shape) for o in scenario.static_obstacles]))
 
         self._tmp_debug += 1
-- 
2.43.0


From 580dd1875cface119b0e4fb4233af4d390f0a011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:11 +0000
Subject: [PATCH 40/61] fix: a player met by rays only on its surface is seen
 regardless of rounding

---
 src/dg_commons/sim/sim_perception.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/sim/sim_perception.py b/src/dg_commons/sim/sim_perception.py
index 13b00c5..70170cc 100644
--- a/src/dg_commons/sim/sim_perception.py
+++ b/src/dg_commons/sim/sim_perception.py
@@ -42,6 +42,9 @@ class FovObsFilter(ObsFilter):
     FOV visibility filter. Filters observations according to the sensor's FOV.
     """
 
+    _touching: float = 1e-6
+    """Rays end on the surface of what they hit, up to rounding [m]"""
+
     def __init__(self, sensor: Sensor):
         self.sensor: Sensor = sensor
         self._static_obstacles: list[crPolygon] = []
@@ -77,7 +80,7 @@ class FovObsFilter(ObsFilter):
                 continue
 
             try:
-                player_seen = fov_poly.intersects(p_obs.occupancy)
+                player_seen = fov_poly.distance(p_obs.occupancy) < self._touching
             except Exception:
                 logger.info(f"FOV polygon is valid: {fov_poly.is_valid}")
                 logger.info(f"{p}'s polygon is valid: {p_obs.occupancy.is_valid}")
@@ -86,7 +89,7 @@ class FovObsFilter(ObsFilter):
                 if not p_obs.occupancy.is_valid:
                     new_occupancy = make_valid(p_obs.occupancy)
                     p_obs = replace(p_obs, occupancy=new_occupancy)
-                player_seen = fov_poly.intersects(p_obs.occupancy)
+                player_seen = fov_poly.distance(p_obs.occupancy) < self._touching
             finally:
                 if player_seen:
                     new_players[p] = p_obs
-- 
2.43.0


From 91f753e6d19596b84046764a2cea8d75ac49c7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:14 +0000
Subject: [PATCH 41/61] fix: the maximum jerk includes the samples on the
 boundaries of a decimal time range

---
 src/dg_commons/eval/comfort.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dg_commons/eval/comfort.py b/src/dg_commons/eval/comfort.py
index 97bb6f4..c386df2 100644
--- a/src/dg_commons/eval/comfort.py
+++ b/src/dg_commons/eval/comfort.py
@@ -11,10 +11,11 @@ def get_max_jerk(commands: DgSampledSequence[U], t_range: tuple[Timestamp | None
     Only timesteps within t_range are considered.
     """
     max_jerk = 0
-    for it in iterate_with_dt(commands):
-        if t_range[0] is not None and it.t1 < t_range[0]:
+    # compare the time range with the original timestamps, as floats decimals can end up on the other side
+    for it, t1 in zip(iterate_with_dt(commands), commands.timestamps[1:]):
+        if t_range[0] is not None and t1 < t_range[0]:
             continue
-        if t_range[1] is not None and it.t1 > t_range[1]:
+        if t_range[1] is not None and t1 > t_range[1]:
             break
         jerk = (it.v1.acc - it.v0.acc) / float(it.t1 - it.t0)
         if np.abs(jerk) > max_jerk:
-- 
2.43.0


From ca6e74fb72b9e41d7106ce727067707715f35925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:43 +0000
Subject: [PATCH 42/61] fix: the brake lights of a vehicle no longer stay on
 for all the vehicles, forever

---
 src/dg_commons/sim/simulator_animation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/simulator_animation.py b/src/dg_commons/sim/simulator_animation.py
index 3a28349..8ecafc9 100644
--- a/src/dg_commons/sim/simulator_animation.py
+++ b/src/dg_commons/sim/simulator_animation.py
@@ -1,4 +1,5 @@
 import math
+from dataclasses import replace
 from itertools import chain
 from typing import Mapping, Union, Optional, Sequence, Iterable
 
@@ -232,7 +233,8 @@ def get_lights_colors_from_cmds(cmds: VehicleCommands, t: Timestamp) -> LightsCo
 
 def lights_colors_from_lights_cmd(lights_cmd: LightsCmd, acc: float, t: Timestamp) -> LightsColors:
     phases = lightscmd2phases[lights_cmd]
-    lights_colors = get_phased_lights(phases, float(t))
+    # the colors of the phases are shared, we need our own copy to brake
+    lights_colors = replace(get_phased_lights(phases, float(t)))
     if acc < 0:  # and cmds == NO_LIGHTS:
         if lights_colors.back_left == red:
             lights_colors.back_left = red_more
-- 
2.43.0


From 0a611d58a531c00862e19210d8cf89f2d672837e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:43 +0000
Subject: [PATCH 43/61] fix: the animation of a simulation that does not begin
 at time zero starts from its beginning

---
 src/dg_commons/sim/simulator_animation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/sim/simulator_animation.py b/src/dg_commons/sim/simulator_animation.py
index 8ecafc9..34ebcb0 100644
--- a/src/dg_commons/sim/simulator_animation.py
+++ b/src/dg_commons/sim/simulator_animation.py
@@ -116,8 +116,9 @@ def create_animation(
         return _get_list()
 
     def update_plot(frame: int = 0) -> Iterable[Artist]:
-        t: float = frame * dt / 1000.0
-        log_at_t: Mapping[PlayerName, LogEntry] = sim_context.log.at_interp(t)
+        t: float = float(time_begin) + frame * dt / 1000.0
+        # rounding must not bring us before the beginning of the log
+        log_at_t: Mapping[PlayerName, LogEntry] = sim_context.log.at_interp(max(time_begin, t))
         for pname, box_handle in states.items():
             lights_colors: LightsColors = get_lights_colors_from_cmds(log_at_t[pname].commands, t=t)
             states[pname], actions[pname] = sim_viz.plot_player(
-- 
2.43.0


From f9aaf9698fbadb78adbb82ee153d9c55fdede298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:20 +0000
Subject: [PATCH 44/61] fix: the animation shows also the trajectories that are
 logged only after its first frame

---
 src/dg_commons/sim/simulator_animation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/sim/simulator_animation.py b/src/dg_commons/sim/simulator_animation.py
index 34ebcb0..6f6b4b2 100644
--- a/src/dg_commons/sim/simulator_animation.py
+++ b/src/dg_commons/sim/simulator_animation.py
@@ -139,8 +139,8 @@ def create_animation(
                         ax=ax,
                         player_name=pname,
                         trajectories=list(trajectories),
-                        traj_lines=traj_lines[pname],
-                        traj_points=traj_points[pname],
+                        traj_lines=traj_lines.get(pname),
+                        traj_points=traj_points.get(pname),
                         colors=list(tcolors),
                     )
                 except:
-- 
2.43.0


From a10befd6cbb3c79e26bbd9585625e8401271c72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:20 +0000
Subject: [PATCH 45/61] fix: the animation stops showing the old trajectories
 when the player logs that it has none

---
 src/dg_commons/sim/simulator_animation.py     | 5 +++--
 src/dg_commons/sim/simulator_visualisation.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dg_commons/sim/simulator_animation.py b/src/dg_commons/sim/simulator_animation.py
index 6f6b4b2..6e3aa5e 100644
--- a/src/dg_commons/sim/simulator_animation.py
+++ b/src/dg_commons/sim/simulator_animation.py
@@ -132,9 +132,10 @@ def create_animation(
                 plot_wheels=plot_wheels,
                 plot_lights=plot_ligths,
             )
-            if log_at_t[pname].extra:
+            extra_at_t = log_at_t[pname].extra
+            if extra_at_t or pname in traj_lines:
                 try:
-                    trajectories, tcolors = unzip(log_at_t[pname].extra)
+                    trajectories, tcolors = unzip(extra_at_t) if extra_at_t else ((), ())
                     traj_lines[pname], traj_points[pname] = sim_viz.plot_trajectories(
                         ax=ax,
                         player_name=pname,
diff --git a/src/dg_commons/sim/simulator_visualisation.py b/src/dg_commons/sim/simulator_visualisation.py
index 5d1461e..6550fdf 100644
--- a/src/dg_commons/sim/simulator_visualisation.py
+++ b/src/dg_commons/sim/simulator_visualisation.py
@@ -270,7 +270,7 @@ def plot_trajectories(
         ax.add_collection(traj_points)
     traj_lines.set_segments(segments=segments)
     traj_lines.set_color(colors)
-    traj_points.set_offsets(np.concatenate(segments))
+    traj_points.set_offsets(np.concatenate(segments) if segments else np.empty((0, 2)))
     # traj_points.set_facecolor(mcolor) # todo adjust color based on velocity
     # https://stackoverflow.com/questions/23966121/updating-the-positions-and-colors-of-pyplot-scatter
     return traj_lines, traj_points
-- 
2.43.0


From 03c14ce458ab835bf71af1be88479dd7f0b66fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:20 +0000
Subject: [PATCH 46/61] fix: a logged trajectory without a color is drawn in
 the color of the agent, as documented

---
 src/dg_commons/sim/simulator_visualisation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/simulator_visualisation.py b/src/dg_commons/sim/simulator_visualisation.py
index 6550fdf..f3dd12b 100644
--- a/src/dg_commons/sim/simulator_visualisation.py
+++ b/src/dg_commons/sim/simulator_visualisation.py
@@ -233,7 +233,7 @@ class SimRenderer(SimRendererABC):
     ) -> tuple[list[LineCollection], list[PathCollection]]:
         mg = self.sim_context.models[player_name].model_geometry
         assert colors is None or len(colors) == len(trajectories)
-        colors = mg.color if colors is None else colors
+        colors = mg.color if colors is None else [mg.color if c is None else c for c in colors]
         return plot_trajectories(
             ax=ax,
             trajectories=trajectories,
-- 
2.43.0


From 7ad915709cae036d90e59d7861eae46f07327ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:20 +0000
Subject: [PATCH 47/61] fix: trajectories of models without a longitudinal
 velocity can be drawn

---
 src/dg_commons/sim/simulator_visualisation.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/dg_commons/sim/simulator_visualisation.py b/src/dg_commons/sim/simulator_visualisation.py
index f3dd12b..69a950c 100644
--- a/src/dg_commons/sim/simulator_visualisation.py
+++ b/src/dg_commons/sim/simulator_visualisation.py
@@ -254,11 +254,10 @@ def plot_trajectories(
     width: float = 1.5,
     alpha: float = 1,
 ) -> tuple[list[LineCollection], list[PathCollection]]:
-    segments, mcolor = [], []
+    segments = []
     for traj in trajectories:
-        sampled_traj = np.vstack([[x.x, x.y, x.vx] for x in traj.values])
-        segments.append(sampled_traj[:, :2])
-        mcolor.append(sampled_traj[:, 2])  # fixme marker color functionality not available yet
+        segments.append(np.vstack([[x.x, x.y] for x in traj.values]))
+        # fixme marker color functionality not available yet
 
     if traj_lines is None:
         traj_lines = LineCollection(
-- 
2.43.0


From 7884299d5a9210ff6093a28182db587794e82f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:20 +0000
Subject: [PATCH 48/61] fix: the animation falls back to automatic limits when
 the player in focus is unknown

---
 src/dg_commons/sim/simulator_animation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/simulator_animation.py b/src/dg_commons/sim/simulator_animation.py
index 6e3aa5e..3175905 100644
--- a/src/dg_commons/sim/simulator_animation.py
+++ b/src/dg_commons/sim/simulator_animation.py
@@ -211,7 +211,7 @@ def adjust_axes_limits(
             velocity_v = np.clip(velocity_v, -slack + buffer, slack - buffer)
             x_c, y_c = state.x + velocity_v[0], state.y + velocity_v[1]
             ax.axis(xmin=x_c - slack, xmax=x_c + slack, ymin=y_c - slack, ymax=y_c + slack)
-        except AssertionError:
+        except KeyError:
             ax.autoscale()
 
     elif isinstance(plot_limits, Sequence):
-- 
2.43.0


From 6e2bd528c3ccb666cad741c6bc69ee6f1ba340f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:01 +0000
Subject: [PATCH 49/61] fix: ShapelyViz draws collections and multi-part points
 and lines (not iterable since shapely 2)

---
 src/dg_commons/maps/shapely_viz.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/dg_commons/maps/shapely_viz.py b/src/dg_commons/maps/shapely_viz.py
index 9a5d672..e6581af 100644
--- a/src/dg_commons/maps/shapely_viz.py
+++ b/src/dg_commons/maps/shapely_viz.py
@@ -50,7 +50,7 @@ class ShapelyViz:
         elif isinstance(shape, (Polygon, MultiPolygon)):
             self._plot_polys(shape, **style_kwargs)
         elif isinstance(shape, GeometryCollection):
-            for poly in shape:
+            for poly in shape.geoms:
                 self.add_shape(poly, **style_kwargs)
         else:
             raise NotImplementedError(f"Given `shape` argument is of an unexpected type [{type(shape).__name__}]")
@@ -65,17 +65,15 @@ class ShapelyViz:
             logger.info("Given shape is empty, returning.")
             return
         # todo
-        x, y = [], []
         if isinstance(shape, MultiPoint):
-            for point in shape:
-                x.append(point.x)
-                y.append(point.y)
+            points = list(shape.geoms)
         elif isinstance(shape, Point):
-            x, y = map(list, shape.xy)
+            points = [shape]
         else:
             raise TypeError(f"Given `shape` argument is of an unexpected type [{type(shape).__name__}]")
-        circle = mpatches.Circle(xy=(x, y), **style_kwargs)
-        self.ax.add_patch(circle)
+        for point in points:
+            circle = mpatches.Circle(xy=(point.x, point.y), **style_kwargs)
+            self.ax.add_patch(circle)
 
     def _plot_lines(self, shape: Union[LineString, MultiLineString, LinearRing], **style_kwargs: Dict):
         """Internal method for plotting given non-empty, LineString, MultiLineString, or LinearRing `shape` object.
@@ -91,7 +89,7 @@ class ShapelyViz:
             x, y = map(list, shape.xy)
             self.ax.plot(x, y, **style_kwargs)
         elif isinstance(shape, MultiLineString):
-            for line in shape:
+            for line in shape.geoms:
                 x, y = map(list, line.xy)
                 self.ax.plot(x, y, **style_kwargs)
         else:
-- 
2.43.0


From 25c2051e80ea54980682ae7a5c4631df71ebc132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:30 +0000
Subject: [PATCH 50/61] fix: ShapelyViz leaves the holes of a polygon open and
 fills every part of a multi polygon

---
 src/dg_commons/maps/shapely_viz.py | 46 +++++++-----------------------
 1 file changed, 11 insertions(+), 35 deletions(-)

diff --git a/src/dg_commons/maps/shapely_viz.py b/src/dg_commons/maps/shapely_viz.py
index e6581af..f04cd96 100644
--- a/src/dg_commons/maps/shapely_viz.py
+++ b/src/dg_commons/maps/shapely_viz.py
@@ -1,8 +1,10 @@
 from typing import Union, Dict, Optional, Any
 
 import matplotlib.patches as mpatches
+import numpy as np
 from matplotlib import pyplot as plt
 from matplotlib.axes import Axes
+from matplotlib.path import Path
 from shapely.geometry import (
     LineString,
     MultiLineString,
@@ -14,6 +16,7 @@ from shapely.geometry import (
     Polygon,
 )
 from shapely.geometry.base import BaseGeometry
+from shapely.geometry.polygon import orient
 
 from dg_commons import logger
 
@@ -108,39 +111,12 @@ class ShapelyViz:
         if not isinstance(shape, (Polygon, MultiPolygon)):
             raise TypeError(f"Given `shape` argument is of an unexpected type [{type(shape).__name__}]")
 
-        xs, ys = self._get_poly_coordinates(shape)
-        for idx, xy in enumerate(zip(xs, ys)):
-            xy_array = list(zip(*xy))
-            if idx == 0:
-                poly = mpatches.Polygon(xy_array, **style_kwargs)
+        for part in shape.geoms if isinstance(shape, MultiPolygon) else [shape]:
+            if part.interiors:
+                # the orientation of the rings tells the holes from the exterior
+                part = orient(part)
+                rings = [Path(np.asarray(ring.coords)[:, :2], closed=True) for ring in [part.exterior, *part.interiors]]
+                patch = mpatches.PathPatch(Path.make_compound_path(*rings), **style_kwargs)
             else:
-                poly = mpatches.Polygon(xy_array, facecolor=self.ax.get_facecolor())
-            self.ax.add_patch(poly)
-
-    def _get_poly_coordinates(self, shape: Union[Polygon, MultiPolygon]):
-        """Internal method for translating shapely polygon coordinates to bokeh polygon plotting coordinates.
-        :param shape: Shape(ly) to plot. Polygon, MultiPolygon
-        :raises TypeError: When given `shape` is not a `Polygon` or `MultiPolygon` shapely geometry.
-        """
-        x, y = [], []
-        if isinstance(shape, MultiPolygon):
-            for poly in shape.geoms:
-                poly_x, poly_y = self._get_poly_coordinates(poly)
-                x += poly_x
-                y += poly_y
-            return x, y
-
-        elif isinstance(shape, Polygon):
-            extr_x, extr_y = map(list, shape.exterior.xy)
-            intr_x, intr_y = [], []
-            for i in shape.interiors:
-                _x, _y = map(list, i.xy)
-                intr_x.append(_x[:-1])
-                intr_y.append(_y[:-1])
-            combined_x, combined_y = [extr_x[:-1]], [extr_y[:-1]]
-            combined_x += intr_x
-            combined_y += intr_y
-            return combined_x, combined_y
-
-        else:
-            raise TypeError(f"Given `shape` argument is of an unexpected type [{type(shape).__name__}]")
+                patch = mpatches.Polygon(list(zip(*part.exterior.xy))[:-1], **style_kwargs)
+            self.ax.add_patch(patch)
-- 
2.43.0


From a38b076425f51ea75d7852f11453be2a009feac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:30 +0000
Subject: [PATCH 51/61] fix: collisions with obstacles made of lines can be
 plotted

---
 src/dg_commons/sim/collision_visualisation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/sim/collision_visualisation.py b/src/dg_commons/sim/collision_visualisation.py
index bb4179d..65661c2 100644
--- a/src/dg_commons/sim/collision_visualisation.py
+++ b/src/dg_commons/sim/collision_visualisation.py
@@ -44,7 +44,8 @@ def plot_collision(collision_report: CollisionReport, sim_log: SimLog):
         p_color = colors[i]
         # vehicle outline
         footprint = p_report.footprint
-        plt.plot(*footprint.exterior.xy, color=p_color)
+        # obstacles can also be lines or rings
+        plt.plot(*getattr(footprint, "exterior", footprint).xy, color=p_color)
         try:
             xc, yc = log_entries[player].state.x, log_entries[player].state.y  # footprint.centroid.coords[0]
         except KeyError:
@@ -130,7 +131,7 @@ def plot_collision(collision_report: CollisionReport, sim_log: SimLog):
         # impact locations
         for loc in p_report.locations:
             loc_str, loc_shape = loc
-            plt.fill(*loc_shape.exterior.xy, fc="cyan", ec="darkblue", alpha=0.4, zorder=_Zorders.IMPACT_LOCATION)
+            plt.fill(*getattr(loc_shape, "exterior", loc_shape).xy, fc="cyan", ec="darkblue", alpha=0.4, zorder=_Zorders.IMPACT_LOCATION)
             xc, yc = loc_shape.centroid.coords[0]
             plt.text(
                 xc,
-- 
2.43.0


From 321914975bc921447f592fb335d558062cee98f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:30 +0000
Subject: [PATCH 52/61] fix: the animation can focus on a player whose state
 has no velocity

---
 src/dg_commons/sim/simulator_animation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/simulator_animation.py b/src/dg_commons/sim/simulator_animation.py
index 3175905..461662f 100644
--- a/src/dg_commons/sim/simulator_animation.py
+++ b/src/dg_commons/sim/simulator_animation.py
@@ -206,7 +206,7 @@ def adjust_axes_limits(
             slack = 35
             v_scaling = 1.5
             # we shift the center of the image forward according to the velocity vector of the player
-            velocity_v = v_scaling * np.array([state.vx * np.cos(state.psi), state.vx * np.sin(state.psi)])
+            velocity_v = v_scaling * np.array([np.cos(state.psi), np.sin(state.psi)]) * getattr(state, "vx", 0.0)
             buffer = slack / 3
             velocity_v = np.clip(velocity_v, -slack + buffer, slack - buffer)
             x_c, y_c = state.x + velocity_v[0], state.y + velocity_v[1]
-- 
2.43.0


From 9fb87c98a1b1e2d4cd657bfc900932d7930a53f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:45 +0000
Subject: [PATCH 53/61] fix: the log of a player is plotted in the given
 figure, also if it is not the current one

---
 src/dg_commons/sim/log_visualisation.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/dg_commons/sim/log_visualisation.py b/src/dg_commons/sim/log_visualisation.py
index 2c14edd..c91523c 100644
--- a/src/dg_commons/sim/log_visualisation.py
+++ b/src/dg_commons/sim/log_visualisation.py
@@ -32,17 +32,17 @@ def plot_player_log(log: PlayerLog, fig: Figure = None):
     for i, field in enumerate(state_fields):
         field_value = [getattr(s, field.name) for s in log.states.values]
         ts = log.states.timestamps
-        fig.add_subplot(rows_number, 1, i + 1)
-        plt.plot(ts, field_value, label=field.name)
-        plt.grid()
-        plt.legend()
+        ax = fig.add_subplot(rows_number, 1, i + 1)
+        ax.plot(ts, field_value, label=field.name)
+        ax.grid()
+        ax.legend()
 
     for i, field in enumerate(cmds_fields):
         field_value = [getattr(c, field.name) for c in log.commands.values]
         ts = log.commands.timestamps
-        fig.add_subplot(rows_number, 1, n_states + i + 1)
-        plt.step(ts, field_value, label=field.name)
-        plt.grid()
-        plt.legend()
+        ax = fig.add_subplot(rows_number, 1, n_states + i + 1)
+        ax.step(ts, field_value, label=field.name)
+        ax.grid()
+        ax.legend()
 
     plt.draw()
-- 
2.43.0


From 109c529c63b7e87fba36c08362b783741272f63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:52 +0000
Subject: [PATCH 54/61] fix: the plotted commands hold from the instant they
 are given on, not before it

---
 src/dg_commons/sim/log_visualisation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/log_visualisation.py b/src/dg_commons/sim/log_visualisation.py
index c91523c..a743699 100644
--- a/src/dg_commons/sim/log_visualisation.py
+++ b/src/dg_commons/sim/log_visualisation.py
@@ -41,7 +41,7 @@ def plot_player_log(log: PlayerLog, fig: Figure = None):
         field_value = [getattr(c, field.name) for c in log.commands.values]
         ts = log.commands.timestamps
         ax = fig.add_subplot(rows_number, 1, n_states + i + 1)
-        ax.step(ts, field_value, label=field.name)
+        ax.step(ts, field_value, where="post", label=field.name)
         ax.grid()
         ax.legend()
 
-- 
2.43.0


From 4abd1d5d0682f7d6fcb8a997c0c86f4886db3e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:06 +0000
Subject: [PATCH 55/61] fix: the velocity of a differential drive is an array,
 as for the other models (its collisions could not be plotted)

---
 src/dg_commons/sim/models/diff_drive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/models/diff_drive.py b/src/dg_commons/sim/models/diff_drive.py
index 233aaad..75d9b1f 100644
--- a/src/dg_commons/sim/models/diff_drive.py
+++ b/src/dg_commons/sim/models/diff_drive.py
@@ -204,7 +204,7 @@ class DiffDriveModel(SimModel[DiffDriveState, DiffDriveCommands]):
 
     def get_velocity(self, in_model_frame: bool) -> (T2value, float):
         """Returns velocity at COG"""
-        return [0, 0], 0
+        return np.array([0.0, 0.0]), 0
 
     def set_velocity(self, vel: T2value, omega: float, in_model_frame: bool):
         logger.warn(
-- 
2.43.0


From aa31f941eb3a9f567d2ad16a7c411fab09cc235c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:08 +0000
Subject: [PATCH 56/61] Revert "fix: collisions with obstacles made of lines
 can be plotted"

The reports already carry polygons for such obstacles: nothing was broken.
---
 src/dg_commons/sim/collision_visualisation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/dg_commons/sim/collision_visualisation.py b/src/dg_commons/sim/collision_visualisation.py
index 65661c2..bb4179d 100644
--- a/src/dg_commons/sim/collision_visualisation.py
+++ b/src/dg_commons/sim/collision_visualisation.py
@@ -44,8 +44,7 @@ def plot_collision(collision_report: CollisionReport, sim_log: SimLog):
         p_color = colors[i]
         # vehicle outline
         footprint = p_report.footprint
-        # obstacles can also be lines or rings
-        plt.plot(*getattr(footprint, "exterior", footprint).xy, color=p_color)
+        plt.plot(*footprint.exterior.xy, color=p_color)
         try:
             xc, yc = log_entries[player].state.x, log_entries[player].state.y  # footprint.centroid.coords[0]
         except KeyError:
@@ -131,7 +130,7 @@ def plot_collision(collision_report: CollisionReport, sim_log: SimLog):
         # impact locations
         for loc in p_report.locations:
             loc_str, loc_shape = loc
-            plt.fill(*getattr(loc_shape, "exterior", loc_shape).xy, fc="cyan", ec="darkblue", alpha=0.4, zorder=_Zorders.IMPACT_LOCATION)
+            plt.fill(*loc_shape.exterior.xy, fc="cyan", ec="darkblue", alpha=0.4, zorder=_Zorders.IMPACT_LOCATION)
             xc, yc = loc_shape.centroid.coords[0]
             plt.text(
                 xc,
-- 
2.43.0


From 852ea122dfbbbedb05bb9c6c4ebb49168156f4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:06 +0000
Subject: [PATCH 57/61] fix: the default scenarios folder is found also below
 another folder named like src

---
 src/dg_commons/sim/scenarios/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/sim/scenarios/utils.py b/src/dg_commons/sim/scenarios/utils.py
index 8eacb35..90bf02f 100644
--- a/src/dg_commons/sim/scenarios/utils.py
+++ b/src/dg_commons/sim/scenarios/utils.py
@@ -1,5 +1,4 @@
 import os
-import re
 from typing import Optional
 
 from commonroad.common.file_reader import CommonRoadFileReader
@@ -27,7 +26,8 @@ def load_commonroad_scenario(
         dg_root_dir = __file__
         src_folder = "src"
         assert src_folder in dg_root_dir, dg_root_dir
-        dg_root_dir = re.split(src_folder, dg_root_dir)[0]
+        # the last one: folders above the project may be named alike
+        dg_root_dir = dg_root_dir.rsplit(src_folder, 1)[0]
         assert os.path.isdir(dg_root_dir)
         scenarios_dir = os.path.join(dg_root_dir, "scenarios")
 
-- 
2.43.0


From da3ed5326238bab33c01d2aee8422dd58459c8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:34 +0000
Subject: [PATCH 58/61] fix: Pacejka4p: the curvature factor applies to the
 difference only once, as in the magic formula

---
 src/dg_commons/sim/models/tires.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/models/tires.py b/src/dg_commons/sim/models/tires.py
index 37d4ab9..0fd8ae0 100644
--- a/src/dg_commons/sim/models/tires.py
+++ b/src/dg_commons/sim/models/tires.py
@@ -55,4 +55,4 @@ class Pacejka4p(Pacejka):
     "curvature"
 
     def evaluate(self, slip: float) -> float:
-        return self.D * sin(self.C * atan(self.B * slip - self.E * (self.B * slip - self.E * atan(self.B * slip))))
+        return self.D * sin(self.C * atan(self.B * slip - self.E * (self.B * slip - atan(self.B * slip))))
-- 
2.43.0


From a9d6734bf6107de14675aa6f0cefb53461c3d3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:44 +0000
Subject: [PATCH 59/61] fix: the drag of a dynamic vehicle grows with the
 square of its speed, not of the density of the air

---
 src/dg_commons/sim/models/vehicle_dynamic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/models/vehicle_dynamic.py b/src/dg_commons/sim/models/vehicle_dynamic.py
index 2db8e2b..753a5bc 100644
--- a/src/dg_commons/sim/models/vehicle_dynamic.py
+++ b/src/dg_commons/sim/models/vehicle_dynamic.py
@@ -178,7 +178,7 @@ class VehicleModelDyn(VehicleModel):
             Facc2_sat = Facc2 * math.sqrt(1 - (F2y / (F2_n * self.pacejka_rear.D)) ** 2)
 
             # Drag Force
-            F_drag = -0.5 * x0.vx * self.vg.a_drag * self.vg.c_drag * rho**2
+            F_drag = -0.5 * rho * self.vg.a_drag * self.vg.c_drag * x0.vx**2
             # longitudinal acceleration
             acc_x = (F1[0] + F_drag + Facc2_sat) / m + x0.dpsi * x0.vy
 
-- 
2.43.0


From 2265c3f2e932c7d5d49d9d815bb0e3ea1c097458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:44 +0000
Subject: [PATCH 60/61] fix: orientations are recorded modulo a full turn,
 their difference is the smaller one

---
 src/dg_commons/sim/scenarios/model_from_dyn_obstacle.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/scenarios/model_from_dyn_obstacle.py b/src/dg_commons/sim/scenarios/model_from_dyn_obstacle.py
index 6fc1838..f9c68a3 100644
--- a/src/dg_commons/sim/scenarios/model_from_dyn_obstacle.py
+++ b/src/dg_commons/sim/scenarios/model_from_dyn_obstacle.py
@@ -1,3 +1,5 @@
+from math import pi, remainder
+
 from commonroad.geometry.shape import Rectangle as crRectangle
 from commonroad.scenario.obstacle import DynamicObstacle, ObstacleType
 
@@ -27,7 +29,9 @@ def infer_model_from_cr_dyn_obstacle(dyn_obs: DynamicObstacle, color: Color) ->
 
         assert isinstance(dyn_obs.obstacle_shape, crRectangle)
         l = dyn_obs.obstacle_shape.length * axle_length_ratio
-        dtheta = dyn_obs.prediction.trajectory.state_list[0].orientation - dyn_obs.initial_state.orientation
+        dtheta = remainder(
+            dyn_obs.prediction.trajectory.state_list[0].orientation - dyn_obs.initial_state.orientation, 2 * pi
+        )
         delta = dtheta / l
         # x0 = VehicleStateDyn(
         #     x=dyn_obs.initial_state.position[0],
-- 
2.43.0


From f986f3fa8d1da89c4a6a1f0a6c3aaf29f7c295e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:38 +0000
Subject: [PATCH 61/61] fix: lane headings are interpolated along the shorter
 arc

center_point_fast_SE2Transform was wrong by up to half a turn between two
control points on either side of +-180 degrees, so agents of converted
scenarios could be given a lane they are not aligned with.
---
 src/dg_commons/maps/lanes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/maps/lanes.py b/src/dg_commons/maps/lanes.py
index 1b77d67..4cfb900 100644
--- a/src/dg_commons/maps/lanes.py
+++ b/src/dg_commons/maps/lanes.py
@@ -1,5 +1,5 @@
 from dataclasses import dataclass
-from math import atan2, isclose, pi
+from math import atan2, cos, isclose, pi, sin
 from threading import RLock
 from typing import Sequence, Optional
 
@@ -300,7 +300,9 @@ class DgLanelet:
             q1 = self.control_points[i + 1].q
             alpha = beta - i
         p = q0.p * (1 - alpha) + q1.p * alpha
-        theta = q0.theta * (1 - alpha) + q1.theta * alpha
+        # along the shorter arc, headings may wrap around between two control points
+        dtheta = q1.theta - q0.theta
+        theta = q0.theta + atan2(sin(dtheta), cos(dtheta)) * alpha
         return SE2Transform(p, theta)
 
     def is_inside_from_T2value(self, position: T2value, tol: float = 1e-3) -> bool:
-- 
2.43.0

