From 6532d0a1b67f39244b466d61acf81713c8b2010d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 01/44] fix: express points in the rectangle's own frame in
 point_in_rotated_rectangle

---
 highway_env/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/utils.py b/highway_env/utils.py
index 0ef7112..4959336 100644
--- a/highway_env/utils.py
+++ b/highway_env/utils.py
@@ -64,7 +64,7 @@ def point_in_rotated_rectangle(point: np.ndarray, center: np.ndarray, length: fl
     :return: is the point inside the rectangle
     """
     c, s = np.cos(angle), np.sin(angle)
-    r = np.array([[c, -s], [s, c]])
+    r = np.array([[c, s], [-s, c]])
     ru = r.dot(point - center)
     return point_in_rectangle(ru, (-length/2, -width/2), (length/2, width/2))
 
-- 
2.43.0


From 9615a9ef15b12f75557e0c7886ebc1dad8f4cee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 02/44] fix: limit reverse speed to -MAX_SPEED instead of
 accelerating towards MAX_SPEED

---
 highway_env/vehicle/kinematics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/kinematics.py b/highway_env/vehicle/kinematics.py
index 22f81ed..01ebc5d 100644
--- a/highway_env/vehicle/kinematics.py
+++ b/highway_env/vehicle/kinematics.py
@@ -146,7 +146,7 @@ class Vehicle(object):
         if self.speed > self.MAX_SPEED:
             self.action['acceleration'] = min(self.action['acceleration'], 1.0 * (self.MAX_SPEED - self.speed))
         elif self.speed < -self.MAX_SPEED:
-            self.action['acceleration'] = max(self.action['acceleration'], 1.0 * (self.MAX_SPEED - self.speed))
+            self.action['acceleration'] = max(self.action['acceleration'], 1.0 * (-self.MAX_SPEED - self.speed))
 
     def on_state_update(self) -> None:
         if self.road:
-- 
2.43.0


From 1921fc213a168247e48fb01a4703d2a37aef1c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 03/44] fix: return no vehicles when close_vehicles_to is asked
 for zero

---
 highway_env/road/road.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/road/road.py b/highway_env/road/road.py
index dcc3fbc..2e56e3f 100644
--- a/highway_env/road/road.py
+++ b/highway_env/road/road.py
@@ -263,7 +263,7 @@ class Road(object):
                     and (see_behind or -2 * vehicle.LENGTH < vehicle.lane_distance_to(v))]
 
         vehicles = sorted(vehicles, key=lambda v: abs(vehicle.lane_distance_to(v)))
-        if count:
+        if count is not None:
             vehicles = vehicles[:count]
         return vehicles
 
-- 
2.43.0


From 1cfbe9fb91ed9d81a868e892c9184aec1b38eac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:08 +0000
Subject: [PATCH 04/44] fix: compute the occupancy grid shape from the default
 grid step when none is given

---
 highway_env/envs/common/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/observation.py b/highway_env/envs/common/observation.py
index db0571a..b8d6100 100644
--- a/highway_env/envs/common/observation.py
+++ b/highway_env/envs/common/observation.py
@@ -242,7 +242,7 @@ class OccupancyGridObservation(ObservationType):
         self.features = features if features is not None else self.FEATURES
         self.grid_size = np.array(grid_size) if grid_size is not None else np.array(self.GRID_SIZE)
         self.grid_step = np.array(grid_step) if grid_step is not None else np.array(self.GRID_STEP)
-        grid_shape = np.asarray(np.floor((self.grid_size[:, 1] - self.grid_size[:, 0]) / grid_step), dtype=np.int)
+        grid_shape = np.asarray(np.floor((self.grid_size[:, 1] - self.grid_size[:, 0]) / self.grid_step), dtype=np.int)
         self.grid = np.zeros((len(self.features), *grid_shape))
         self.features_range = features_range
         self.absolute = absolute
-- 
2.43.0


From 8633345900d44b2da536582693d8284686fce47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:09 +0000
Subject: [PATCH 05/44] fix: do not show vehicles just outside the low edges of
 the occupancy grid

---
 highway_env/envs/common/observation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/highway_env/envs/common/observation.py b/highway_env/envs/common/observation.py
index b8d6100..c42307d 100644
--- a/highway_env/envs/common/observation.py
+++ b/highway_env/envs/common/observation.py
@@ -289,8 +289,8 @@ class OccupancyGridObservation(ObservationType):
                         x = utils.lmap(x, [-1, 1], [self.features_range["x"][0], self.features_range["x"][1]])
                     if "y" in self.features_range:
                         y = utils.lmap(y, [-1, 1], [self.features_range["y"][0], self.features_range["y"][1]])
-                    cell = (int((x - self.grid_size[0, 0]) / self.grid_step[0]),
-                            int((y - self.grid_size[1, 0]) / self.grid_step[1]))
+                    cell = (int(np.floor((x - self.grid_size[0, 0]) / self.grid_step[0])),
+                            int(np.floor((y - self.grid_size[1, 0]) / self.grid_step[1])))
                     if 0 <= cell[1] < self.grid.shape[-2] and 0 <= cell[0] < self.grid.shape[-1]:
                         self.grid[layer, cell[1], cell[0]] = vehicle[feature]
             # Clip
-- 
2.43.0


From 557891ba8381ac0acdb2c08dc6eba40c7faf2fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:10 +0000
Subject: [PATCH 06/44] fix: shape the occupancy grid as (features, y, x),
 matching how it is filled

---
 highway_env/envs/common/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/observation.py b/highway_env/envs/common/observation.py
index c42307d..39c79f6 100644
--- a/highway_env/envs/common/observation.py
+++ b/highway_env/envs/common/observation.py
@@ -243,7 +243,7 @@ class OccupancyGridObservation(ObservationType):
         self.grid_size = np.array(grid_size) if grid_size is not None else np.array(self.GRID_SIZE)
         self.grid_step = np.array(grid_step) if grid_step is not None else np.array(self.GRID_STEP)
         grid_shape = np.asarray(np.floor((self.grid_size[:, 1] - self.grid_size[:, 0]) / self.grid_step), dtype=np.int)
-        self.grid = np.zeros((len(self.features), *grid_shape))
+        self.grid = np.zeros((len(self.features), *grid_shape[::-1]))
         self.features_range = features_range
         self.absolute = absolute
 
-- 
2.43.0


From 649e45f1eca83037bad044027080a441df3c5f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:11 +0000
Subject: [PATCH 07/44] fix: restore the missing factor 2 in the yaw row of the
 lateral LPV input matrix

---
 highway_env/vehicle/dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/dynamics.py b/highway_env/vehicle/dynamics.py
index 455d096..288153a 100644
--- a/highway_env/vehicle/dynamics.py
+++ b/highway_env/vehicle/dynamics.py
@@ -113,7 +113,7 @@ class BicycleVehicle(Vehicle):
         """
         B = np.array([
             [2*self.FRICTION_FRONT / self.MASS],
-            [self.FRICTION_FRONT * self.LENGTH_A / self.INERTIA_Z]
+            [2*self.FRICTION_FRONT * self.LENGTH_A / self.INERTIA_Z]
         ])
 
         speed_body_x = self.speed
-- 
2.43.0


From 5581a847c4cf14d8f05490ec9a3c9eaabd5acd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:12 +0000
Subject: [PATCH 08/44] fix: do not overwrite the ego-vehicle's field in
 set_vehicle_field

---
 highway_env/envs/common/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/abstract.py b/highway_env/envs/common/abstract.py
index ccbcf9a..35e37fd 100644
--- a/highway_env/envs/common/abstract.py
+++ b/highway_env/envs/common/abstract.py
@@ -360,7 +360,7 @@ class AbstractEnv(gym.Env):
         field, value = args
         env_copy = copy.deepcopy(self)
         for v in env_copy.road.vehicles:
-            if v is not self.vehicle:
+            if v is not env_copy.vehicle:
                 setattr(v, field, value)
         return env_copy
 
-- 
2.43.0


From dc40ade23d2cd1100163da348e5fb9a9c0f3b7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:35 +0000
Subject: [PATCH 09/44] fix: make the tuple multi-agent intersection
 environment constructible

---
 highway_env/envs/intersection_env.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/highway_env/envs/intersection_env.py b/highway_env/envs/intersection_env.py
index 5e54e2a..7e79eda 100644
--- a/highway_env/envs/intersection_env.py
+++ b/highway_env/envs/intersection_env.py
@@ -262,7 +262,9 @@ class MultiAgentIntersectionEnv(IntersectionEnv):
         return config
 
 
-TupleMultiAgentIntersectionEnv = MultiAgentWrapper(MultiAgentIntersectionEnv)
+class TupleMultiAgentIntersectionEnv(MultiAgentWrapper):
+    def __init__(self, config: dict = None) -> None:
+        super().__init__(MultiAgentIntersectionEnv(config))
 
 
 register(
-- 
2.43.0


From 0c5985dcfd3438969242312b3ee34a25a1c7682a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:16 +0000
Subject: [PATCH 10/44] fix: honour a planned preference for lane 0 in the
 MOBIL policy

---
 highway_env/vehicle/behavior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/behavior.py b/highway_env/vehicle/behavior.py
index 122c82e..86b6c01 100644
--- a/highway_env/vehicle/behavior.py
+++ b/highway_env/vehicle/behavior.py
@@ -249,7 +249,7 @@ class IDMVehicle(ControlledVehicle):
         # Do I have a planned route for a specific lane which is safe for me to access?
         old_preceding, old_following = self.road.neighbour_vehicles(self)
         self_pred_a = self.acceleration(ego_vehicle=self, front_vehicle=new_preceding)
-        if self.route and self.route[0][2]:
+        if self.route and self.route[0][2] is not None:
             # Wrong direction
             if np.sign(lane_index[2] - self.target_lane_index[2]) != np.sign(self.route[0][2] - self.target_lane_index[2]):
                 return False
-- 
2.43.0


From f366a927ff47e72233947932f050e48c26d86fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:16 +0000
Subject: [PATCH 11/44] fix: align objects made on a lane with it instead of
 giving them its heading as speed

---
 highway_env/road/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/road/objects.py b/highway_env/road/objects.py
index 146e6bd..55f291f 100644
--- a/highway_env/road/objects.py
+++ b/highway_env/road/objects.py
@@ -43,7 +43,7 @@ class RoadObject(ABC):
         :return: An object with at the specified position
         """
         lane = road.network.get_lane(lane_index)
-        return cls(road, lane.position(longitudinal, 0), lane.heading_at(longitudinal))
+        return cls(road, lane.position(longitudinal, 0), heading=lane.heading_at(longitudinal))
 
     # Just added for sake of compatibility
     def to_dict(self, origin_vehicle=None, observe_intentions=True):
-- 
2.43.0


From 20457db49e636cb99dd5a50b1be31765be355223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:52 +0000
Subject: [PATCH 12/44] fix: size the TTC grid by the observer's road, not the
 first vehicle's

---
 highway_env/envs/common/finite_mdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/finite_mdp.py b/highway_env/envs/common/finite_mdp.py
index 938e9ac..6c9e273 100644
--- a/highway_env/envs/common/finite_mdp.py
+++ b/highway_env/envs/common/finite_mdp.py
@@ -95,7 +95,7 @@ def compute_ttc_grid(env: 'AbstractEnv',
     :return: the time-co-collision grid, with axes SPEED x LANES x TIME
     """
     vehicle = vehicle or env.vehicle
-    road_lanes = env.road.network.all_side_lanes(env.vehicle.lane_index)
+    road_lanes = env.road.network.all_side_lanes(vehicle.lane_index)
     grid = np.zeros((vehicle.SPEED_COUNT, len(road_lanes), int(horizon / time_quantization)))
     for speed_index in range(grid.shape[0]):
         ego_speed = vehicle.index_to_speed(speed_index)
-- 
2.43.0


From 9e6834df104f607d4093df673523aeea542e877d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:59 +0000
Subject: [PATCH 13/44] fix: keep the 3x3 shape of the TTC observation for a
 single-speed vehicle

---
 highway_env/envs/common/observation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/highway_env/envs/common/observation.py b/highway_env/envs/common/observation.py
index 39c79f6..9204f95 100644
--- a/highway_env/envs/common/observation.py
+++ b/highway_env/envs/common/observation.py
@@ -110,7 +110,8 @@ class TimeToCollisionObservation(ObservationType):
         lf = grid.shape[1] + self.observer_vehicle.lane_index[2] + obs_lanes // 2
         clamped_grid = padded_grid[:, l0:lf+1, :]
         repeats = np.ones(clamped_grid.shape[0])
-        repeats[np.array([0, -1])] += clamped_grid.shape[0]
+        repeats[0] += clamped_grid.shape[0]
+        repeats[-1] += clamped_grid.shape[0]
         padded_grid = np.repeat(clamped_grid, repeats.astype(int), axis=0)
         obs_speeds = 3
         v0 = grid.shape[0] + self.observer_vehicle.speed_index - obs_speeds // 2
-- 
2.43.0


From d535e2383a7400f484e094ac60a1f75c1b0ff8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:45 +0000
Subject: [PATCH 14/44] fix: keep a target speed of zero when creating a
 controlled vehicle

---
 highway_env/vehicle/controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/controller.py b/highway_env/vehicle/controller.py
index fdbc86c..81807a7 100644
--- a/highway_env/vehicle/controller.py
+++ b/highway_env/vehicle/controller.py
@@ -38,7 +38,7 @@ class ControlledVehicle(Vehicle):
                  route: Route = None):
         super().__init__(road, position, heading, speed)
         self.target_lane_index = target_lane_index or self.lane_index
-        self.target_speed = target_speed or self.speed
+        self.target_speed = target_speed if target_speed is not None else self.speed
         self.route = route
 
     @classmethod
-- 
2.43.0


From 265e047e7c4304b41f224b7a568017bb3dc4ff68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:45 +0000
Subject: [PATCH 15/44] fix: let set_preferred_lane choose lane 0 and work for
 vehicles without a route

---
 highway_env/envs/common/abstract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/highway_env/envs/common/abstract.py b/highway_env/envs/common/abstract.py
index 35e37fd..0288158 100644
--- a/highway_env/envs/common/abstract.py
+++ b/highway_env/envs/common/abstract.py
@@ -341,10 +341,10 @@ class AbstractEnv(gym.Env):
 
     def set_preferred_lane(self, preferred_lane: int = None) -> 'AbstractEnv':
         env_copy = copy.deepcopy(self)
-        if preferred_lane:
+        if preferred_lane is not None:
             for v in env_copy.road.vehicles:
                 if isinstance(v, IDMVehicle):
-                    v.route = [(lane[0], lane[1], preferred_lane) for lane in v.route]
+                    v.route = [(lane[0], lane[1], preferred_lane) for lane in v.route or [v.lane_index]]
                     # Vehicle with lane preference are also less cautious
                     v.LANE_CHANGE_MAX_BRAKING_IMPOSED = 1000
         return env_copy
-- 
2.43.0


From 71715867706a1069fbc7e1302b5f15d3078c3c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:21 +0000
Subject: [PATCH 16/44] fix: keep the component axis of one-dimensional systems
 when changing coordinates of an interval

squeeze() dropped the axis of the single component too, so adding the center
of a one-dimensional LPV broadcast the interval to a 2x2 array.
---
 highway_env/interval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/highway_env/interval.py b/highway_env/interval.py
index 1f227fe..87df269 100644
--- a/highway_env/interval.py
+++ b/highway_env/interval.py
@@ -245,12 +245,12 @@ class LPV(object):
         transformation, transformation_inv = self.coordinates
         if interval:
             if back:
-                value = intervals_scaling(transformation, value[:, :, np.newaxis]).squeeze() + \
+                value = intervals_scaling(transformation, value[:, :, np.newaxis]).squeeze(axis=-1) + \
                         offset * np.array([self.center, self.center])
                 return value
             else:
                 value = value - offset * np.array([self.center, self.center])
-                value = intervals_scaling(transformation_inv, value[:, :, np.newaxis]).squeeze()
+                value = intervals_scaling(transformation_inv, value[:, :, np.newaxis]).squeeze(axis=-1)
                 return value
         elif matrix:  # Matrix
             if back:
-- 
2.43.0


From f7ec026d0bc308dd85497fd08ed983aadaed8435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:57 +0000
Subject: [PATCH 17/44] fix: explore the roads leaving a node in the order of
 the network

The search iterated over a set of node names, so the route chosen among
equally short ones changed from process to process with string hashing,
whatever the seed.
---
 highway_env/road/road.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/road/road.py b/highway_env/road/road.py
index 2e56e3f..a31a79e 100644
--- a/highway_env/road/road.py
+++ b/highway_env/road/road.py
@@ -121,7 +121,7 @@ class RoadNetwork(object):
             (node, path) = queue.pop(0)
             if node not in self.graph:
                 yield []
-            for _next in set(self.graph[node].keys()) - set(path):
+            for _next in [n for n in self.graph[node].keys() if n not in path]:
                 if _next == goal:
                     yield path + [_next]
                 elif _next in self.graph:
-- 
2.43.0


From 63af1b558eaaa9279e2b90ee88e8ad978b5026cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:16 +0000
Subject: [PATCH 18/44] fix: pan the displayed area without changing the
 centring shared by all surfaces

---
 highway_env/road/graphics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/highway_env/road/graphics.py b/highway_env/road/graphics.py
index 85de007..7771972 100644
--- a/highway_env/road/graphics.py
+++ b/highway_env/road/graphics.py
@@ -95,9 +95,9 @@ class WorldSurface(pygame.Surface):
             if event.key == pygame.K_o:
                 self.scaling *= self.SCALING_FACTOR
             if event.key == pygame.K_m:
-                self.centering_position[0] -= self.MOVING_FACTOR
+                self.centering_position = [self.centering_position[0] - self.MOVING_FACTOR, self.centering_position[1]]
             if event.key == pygame.K_k:
-                self.centering_position[0] += self.MOVING_FACTOR
+                self.centering_position = [self.centering_position[0] + self.MOVING_FACTOR, self.centering_position[1]]
 
 
 class LaneGraphics(object):
-- 
2.43.0


From b149c7badbfdae9089ec8417ba302fdc1529f734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:16 +0000
Subject: [PATCH 19/44] fix: remove every vehicle close to a controlled vehicle
 of the intersection, and no controlled vehicle

---
 highway_env/envs/intersection_env.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/highway_env/envs/intersection_env.py b/highway_env/envs/intersection_env.py
index 7e79eda..8d1ef17 100644
--- a/highway_env/envs/intersection_env.py
+++ b/highway_env/envs/intersection_env.py
@@ -194,9 +194,9 @@ class IntersectionEnv(AbstractEnv):
 
             self.road.vehicles.append(ego_vehicle)
             self.controlled_vehicles.append(ego_vehicle)
-            for v in self.road.vehicles:  # Prevent early collisions
-                if v is not ego_vehicle and np.linalg.norm(v.position - ego_vehicle.position) < 20:
-                    self.road.vehicles.remove(v)
+            self.road.vehicles = [v for v in self.road.vehicles  # Prevent early collisions
+                                  if v in self.controlled_vehicles
+                                  or np.linalg.norm(v.position - ego_vehicle.position) >= 20]
 
     def _spawn_vehicle(self,
                        longitudinal: float = 0,
-- 
2.43.0


From d37d5a678a26ca3c91343ff6843208e250de4513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:16 +0000
Subject: [PATCH 20/44] fix: remove every vehicle close to the ego-vehicle when
 summoning

---
 highway_env/envs/summon_env.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/highway_env/envs/summon_env.py b/highway_env/envs/summon_env.py
index 08afc8e..4d8647f 100644
--- a/highway_env/envs/summon_env.py
+++ b/highway_env/envs/summon_env.py
@@ -98,9 +98,8 @@ class SummonEnv(ParkingEnv):
                 lane = ("a", "b", i) if self.np_random.rand() >= 0.5 else ("b", "c", i)
                 self.road.vehicles.append(Vehicle.make_on_lane(self.road, lane, 4, speed=0))
 
-        for v in self.road.vehicles:  # Prevent early collisions
-            if v is not self.vehicle and np.linalg.norm(v.position - self.vehicle.position) < 20:
-                self.road.vehicles.remove(v)
+        self.road.vehicles = [v for v in self.road.vehicles  # Prevent early collisions
+                              if v is self.vehicle or np.linalg.norm(v.position - self.vehicle.position) >= 20]
 
     def compute_reward(self, achieved_goal: np.ndarray, desired_goal: np.ndarray, info: dict, p: float = 0.5) -> float:
         """
-- 
2.43.0


From afe7e6980d9144241c98b4a8569b27b3c5d92329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:17 +0000
Subject: [PATCH 21/44] fix: update the rendering after a reset or a step that
 was not rendered

---
 highway_env/envs/common/abstract.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/highway_env/envs/common/abstract.py b/highway_env/envs/common/abstract.py
index 0288158..58bc880 100644
--- a/highway_env/envs/common/abstract.py
+++ b/highway_env/envs/common/abstract.py
@@ -162,6 +162,7 @@ class AbstractEnv(gym.Env):
         self.define_spaces()  # First, to set the controlled vehicle class depending on action space
         self.time = self.steps = 0
         self.done = False
+        self.should_update_rendering = True
         self._reset()
         self.define_spaces()  # Second, to link the obs and actions to the vehicles once the scene is created
         return self.observation_type.observe()
@@ -218,6 +219,7 @@ class AbstractEnv(gym.Env):
             self.road.act()
             self.road.step(1 / self.config["simulation_frequency"])
             self.time += 1
+            self.should_update_rendering = True
 
             # Automatically render intermediate simulation steps if a viewer has been launched
             # Ignored if the rendering is done offscreen
-- 
2.43.0


From 63cba9b2d295b708b053a6ba2f8af6aafc217de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:18 +0000
Subject: [PATCH 22/44] fix: declare the range of the pixels in the grayscale
 observation space

---
 highway_env/envs/common/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/observation.py b/highway_env/envs/common/observation.py
index 9204f95..e177e42 100644
--- a/highway_env/envs/common/observation.py
+++ b/highway_env/envs/common/observation.py
@@ -69,7 +69,7 @@ class GrayscaleObservation(ObservationType):
     def space(self) -> spaces.Space:
         try:
             return spaces.Box(shape=self.shape,
-                              low=0, high=1,
+                              low=0, high=255,
                               dtype=np.float32)
         except AttributeError:
             return spaces.Space()
-- 
2.43.0


From c148240915cb3212d343eb1e6f3a2586d9ee14b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:18 +0000
Subject: [PATCH 23/44] fix: ignore the lane change key when lateral actions
 are disabled

---
 highway_env/envs/common/graphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/graphics.py b/highway_env/envs/common/graphics.py
index c64ec74..f391703 100644
--- a/highway_env/envs/common/graphics.py
+++ b/highway_env/envs/common/graphics.py
@@ -174,7 +174,7 @@ class EventHandler(object):
                 action_type.act(action_type.actions_indexes["SLOWER"])
             if event.key == pygame.K_DOWN and action_type.lateral:
                 action_type.act(action_type.actions_indexes["LANE_RIGHT"])
-            if event.key == pygame.K_UP:
+            if event.key == pygame.K_UP and action_type.lateral:
                 action_type.act(action_type.actions_indexes["LANE_LEFT"])
 
     @classmethod
-- 
2.43.0


From 19dfd636b041d723f9e75c550015c3a449bf9ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:28 +0000
Subject: [PATCH 24/44] fix: label the displayed action sequence by the action
 type, not by an attribute most environments lack

---
 highway_env/envs/common/graphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/graphics.py b/highway_env/envs/common/graphics.py
index f391703..2b9ecd4 100644
--- a/highway_env/envs/common/graphics.py
+++ b/highway_env/envs/common/graphics.py
@@ -73,7 +73,7 @@ class EnvViewer(object):
         :param actions: list of action, following the env's action space specification
         """
         if isinstance(self.env.action_space, Discrete):
-            actions = [self.env.ACTIONS[a] for a in actions]
+            actions = [self.env.action_type.actions[a] for a in actions]
         if len(actions) > 1:
             self.vehicle_trajectory = self.env.vehicle.predict_trajectory(actions,
                                                                           1 / self.env.config["policy_frequency"],
-- 
2.43.0


From f94538e29d7483e3ee193d921a8ebe6420fc4415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:50 +0000
Subject: [PATCH 25/44] fix: lay grayscale images out as W x H, as documented,
 instead of reshaping them

---
 highway_env/envs/common/observation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/highway_env/envs/common/observation.py b/highway_env/envs/common/observation.py
index e177e42..a2fcd96 100644
--- a/highway_env/envs/common/observation.py
+++ b/highway_env/envs/common/observation.py
@@ -75,8 +75,7 @@ class GrayscaleObservation(ObservationType):
             return spaces.Space()
 
     def observe(self) -> np.ndarray:
-        new_obs = self._record_to_grayscale()
-        new_obs = np.reshape(new_obs, self.observation_shape)
+        new_obs = self._record_to_grayscale().T  # H x W -> W x H
         self.state = np.roll(self.state, -1, axis=-1)
         self.state[:, :, -1] = new_obs
         return self.state
-- 
2.43.0


From 7bcc940d793828801b0159db221b9085939c1f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:07 +0000
Subject: [PATCH 26/44] fix: display the history of vehicles at simulation
 frequencies below the display frequency

---
 highway_env/vehicle/graphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/graphics.py b/highway_env/vehicle/graphics.py
index 17ced80..af51303 100644
--- a/highway_env/vehicle/graphics.py
+++ b/highway_env/vehicle/graphics.py
@@ -136,7 +136,7 @@ class VehicleGraphics(object):
         for v in itertools.islice(vehicle.history,
                                   None,
                                   int(simulation * duration),
-                                  int(simulation / frequency)):
+                                  max(1, int(simulation / frequency))):
             cls.display(v, surface, transparent=True, offscreen=offscreen)
 
     @classmethod
-- 
2.43.0


From 9621a1e0340e905b1a29ecf038f75ceccd2e0c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:29 +0000
Subject: [PATCH 27/44] fix: confidence polytope along the Gramian's principal
 axes, with the radius of the ellipsoid it bounds

---
 highway_env/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/utils.py b/highway_env/utils.py
index 4959336..c9dc988 100644
--- a/highway_env/utils.py
+++ b/highway_env/utils.py
@@ -154,7 +154,7 @@ def confidence_polytope(data: dict, parameter_box: np.ndarray) -> Tuple[np.ndarr
     theta_n_lambda, g_n_lambda, beta_n = confidence_ellipsoid(data, param_bound=param_bound)
 
     values, pp = np.linalg.eig(g_n_lambda)
-    radius_matrix = np.sqrt(beta_n) * np.linalg.inv(pp) @ np.diag(np.sqrt(1 / values))
+    radius_matrix = beta_n * pp @ np.diag(np.sqrt(1 / values))
     h = np.array(list(itertools.product([-1, 1], repeat=theta_n_lambda.shape[0])))
     d_theta = np.array([radius_matrix @ h_k for h_k in h])
 
-- 
2.43.0


From 23981f32cce290e38c2be0948180cb9194ea73c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:15 +0000
Subject: [PATCH 28/44] fix: predict trajectories for as many steps as the
 actions last, also when saving a state more often than a step or when
 durations are not exact

---
 highway_env/vehicle/controller.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/highway_env/vehicle/controller.py b/highway_env/vehicle/controller.py
index 81807a7..14e1948 100644
--- a/highway_env/vehicle/controller.py
+++ b/highway_env/vehicle/controller.py
@@ -288,12 +288,15 @@ class MDPVehicle(ControlledVehicle):
         states = []
         v = copy.deepcopy(self)
         t = 0
+        # Quotients of durations, whatever the rounding errors
+        action_steps = int(action_duration / dt + 1e-6)
+        trajectory_steps = max(int(trajectory_timestep / dt + 1e-6), 1)
         for action in actions:
             v.act(action)  # High-level decision
-            for _ in range(int(action_duration / dt)):
+            for _ in range(action_steps):
                 t += 1
                 v.act()  # Low-level control action
                 v.step(dt)
-                if (t % int(trajectory_timestep / dt)) == 0:
+                if (t % trajectory_steps) == 0:
                     states.append(copy.deepcopy(v))
         return states
-- 
2.43.0


From e9574fad48d3a7433fd812635c235bb073f2297d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:06 +0000
Subject: [PATCH 29/44] fix: express disturbances and nominal state of an LPV
 in the coordinates of its dynamics

---
 highway_env/interval.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/highway_env/interval.py b/highway_env/interval.py
index 87df269..ffe06c1 100644
--- a/highway_env/interval.py
+++ b/highway_env/interval.py
@@ -220,6 +220,8 @@ class LPV(object):
         self.a0 = self.change_coordinates(self.a0, matrix=True)
         self.da = self.change_coordinates(self.da, matrix=True)
         self.b = self.change_coordinates(self.b, offset=False)
+        self.d = self.change_coordinates(self.d, offset=False)
+        self.x_t = self.change_coordinates(self.x0.copy())
         self.x_i_t = np.array(self.change_coordinates([x for x in self.x_i]))
 
     def set_control(self, control: np.ndarray, state: np.ndarray = None) -> None:
-- 
2.43.0


From 7bf258d44d3e41b9fcb8b6583d7fbaec7b6e1a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:06 +0000
Subject: [PATCH 30/44] fix: let interval vehicles without data collect some

---
 highway_env/vehicle/uncertainty/prediction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/uncertainty/prediction.py b/highway_env/vehicle/uncertainty/prediction.py
index 79785a7..7b93ee7 100644
--- a/highway_env/vehicle/uncertainty/prediction.py
+++ b/highway_env/vehicle/uncertainty/prediction.py
@@ -56,7 +56,7 @@ class IntervalVehicle(LinearVehicle):
                          timer)
         self.theta_a_i = theta_a_i if theta_a_i is not None else LinearVehicle.ACCELERATION_RANGE
         self.theta_b_i = theta_b_i if theta_b_i is not None else LinearVehicle.STEERING_RANGE
-        self.data = data
+        self.data = data if data is not None else {}
         self.interval = VehicleInterval(self)
         self.trajectory = []
         self.interval_trajectory = []
-- 
2.43.0


From 352691610170f2617f53a461d5f880b4fd1bc43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:06 +0000
Subject: [PATCH 31/44] fix: keep the lane number in the routes at an
 intersection only on roads that have such a lane

---
 highway_env/vehicle/controller.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/highway_env/vehicle/controller.py b/highway_env/vehicle/controller.py
index 14e1948..90f5b46 100644
--- a/highway_env/vehicle/controller.py
+++ b/highway_env/vehicle/controller.py
@@ -165,7 +165,11 @@ class ControlledVehicle(Vehicle):
         else:
             return [self.route]
         next_destinations_from = list(next_destinations.keys())
-        routes = [self.route[0:index+1] + [(self.route[index][1], destination, self.route[index][2])]
+        lane_id = self.route[index][2]
+        routes = [self.route[0:index+1] + [(self.route[index][1], destination,
+                                            # The next road may have fewer lanes
+                                            lane_id if lane_id is None or lane_id < len(next_destinations[destination])
+                                            else None)]
                   for destination in next_destinations_from]
         return routes
 
-- 
2.43.0


From 90f650e81fd11a09f98f1f8207525a597f2f02e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:06 +0000
Subject: [PATCH 32/44] fix: keep the last lane of a route hypothesis, and
 predict without data

---
 highway_env/vehicle/uncertainty/estimation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/highway_env/vehicle/uncertainty/estimation.py b/highway_env/vehicle/uncertainty/estimation.py
index ec6a504..6c05793 100644
--- a/highway_env/vehicle/uncertainty/estimation.py
+++ b/highway_env/vehicle/uncertainty/estimation.py
@@ -14,10 +14,10 @@ class RegressionVehicle(IntervalVehicle):
     """Estimator for the parameter of a LinearVehicle."""
 
     def longitudinal_matrix_polytope(self) -> Polytope:
-        return self.polytope_from_estimation(self.data["longitudinal"], self.theta_a_i, self.longitudinal_structure)
+        return self.polytope_from_estimation(self.data.get("longitudinal"), self.theta_a_i, self.longitudinal_structure)
 
     def lateral_matrix_polytope(self) -> Polytope:
-        return self.polytope_from_estimation(self.data["lateral"], self.theta_b_i, self.lateral_structure)
+        return self.polytope_from_estimation(self.data.get("lateral"), self.theta_b_i, self.lateral_structure)
 
     def polytope_from_estimation(self, data: dict, parameter_box: np.ndarray, structure: Callable[[], Polytope])\
             -> Polytope:
@@ -81,7 +81,7 @@ class MultipleModelVehicle(LinearVehicle):
 
         # Step the lane being followed in each possible route
         for route, _ in self.data:
-            if self.road.network.get_lane(route[0]).after_end(self.position):
+            if len(route) > 1 and self.road.network.get_lane(route[0]).after_end(self.position):
                 route.pop(0)
 
         # Reject inconsistent hypotheses
-- 
2.43.0


From f010fd4f5e73db764a15944874e958d3f9d47bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:06 +0000
Subject: [PATCH 33/44] fix: contain low speeds and headings of any number of
 turns in the interval observer

---
 highway_env/vehicle/uncertainty/prediction.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/highway_env/vehicle/uncertainty/prediction.py b/highway_env/vehicle/uncertainty/prediction.py
index 7b93ee7..278d9aa 100644
--- a/highway_env/vehicle/uncertainty/prediction.py
+++ b/highway_env/vehicle/uncertainty/prediction.py
@@ -128,7 +128,10 @@ class IntervalVehicle(LinearVehicle):
             lane_psi = lane.heading_at(longitudinal_pursuit)
             _, lateral_i = interval_absolute_to_local(position_i, lane)
             lateral_i = -np.flip(lateral_i)
-            i_v_i = 1/np.flip(v_i, 0)
+            # Interval of 1/v, with v bounded away from 0 like in the steering control
+            i_v_i = np.array([1/utils.not_zero(v) for v in np.flip(v_i, 0)])
+            if v_i[0] <= 0 < v_i[1]:
+                i_v_i = np.array([1, -1])/utils.not_zero(0)
             phi_b_i_lane = np.transpose(np.array([
                 [0, 0],
                 intervals_product(lateral_i, i_v_i)]))
@@ -160,10 +163,12 @@ class IntervalVehicle(LinearVehicle):
         d_psi_i += b_i
 
         # Position interval
-        cos_i = [-1 if psi_i[0] <= np.pi <= psi_i[1] else min(map(np.cos, psi_i)),
-                 1 if psi_i[0] <= 0 <= psi_i[1] else max(map(np.cos, psi_i))]
-        sin_i = [-1 if psi_i[0] <= -np.pi/2 <= psi_i[1] else min(map(np.sin, psi_i)),
-                 1 if psi_i[0] <= np.pi/2 <= psi_i[1] else max(map(np.sin, psi_i))]
+        turns_i = lambda angle: (psi_i - angle)/(2*np.pi)
+        is_reached = lambda angle: np.ceil(turns_i(angle)[0]) <= turns_i(angle)[1]  # up to whole turns
+        cos_i = [-1 if is_reached(np.pi) else min(map(np.cos, psi_i)),
+                 1 if is_reached(0) else max(map(np.cos, psi_i))]
+        sin_i = [-1 if is_reached(-np.pi/2) else min(map(np.sin, psi_i)),
+                 1 if is_reached(np.pi/2) else max(map(np.sin, psi_i))]
         dx_i = intervals_product(v_i, cos_i)
         dy_i = intervals_product(v_i, sin_i)
 
-- 
2.43.0


From 26df70f31ae2b7f52a7a0b36868a20143fd1b484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:06 +0000
Subject: [PATCH 34/44] fix: predict heading intervals in the absolute frame

---
 highway_env/vehicle/uncertainty/prediction.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/highway_env/vehicle/uncertainty/prediction.py b/highway_env/vehicle/uncertainty/prediction.py
index 278d9aa..8bd557f 100644
--- a/highway_env/vehicle/uncertainty/prediction.py
+++ b/highway_env/vehicle/uncertainty/prediction.py
@@ -197,10 +197,8 @@ class IntervalVehicle(LinearVehicle):
         if self.target_lane_index != self.previous_target_lane_index:
             position_i = self.interval.position
             target_lane = self.road.network.get_lane(self.target_lane_index)
-            previous_target_lane = self.road.network.get_lane(self.previous_target_lane_index)
             longi_i, lat_i = interval_absolute_to_local(position_i, target_lane)
-            psi_i = self.interval.heading + \
-                    target_lane.heading_at(longi_i.mean()) - previous_target_lane.heading_at(longi_i.mean())
+            psi_i = self.interval.heading - target_lane.heading_at(longi_i.mean())
             x_i_local_unrotated = np.transpose([lat_i, psi_i])
             new_x_i_t = self.lateral_lpv.change_coordinates(x_i_local_unrotated, back=False, interval=True)
             delta = new_x_i_t.mean(axis=0) - self.lateral_lpv.x_i_t.mean(axis=0)
@@ -228,7 +226,7 @@ class IntervalVehicle(LinearVehicle):
         position_i = interval_local_to_absolute(x_i_long[:, 0], x_i_lat[:, 0], target_lane)
         self.interval.position = position_i
         self.interval.speed = x_i_long[:, 2]
-        self.interval.heading = x_i_lat[:, 1]
+        self.interval.heading = x_i_lat[:, 1] + target_lane.heading_at(x_i_long[:, 0].mean())
 
     def predictor_init(self) -> None:
         """Initialize the LPV models used for interval prediction."""
@@ -236,7 +234,7 @@ class IntervalVehicle(LinearVehicle):
         target_lane = self.road.network.get_lane(self.target_lane_index)
         longi_i, lat_i = interval_absolute_to_local(position_i, target_lane)
         v_i = self.interval.speed
-        psi_i = self.interval.heading - self.lane.heading_at(longi_i.mean())
+        psi_i = self.interval.heading - target_lane.heading_at(longi_i.mean())
 
         # Longitudinal predictor
         if not self.longitudinal_lpv:
-- 
2.43.0


From 84a132d28727096affdcf8c5050299acedbfe2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:09 +0000
Subject: [PATCH 35/44] fix: do not let route hypotheses change the vehicle's
 own route, nor follow its changes

---
 highway_env/vehicle/uncertainty/estimation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/highway_env/vehicle/uncertainty/estimation.py b/highway_env/vehicle/uncertainty/estimation.py
index 6c05793..1e8f1e6 100644
--- a/highway_env/vehicle/uncertainty/estimation.py
+++ b/highway_env/vehicle/uncertainty/estimation.py
@@ -67,8 +67,8 @@ class MultipleModelVehicle(LinearVehicle):
 
         for route in self.get_routes_at_intersection():  # Candidates
             # Unknown lane -> first lane
-            for i, lane_index in enumerate(route):
-                route[i] = lane_index if lane_index[2] is not None else (lane_index[0], lane_index[1], 0)
+            route = [lane_index if lane_index[2] is not None else (lane_index[0], lane_index[1], 0)
+                     for lane_index in route]
             # Is this route already considered, or a suffix of a route already considered ?
             for known_route, _ in self.data:
                 if known_route == route:
@@ -77,7 +77,7 @@ class MultipleModelVehicle(LinearVehicle):
                     self.data = [(r, d) if r != known_route else (route, d) for r, d in self.data]
                     break
             else:
-                self.data.append((route.copy(), {}))  # Add it
+                self.data.append((route, {}))  # Add it
 
         # Step the lane being followed in each possible route
         for route, _ in self.data:
-- 
2.43.0


From c133e31c6bff6e9ddd92f3cf092ec9b944f1abdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:07 +0000
Subject: [PATCH 36/44] fix: contain the initial state interval of an LPV when
 changing its coordinates

---
 highway_env/interval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/interval.py b/highway_env/interval.py
index ffe06c1..5a12195 100644
--- a/highway_env/interval.py
+++ b/highway_env/interval.py
@@ -222,7 +222,7 @@ class LPV(object):
         self.b = self.change_coordinates(self.b, offset=False)
         self.d = self.change_coordinates(self.d, offset=False)
         self.x_t = self.change_coordinates(self.x0.copy())
-        self.x_i_t = np.array(self.change_coordinates([x for x in self.x_i]))
+        self.x_i_t = np.array(self.change_coordinates(self.x_i, interval=True))
 
     def set_control(self, control: np.ndarray, state: np.ndarray = None) -> None:
         if state is not None:
-- 
2.43.0


From 43499ac5853ad9d64499e4e3eb15d6c3d53048eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:36 +0000
Subject: [PATCH 37/44] fix: interval observer expects no safety distance gain
 from going backwards, like the linear model

---
 highway_env/vehicle/uncertainty/prediction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/uncertainty/prediction.py b/highway_env/vehicle/uncertainty/prediction.py
index 8bd557f..f0a716e 100644
--- a/highway_env/vehicle/uncertainty/prediction.py
+++ b/highway_env/vehicle/uncertainty/prediction.py
@@ -116,7 +116,7 @@ class IntervalVehicle(LinearVehicle):
             diff_i = intervals_diff(front_interval.position, position_i)
             d_i = vector_interval_section(diff_i, lane_direction)
 
-            d_safe_i = self.DISTANCE_WANTED + self.TIME_WANTED * v_i
+            d_safe_i = self.DISTANCE_WANTED + self.TIME_WANTED * np.maximum(v_i, 0)
             phi_a_i[:, 2] = interval_negative_part(intervals_diff(d_i, d_safe_i))
 
         # Steering features
-- 
2.43.0


From 2d98139613591a762f68cc390f808982c05bee10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:11 +0000
Subject: [PATCH 38/44] fix: the interval of a crashed vehicle is its state
 after the step, not before

---
 highway_env/vehicle/uncertainty/prediction.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/highway_env/vehicle/uncertainty/prediction.py b/highway_env/vehicle/uncertainty/prediction.py
index f0a716e..4c12083 100644
--- a/highway_env/vehicle/uncertainty/prediction.py
+++ b/highway_env/vehicle/uncertainty/prediction.py
@@ -80,15 +80,15 @@ class IntervalVehicle(LinearVehicle):
 
     def step(self, dt: float, mode: str = "partial") -> None:
         self.store_trajectories()
-        if self.crashed:
-            self.interval = VehicleInterval(self)
-        else:
+        if not self.crashed:
             if mode == "partial":
                 # self.observer_step(dt)
                 self.partial_observer_step(dt)
             elif mode == "predictor":
                 self.predictor_step(dt)
         super().step(dt)
+        if self.crashed:
+            self.interval = VehicleInterval(self)
 
     def observer_step(self, dt: float) -> None:
         """
-- 
2.43.0


From 7173930677a4e036d66aa22028836a4f3da3316b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:51 +0000
Subject: [PATCH 39/44] fix: a vehicle following a route hypothesis leaves the
 hypothesis and its data alone

---
 highway_env/vehicle/uncertainty/estimation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/highway_env/vehicle/uncertainty/estimation.py b/highway_env/vehicle/uncertainty/estimation.py
index 1e8f1e6..4ebaaf3 100644
--- a/highway_env/vehicle/uncertainty/estimation.py
+++ b/highway_env/vehicle/uncertainty/estimation.py
@@ -1,3 +1,4 @@
+import copy
 from typing import Callable, Union
 
 import numpy as np
@@ -103,6 +104,6 @@ class MultipleModelVehicle(LinearVehicle):
         route, data = self.data[index]
         vehicle = RegressionVehicle.create_from(self)
         vehicle.target_lane_index = route[0]
-        vehicle.route = route
-        vehicle.data = data
+        vehicle.route = route.copy()
+        vehicle.data = copy.deepcopy(data)
         return vehicle
-- 
2.43.0


From 961eefadd2c0f7985d99b912b4c4652ab4980677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:03 +0000
Subject: [PATCH 40/44] fix: enforce the road rules at every step longer than
 their period

---
 highway_env/road/regulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/road/regulation.py b/highway_env/road/regulation.py
index 0681a61..2c90dcd 100644
--- a/highway_env/road/regulation.py
+++ b/highway_env/road/regulation.py
@@ -20,7 +20,7 @@ class RegulatedRoad(Road):
 
     def step(self, dt: float) -> None:
         self.steps += 1
-        if self.steps % int(1 / dt / self.REGULATION_FREQUENCY) == 0:
+        if self.steps % max(int(1 / dt / self.REGULATION_FREQUENCY), 1) == 0:
             self.enforce_road_rules()
         return super().step(dt)
 
-- 
2.43.0


From d8301ee920fea7c134d8db67fcc3e7465c54f756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:03 +0000
Subject: [PATCH 41/44] fix: change the coordinates of lists backwards too,
 without changing the given vectors

---
 highway_env/interval.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/highway_env/interval.py b/highway_env/interval.py
index 5a12195..ac47cfe 100644
--- a/highway_env/interval.py
+++ b/highway_env/interval.py
@@ -260,16 +260,16 @@ class LPV(object):
             else:
                 return transformation_inv @ value @ transformation
         elif isinstance(value, list):  # List
-            return [self.change_coordinates(v, back) for v in value]
+            return [self.change_coordinates(v, back=back, offset=offset) for v in value]
         else:
             if back:
                 value = transformation @ value
                 if offset:
-                    value += self.center
+                    value = value + self.center
                 return value
             else:
                 if offset:
-                    value -= self.center
+                    value = value - self.center
                 return transformation_inv @ value
 
     def step(self, dt: float) -> None:
-- 
2.43.0


From 8ab47e9f2e2f37e5bd7ba03a15c699c9fcd874ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:51 +0000
Subject: [PATCH 42/44] fix: detect the intersection of rectangles that cross
 without a corner of one in the other

---
 highway_env/utils.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/highway_env/utils.py b/highway_env/utils.py
index c9dc988..449df65 100644
--- a/highway_env/utils.py
+++ b/highway_env/utils.py
@@ -95,29 +95,27 @@ def rotated_rectangles_intersect(rect1: Tuple[Vector, float, float, float],
     :param rect2: (center, length, width, angle)
     :return: do they?
     """
-    return has_corner_inside(rect1, rect2) or has_corner_inside(rect2, rect1)
+    return overlap_along_axes(rect1, rect2) and overlap_along_axes(rect2, rect1)
 
 
-def has_corner_inside(rect1: Tuple[Vector, float, float, float],
-                      rect2: Tuple[Vector, float, float, float]) -> bool:
+def overlap_along_axes(rect1: Tuple[Vector, float, float, float],
+                       rect2: Tuple[Vector, float, float, float]) -> bool:
     """
-    Check if rect1 has a corner inside rect2
+    Check if rect1 and rect2 overlap once projected on each of the axes of rect1
+
+    Two rectangles intersect if and only if they do so along the axes of both (separating axis theorem).
 
     :param rect1: (center, length, width, angle)
     :param rect2: (center, length, width, angle)
     """
     (c1, l1, w1, a1) = rect1
     (c2, l2, w2, a2) = rect2
-    c1 = np.array(c1)
-    l1v = np.array([l1/2, 0])
-    w1v = np.array([0, w1/2])
-    r1_points = np.array([[0, 0],
-                          - l1v, l1v, -w1v, w1v,
-                          - l1v - w1v, - l1v + w1v, + l1v - w1v, + l1v + w1v])
     c, s = np.cos(a1), np.sin(a1)
-    r = np.array([[c, -s], [s, c]])
-    rotated_r1_points = r.dot(r1_points.transpose()).transpose()
-    return any([point_in_rotated_rectangle(c1+np.squeeze(p), c2, l2, w2, a2) for p in rotated_r1_points])
+    r = np.array([[c, s], [-s, c]])
+    distance = np.abs(r.dot(np.array(c2) - np.array(c1)))
+    c, s = np.abs(np.cos(a2 - a1)), np.abs(np.sin(a2 - a1))
+    extent = np.array([l1 + l2 * c + w2 * s, w1 + l2 * s + w2 * c]) / 2
+    return bool(np.all(distance <= extent))
 
 
 def confidence_ellipsoid(data: Dict[str, np.ndarray], lambda_: float = 1e-5, delta: float = 0.1, sigma: float = 0.1,
-- 
2.43.0


From b43b12d44b9bf61c69acc7044fa87a9972a5b50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:42 +0000
Subject: [PATCH 43/44] fix: draw objects that are longer than wide around
 their position

The rectangle was drawn along the border of a square image, which is rotated around its centre.
---
 highway_env/road/graphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/road/graphics.py b/highway_env/road/graphics.py
index 7771972..b748df0 100644
--- a/highway_env/road/graphics.py
+++ b/highway_env/road/graphics.py
@@ -295,7 +295,7 @@ class RoadObjectGraphics:
         """
         o = object_
         s = pygame.Surface((surface.pix(o.LENGTH), surface.pix(o.LENGTH)), pygame.SRCALPHA)  # per-pixel alpha
-        rect = (0, surface.pix(o.WIDTH) / 2 - surface.pix(o.WIDTH) / 2, surface.pix(o.LENGTH), surface.pix(o.WIDTH))
+        rect = (0, surface.pix(o.LENGTH / 2 - o.WIDTH / 2), surface.pix(o.LENGTH), surface.pix(o.WIDTH))
         pygame.draw.rect(s, cls.get_color(o, transparent), rect, 0)
         pygame.draw.rect(s, cls.BLACK, rect, 1)
         if not offscreen:  # convert_alpha throws errors in offscreen mode TODO() Explain why
-- 
2.43.0


From 690317be21da553b446b962d822c02503e3ea5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:24:32 +0000
Subject: [PATCH 44/44] fix: step an interval predictor built without a control

---
 highway_env/interval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/interval.py b/highway_env/interval.py
index ac47cfe..d9c9609 100644
--- a/highway_env/interval.py
+++ b/highway_env/interval.py
@@ -180,7 +180,7 @@ class LPV(object):
         self.b = np.array(b) if b is not None else np.zeros((*self.x0.shape, 1))
         self.d = np.array(d) if d is not None else np.zeros((*self.x0.shape, 1))
         self.omega_i = np.array(omega_i) if omega_i is not None else np.zeros((2, 1))
-        self.u = np.array(u) if u is not None else np.zeros((1,))
+        self.u = np.array(u) if u is not None else np.zeros((self.b.shape[1], 1))
         self.k = np.array(k) if k is not None else np.zeros((self.b.shape[1], self.b.shape[0]))
         self.center = np.array(center) if center is not None else np.zeros(self.x0.shape)
 
-- 
2.43.0

