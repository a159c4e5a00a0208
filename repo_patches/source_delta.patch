From 83e9560c6f54b345601387949e165576b26881f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:04 +0000
Subject: [PATCH 01/22] hook: loop invariant marker in the trajectory
 simulation (guarded by PX4_AVOIDANCE_CONTRACTS)

---
 local_planner/src/utils/trajectory_simulator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/local_planner/src/utils/trajectory_simulator.cpp b/local_planner/src/utils/trajectory_simulator.cpp
index 46ce756..1ee32fc 100644
--- a/local_planner/src/utils/trajectory_simulator.cpp
+++ b/local_planner/src/utils/trajectory_simulator.cpp
@@ -42,6 +42,9 @@ std::vector<simulation_state> TrajectorySimulator::generate_trajectory(const Eig
 
   simulation_state run_state = start_;
   for (int i = 0; i < num_steps; i++) {
+#ifdef PX4_AVOIDANCE_CONTRACTS
+    VC_LOOP_INVARIANT(trajectory_step, i, num_steps, max_accel_norm, run_state, timepoints);
+#endif
     float single_step_time = step_time_;
     const Eigen::Vector3f damped_jerk =
         jerk_for_velocity_setpoint(P_constant, D_constant, config_.max_jerk_norm, desired_velocity, run_state);
-- 
2.43.0


From fd4ad819b7eace8e051dc6d7bdabd0ffade9302e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:08 +0000
Subject: [PATCH 02/22] fix: trajectory simulation returned NaN states for a
 zero desired velocity

The proportional gain divided by the norm of the desired velocity, so a zero goal
direction (or zero velocity limits) gave 0/0. Use the conjugate form of the same
expression, which is defined (and continuous) at zero.
---
 local_planner/src/utils/trajectory_simulator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/local_planner/src/utils/trajectory_simulator.cpp b/local_planner/src/utils/trajectory_simulator.cpp
index 1ee32fc..df4d57c 100644
--- a/local_planner/src/utils/trajectory_simulator.cpp
+++ b/local_planner/src/utils/trajectory_simulator.cpp
@@ -36,8 +36,8 @@ std::vector<simulation_state> TrajectorySimulator::generate_trajectory(const Eig
   // doing accel from 0
   float max_accel_norm = std::min(2 * std::sqrt(config_.max_jerk_norm), config_.max_acceleration_norm);
   float P_constant =
-      (std::sqrt(sqr(max_accel_norm) + config_.max_jerk_norm * desired_velocity.norm()) - max_accel_norm) /
-      desired_velocity.norm() * 10;
+      config_.max_jerk_norm /
+      (std::sqrt(sqr(max_accel_norm) + config_.max_jerk_norm * desired_velocity.norm()) + max_accel_norm) * 10;
   float D_constant = 2 * std::sqrt(P_constant);
 
   simulation_state run_state = start_;
-- 
2.43.0


From c933c547f4536d9ebb02d8ae7fd1abcd8895cf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:26 +0000
Subject: [PATCH 03/22] hook: loop invariant marker in the point cloud cleaning
 (guarded by PX4_AVOIDANCE_CONTRACTS)

---
 avoidance/src/common.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/avoidance/src/common.cpp b/avoidance/src/common.cpp
index 9a8e21a..b6b32c8 100644
--- a/avoidance/src/common.cpp
+++ b/avoidance/src/common.cpp
@@ -344,6 +344,10 @@ pcl::PointCloud<pcl::PointXYZ> removeNaNAndGetMaxima(pcl::PointCloud<pcl::PointX
   float x_max = -9999.f, y_max = -9999.f, z_max = -9999.f, x_min = 9999.f, y_min = 9999.f, z_min = 9999.f;
   int i_x_max = -1, i_x_min = -1, i_y_max = -1, i_y_min = -1, i_z_max = -1, i_z_min = -1;
   for (size_t i = 0; i < cloud.points.size(); ++i) {
+#ifdef PX4_AVOIDANCE_CONTRACTS
+    VC_LOOP_INVARIANT(cloud_maxima, i, j, cloud.points, x_max, y_max, z_max, x_min, y_min, z_min, i_x_max, i_y_max,
+                      i_z_max, i_x_min, i_y_min, i_z_min);
+#endif
     if (!std::isfinite(cloud.points[i].x) || !std::isfinite(cloud.points[i].y) || !std::isfinite(cloud.points[i].z))
       continue;
     cloud.points[j] = cloud.points[i];  // safe, because i is always ahead of j
-- 
2.43.0


From 845850646507e81a07fb4dee0ce8b81873074bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:03 +0000
Subject: [PATCH 04/22] fix: a field of view extending across +-180 degrees
 contained no direction

---
 avoidance/src/common.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/avoidance/src/common.cpp b/avoidance/src/common.cpp
index b6b32c8..447068c 100644
--- a/avoidance/src/common.cpp
+++ b/avoidance/src/common.cpp
@@ -18,9 +18,8 @@ bool pointInsideFOV(const std::vector<FOV>& fov_vec, const PolarPoint& p_pol) {
 }
 
 bool pointInsideFOV(const FOV& fov, const PolarPoint& p_pol) {
-  return p_pol.z <= wrapAngleToPlusMinus180(fov.yaw_deg + fov.h_fov_deg / 2.f) &&
-         p_pol.z >= wrapAngleToPlusMinus180(fov.yaw_deg - fov.h_fov_deg / 2.f) &&
-         p_pol.e <= fov.pitch_deg + fov.v_fov_deg / 2.f && p_pol.e >= fov.pitch_deg - fov.v_fov_deg / 2.f;
+  return pointInsideYawFOV(fov, p_pol) && p_pol.e <= fov.pitch_deg + fov.v_fov_deg / 2.f &&
+         p_pol.e >= fov.pitch_deg - fov.v_fov_deg / 2.f;
 }
 
 bool histogramIndexYawInsideFOV(const std::vector<FOV>& fov_vec, const int idx, Eigen::Vector3f position,
@@ -64,8 +63,8 @@ bool pointInsideYawFOV(const std::vector<FOV>& fov_vec, const PolarPoint& p_pol)
 }
 
 bool pointInsideYawFOV(const FOV& fov, const PolarPoint& p_pol) {
-  return p_pol.z <= wrapAngleToPlusMinus180(fov.yaw_deg + fov.h_fov_deg / 2.f) &&
-         p_pol.z >= wrapAngleToPlusMinus180(fov.yaw_deg - fov.h_fov_deg / 2.f);
+  // compare on the circle: the field of view may extend across +-180 degrees
+  return std::abs(wrapAngleToPlusMinus180(p_pol.z - fov.yaw_deg)) <= fov.h_fov_deg / 2.f;
 }
 
 bool isInWhichFOV(const std::vector<FOV>& fov_vec, const PolarPoint& p_pol, int& idx) {
-- 
2.43.0


From 07dbb4eb633027ac285bd0db5f0b6e1b497d02a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:33 +0000
Subject: [PATCH 05/22] hook: loop invariant markers in the mission item search
 (guarded by PX4_AVOIDANCE_CONTRACTS)

---
 avoidance/src/avoidance_node.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/avoidance/src/avoidance_node.cpp b/avoidance/src/avoidance_node.cpp
index 75881ec..b1831a0 100644
--- a/avoidance/src/avoidance_node.cpp
+++ b/avoidance/src/avoidance_node.cpp
@@ -167,8 +167,14 @@ void AvoidanceNode::checkPx4Parameters() {
 
 void AvoidanceNode::missionCallback(const mavros_msgs::WaypointList& msg) {
   for (int index = 0; index < msg.waypoints.size(); index++) {
+#ifdef PX4_AVOIDANCE_CONTRACTS
+    VC_LOOP_INVARIANT(mission_scan, msg.waypoints, index, mission_item_speed_);
+#endif
     if (msg.waypoints[index].is_current) {
       for (int i = index; i >= 0; i--) {
+#ifdef PX4_AVOIDANCE_CONTRACTS
+        VC_LOOP_INVARIANT(mission_back, msg.waypoints, index, i, mission_item_speed_);
+#endif
         if (msg.waypoints[i].command == static_cast<int>(MavCommand::MAV_CMD_DO_CHANGE_SPEED) &&
             (msg.waypoints[i].param1 - 1.0f) < FLT_MIN && msg.waypoints[i].param2 > 0.0f) {
           // 1MAV_CMD_DO_CHANGE_SPEED, speed type: ground speed, speed valid
-- 
2.43.0


From 909430531dd88ab790ba458726baa7c1a0f2ce52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:33 +0000
Subject: [PATCH 06/22] fix: an airspeed change item was taken as the mission
 ground speed

---
 avoidance/src/avoidance_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/avoidance/src/avoidance_node.cpp b/avoidance/src/avoidance_node.cpp
index b1831a0..673328c 100644
--- a/avoidance/src/avoidance_node.cpp
+++ b/avoidance/src/avoidance_node.cpp
@@ -176,7 +176,7 @@ void AvoidanceNode::missionCallback(const mavros_msgs::WaypointList& msg) {
         VC_LOOP_INVARIANT(mission_back, msg.waypoints, index, i, mission_item_speed_);
 #endif
         if (msg.waypoints[i].command == static_cast<int>(MavCommand::MAV_CMD_DO_CHANGE_SPEED) &&
-            (msg.waypoints[i].param1 - 1.0f) < FLT_MIN && msg.waypoints[i].param2 > 0.0f) {
+            std::abs(msg.waypoints[i].param1 - 1.0f) < FLT_MIN && msg.waypoints[i].param2 > 0.0f) {
           // 1MAV_CMD_DO_CHANGE_SPEED, speed type: ground speed, speed valid
           mission_item_speed_ = msg.waypoints[i].param2;
           break;
-- 
2.43.0


From 2584a1714982aea70989b8e731ba6880727e0651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:26 +0000
Subject: [PATCH 07/22] hook: loop invariant marker in the walk along the path
 (guarded by PX4_AVOIDANCE_CONTRACTS)

---
 local_planner/src/nodes/planner_functions.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/local_planner/src/nodes/planner_functions.cpp b/local_planner/src/nodes/planner_functions.cpp
index 19560c9..c297375 100644
--- a/local_planner/src/nodes/planner_functions.cpp
+++ b/local_planner/src/nodes/planner_functions.cpp
@@ -381,6 +381,9 @@ bool getSetpointFromPath(const std::vector<Eigen::Vector3f>& path, const ros::Ti
   float distance_left = (current_time - path_generation_time).toSec() * velocity;
   setpoint = path[i - 2] + (distance_left / path_segment.norm()) * path_segment;
   for (i = path.size() - 3; i > 0 && distance_left > path_segment.norm(); --i) {
+#ifdef PX4_AVOIDANCE_CONTRACTS
+    VC_LOOP_INVARIANT(setpoint_path, path, i, distance_left, path_segment, setpoint);
+#endif
     distance_left -= path_segment.norm();
     path_segment = path[i - 1] - path[i];
     setpoint = path[i] + (distance_left / path_segment.norm()) * path_segment;
-- 
2.43.0


From 5462b7405377b01aed10954e2d908bad805168f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:38 +0000
Subject: [PATCH 08/22] fix: a path was taken as exhausted when the vehicle is
 due exactly at one of its nodes

The walk along the path stopped at a node when the distance travelled
was exactly that of the node, and getSetpointFromPath then reported
that the path was no longer valid although it went on.
---
 local_planner/src/nodes/planner_functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/local_planner/src/nodes/planner_functions.cpp b/local_planner/src/nodes/planner_functions.cpp
index c297375..69dea32 100644
--- a/local_planner/src/nodes/planner_functions.cpp
+++ b/local_planner/src/nodes/planner_functions.cpp
@@ -380,7 +380,7 @@ bool getSetpointFromPath(const std::vector<Eigen::Vector3f>& path, const ros::Ti
   Eigen::Vector3f path_segment = path[i - 3] - path[i - 2];
   float distance_left = (current_time - path_generation_time).toSec() * velocity;
   setpoint = path[i - 2] + (distance_left / path_segment.norm()) * path_segment;
-  for (i = path.size() - 3; i > 0 && distance_left > path_segment.norm(); --i) {
+  for (i = path.size() - 3; i > 0 && distance_left >= path_segment.norm(); --i) {
 #ifdef PX4_AVOIDANCE_CONTRACTS
     VC_LOOP_INVARIANT(setpoint_path, path, i, distance_left, path_segment, setpoint);
 #endif
-- 
2.43.0


From 05309156bf173305cdf94a3b22631bd14eb785de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:53 +0000
Subject: [PATCH 09/22] fix: the cost of a direction was not finite at the goal

Within 5 m of the goal the altitude cost is divided by the square of the
distance to the goal, which gave NaN or infinity when it was zero.
---
 local_planner/src/nodes/planner_functions.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/local_planner/src/nodes/planner_functions.cpp b/local_planner/src/nodes/planner_functions.cpp
index 69dea32..3b8e676 100644
--- a/local_planner/src/nodes/planner_functions.cpp
+++ b/local_planner/src/nodes/planner_functions.cpp
@@ -354,7 +354,9 @@ std::pair<float, float> costFunction(const PolarPoint& candidate_polar, float ob
       cost_params.pitch_cost_param * (candidate_polar.e - facing_goal.e) * (candidate_polar.e - facing_goal.e);
   // increase the pitch cost starting at 5m from the goal (forcing the drone to goal altitude)
   if (goal_distance < 5.f) {
-    pitch_cost = pitch_cost / ((0.2 * goal_distance) * (0.2 * goal_distance));
+    // the distance is limited from below: the cost must stay finite at the goal itself
+    const float goal_proximity = std::max(0.2f * goal_distance, 1e-3f);
+    pitch_cost = pitch_cost / (goal_proximity * goal_proximity);
   }
   const float d = cost_params.obstacle_cost_param - obstacle_distance;
   const float distance_cost = obstacle_distance > 0 ? 5000.0f * (1 + d / sqrt(1 + d * d)) : 0.0f;
-- 
2.43.0


From a5863d7498dca08561de1f08f77ec5232bd5a3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:01 +0000
Subject: [PATCH 10/22] hook: loop invariant markers in the histogram
 generation (guarded by PX4_AVOIDANCE_CONTRACTS)

---
 local_planner/src/nodes/planner_functions.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/local_planner/src/nodes/planner_functions.cpp b/local_planner/src/nodes/planner_functions.cpp
index 3b8e676..dc5821a 100644
--- a/local_planner/src/nodes/planner_functions.cpp
+++ b/local_planner/src/nodes/planner_functions.cpp
@@ -81,6 +81,9 @@ void generateNewHistogram(Histogram& polar_histogram, const pcl::PointCloud<pcl:
   Eigen::MatrixXi counter(GRID_LENGTH_E, GRID_LENGTH_Z);
   counter.fill(0);
   for (auto xyz : cropped_cloud) {
+#ifdef PX4_AVOIDANCE_CONTRACTS
+    VC_LOOP_INVARIANT(new_histogram, polar_histogram, counter);
+#endif
     Eigen::Vector3f p = toEigen(xyz);
     PolarPoint p_pol = cartesianToPolarHistogram(p, position);
     float dist = p_pol.r;
@@ -93,6 +96,9 @@ void generateNewHistogram(Histogram& polar_histogram, const pcl::PointCloud<pcl:
   // Normalize and get mean in distance bins
   for (int e = 0; e < GRID_LENGTH_E; e++) {
     for (int z = 0; z < GRID_LENGTH_Z; z++) {
+#ifdef PX4_AVOIDANCE_CONTRACTS
+      VC_LOOP_INVARIANT(mean_distance, polar_histogram, counter, e, z);
+#endif
       if (counter(e, z) > 0) {
         polar_histogram.set_dist(e, z, polar_histogram.get_dist(e, z) / counter(e, z));
       } else {
-- 
2.43.0


From c83bf78400a3e0ceeb2dde54869f801813c45284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:15 +0000
Subject: [PATCH 11/22] fix: a point just inside the border was binned outside
 the landing grid

Where x - grid_min is rounded up to the size of the grid, the index was one
past the last cell and the cell statistics were written out of bounds.
---
 safe_landing_planner/src/nodes/safe_landing_planner.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/safe_landing_planner/src/nodes/safe_landing_planner.cpp b/safe_landing_planner/src/nodes/safe_landing_planner.cpp
index 66849cf..22d7166 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner.cpp
@@ -148,7 +148,8 @@ Eigen::Vector2i SafeLandingPlanner::computeGridIndexes(float x, float y) {
   grid_.getGridLimits(grid_min, grid_max);
   Eigen::Vector2i idx(static_cast<int>(std::floor((x - grid_min.x()) / grid_.getCellSize())),
                       static_cast<int>(std::floor((y - grid_min.y()) / grid_.getCellSize())));
-  return idx;
+  // next to the border of the grid, rounding can yield an index past the last cell
+  return idx.cwiseMax(0).cwiseMin(grid_.getRowColSize() - 1);
 }
 
 std::pair<float, float> SafeLandingPlanner::computeOnlineMeanVariance(float prev_mean, float prev_variance,
-- 
2.43.0


From 80a6381f3963cbe207bf445cc0f3bd4b5b7e789f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:15 +0000
Subject: [PATCH 12/22] fix: no cell was landable when no differing neighbour
 was allowed

With max_n_mean_diff_cells = 0 the cells that passed were set to 1, and the
second threshold then took that 1 for a count above the limit.
---
 safe_landing_planner/src/nodes/safe_landing_planner.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/safe_landing_planner/src/nodes/safe_landing_planner.cpp b/safe_landing_planner/src/nodes/safe_landing_planner.cpp
index 22d7166..aa61059 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner.cpp
@@ -122,8 +122,7 @@ void SafeLandingPlanner::isLandingPossible() {
 
     // threshold each cell based on the number of cells in the neighborhood with
     // mean value difference greater than mean_diff_thr_
-    mean_accumulator = (mean_accumulator.array() <= max_n_mean_diff_cells_).select(1, mean_accumulator);
-    mean_accumulator = (mean_accumulator.array() > max_n_mean_diff_cells_).select(0, mean_accumulator);
+    mean_accumulator = (mean_accumulator.array() <= max_n_mean_diff_cells_).cast<int>();
 
     // logical AND between mean_accumulator and land_accumulator
     land_accumulator = mean_accumulator.cwiseProduct(land_accumulator);
-- 
2.43.0


From a52883b9d4a4c4cb90e51956593fb23c31c9f6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:01 +0000
Subject: [PATCH 13/22] fix: a recorded grid of another size left the previous
 grid and the limits behind

The previous grid kept its size and was then combined with the new one, and
the limits of the new grid were computed from the old size.
---
 safe_landing_planner/src/nodes/safe_landing_planner.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/safe_landing_planner/src/nodes/safe_landing_planner.cpp b/safe_landing_planner/src/nodes/safe_landing_planner.cpp
index aa61059..ec61ee1 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner.cpp
@@ -55,11 +55,12 @@ void SafeLandingPlanner::processRawGrid() {
   grid_seq_ = raw_grid_.header.seq;
   std::swap(previous_grid_, grid_);
   grid_.reset();
-  grid_.setFilterLimits(position_);
 
   if (grid_.getGridSize() != raw_grid_.grid_size || grid_.getCellSize() != raw_grid_.cell_size) {
     grid_.resize(raw_grid_.grid_size, raw_grid_.cell_size);
+    previous_grid_.resize(raw_grid_.grid_size, raw_grid_.cell_size);
   }
+  grid_.setFilterLimits(position_);
 
   for (int i = 0; i < raw_grid_.mean.layout.dim[0].size; i++) {
     for (int j = 0; j < raw_grid_.mean.layout.dim[1].size; j++) {
-- 
2.43.0


From e558c4c877fbf5bf7b44d73ac6d1a29f09f91946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:25 +0000
Subject: [PATCH 14/22] hook: loop invariant marker in the binning of points
 (guarded by PX4_AVOIDANCE_CONTRACTS)

---
 safe_landing_planner/src/nodes/safe_landing_planner.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/safe_landing_planner/src/nodes/safe_landing_planner.cpp b/safe_landing_planner/src/nodes/safe_landing_planner.cpp
index ec61ee1..b58418b 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner.cpp
@@ -30,6 +30,9 @@ void SafeLandingPlanner::processPointcloud() {
   visualization_cloud_.points.clear();
   ROS_INFO("Input cloud size %lu ", cloud_.points.size());
   for (const pcl::PointXYZ& xyz : cloud_) {
+#ifdef PX4_AVOIDANCE_CONTRACTS
+    VC_LOOP_INVARIANT(bin_points, grid_, visualization_cloud_);
+#endif
     if (!std::isnan(xyz.x) && !std::isnan(xyz.y) && !std::isnan(xyz.z)) {
       // check if point is inside the grid
       if (isInsideGrid(xyz.x, xyz.y)) {
-- 
2.43.0


From 05756315dfb4224095b2122f8c904cadeb03736d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:12 +0000
Subject: [PATCH 15/22] hook: loop invariant marker in the search for a landing
 patch (guarded by PX4_AVOIDANCE_CONTRACTS)

---
 safe_landing_planner/src/nodes/waypoint_generator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/safe_landing_planner/src/nodes/waypoint_generator.cpp b/safe_landing_planner/src/nodes/waypoint_generator.cpp
index f6dd9cf..2937686 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator.cpp
@@ -283,6 +283,9 @@ usm::Transition WaypointGenerator::runEvaluateGrid() {
 
   int n_iterations = (1 + (grid_slp_.land_.rows() - (2 * smoothing_land_cell_ + 1)) / stride_) / 2;
   for (int i = 1; i < n_iterations; i++) {
+#ifdef PX4_AVOIDANCE_CONTRACTS
+    VC_LOOP_INVARIANT(patch_search, *this, center, i, n_iterations);
+#endif
     for (int j = 0; j < exploration_pattern.size(); j++) {
       offset.x() = center.x() + exploration_pattern[j].x() * i * stride_ - smoothing_land_cell_;
       offset.y() = center.y() + exploration_pattern[j].y() * i * stride_ - smoothing_land_cell_;
-- 
2.43.0


From 2aa41988ba6bcd7ad23507fd698bdc8d0530e949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:46 +0000
Subject: [PATCH 16/22] fix: the height of a landing area of a single cell was
 read past its end

---
 safe_landing_planner/src/nodes/waypoint_generator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/safe_landing_planner/src/nodes/waypoint_generator.cpp b/safe_landing_planner/src/nodes/waypoint_generator.cpp
index 2937686..2a8d93d 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator.cpp
@@ -340,6 +340,8 @@ float WaypointGenerator::landingAreaHeightPercentile(float percentile) {
 
   std::sort(altitude_landing_area.begin(), altitude_landing_area.end());
   int index = static_cast<int>(std::round(percentile / 100.f * altitude_landing_area.size()));
+  // rounding can yield an index past the last element
+  index = std::min(index, static_cast<int>(altitude_landing_area.size()) - 1);
   return altitude_landing_area[index];
 }
 }
-- 
2.43.0


From 10380b6c912c8b74f8fa477f5a93d89af8e41734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:57 +0000
Subject: [PATCH 17/22] hook: loop invariant markers in sending and receiving
 the landing grid (guarded by PX4_AVOIDANCE_CONTRACTS)

---
 .../src/nodes/safe_landing_planner_node.cpp                 | 6 ++++++
 safe_landing_planner/src/nodes/waypoint_generator_node.cpp  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp b/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
index c60eeed..cd586aa 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
@@ -190,7 +190,13 @@ void SafeLandingPlannerNode::publishSerialGrid() {
   grid.counter.layout.data_offset = 0;
 
   for (size_t i = 0; i < prev_grid.getRowColSize(); i++) {
+#ifdef PX4_AVOIDANCE_CONTRACTS
+    VC_LOOP_INVARIANT(serial_rows, prev_grid, grid, i);
+#endif
     for (size_t j = 0; j < prev_grid.getRowColSize(); j++) {
+#ifdef PX4_AVOIDANCE_CONTRACTS
+      VC_LOOP_INVARIANT(serial_columns, prev_grid, grid, i, j);
+#endif
       grid.mean.data.push_back(prev_grid.mean_(i, j));
       grid.land.data.push_back(prev_grid.land_(i, j));
       grid.std_dev.data.push_back(sqrtf(variance(i, j)));
diff --git a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
index bf8887c..294b825 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
@@ -115,7 +115,13 @@ void WaypointGeneratorNode::gridCallback(const safe_landing_planner::SLPGridMsg
   }
 
   for (int i = 0; i < msg.mean.layout.dim[0].size; i++) {
+#ifdef PX4_AVOIDANCE_CONTRACTS
+    VC_LOOP_INVARIANT(grid_rows, waypointGenerator_.grid_slp_, msg, i);
+#endif
     for (int j = 0; j < msg.mean.layout.dim[1].size; j++) {
+#ifdef PX4_AVOIDANCE_CONTRACTS
+      VC_LOOP_INVARIANT(grid_columns, waypointGenerator_.grid_slp_, msg, i, j);
+#endif
       waypointGenerator_.grid_slp_.mean_(i, j) = msg.mean.data[msg.mean.layout.dim[1].size * i + j];
       waypointGenerator_.grid_slp_.land_(i, j) = msg.land.data[msg.mean.layout.dim[1].size * i + j];
     }
-- 
2.43.0


From 6b834540b8cd6d0b745418dbc372b3f74746942f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:57 +0000
Subject: [PATCH 18/22] fix: a landing setpoint without any vertical component
 was marked valid

---
 safe_landing_planner/src/nodes/waypoint_generator_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
index 294b825..00bb1dd 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
@@ -163,7 +163,7 @@ void WaypointGeneratorNode::publishTrajectorySetpoints(const Eigen::Vector3f &po
   bool xy_vel_sp_valid = std::isfinite(setpoint.point_1.velocity.x) && std::isfinite(setpoint.point_1.velocity.y);
 
   if ((xy_pos_sp_valid || xy_vel_sp_valid) &&
-      (std::isfinite(setpoint.point_1.position.z || std::isfinite(setpoint.point_1.velocity.z)))) {
+      (std::isfinite(setpoint.point_1.position.z) || std::isfinite(setpoint.point_1.velocity.z))) {
     setpoint.point_valid = {true, false, false, false, false};
   } else {
     setpoint.point_valid = {false, false, false, false, false};
-- 
2.43.0


From 7b023f281c52a5f8eaddb8f3baa04652c7cd134c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:57 +0000
Subject: [PATCH 19/22] fix: the shown landing area was taken outside grids of
 other than 40 cells

---
 safe_landing_planner/src/nodes/waypoint_generator_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
index 00bb1dd..d0211fd 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
@@ -214,7 +214,7 @@ void WaypointGeneratorNode::landingAreaVisualization() {
   Eigen::MatrixXi kernel(waypointGenerator_.can_land_hysteresis_matrix_.rows(),
                          waypointGenerator_.can_land_hysteresis_matrix_.cols());
   kernel.fill(0);
-  kernel.block(20 - waypointGenerator_.smoothing_land_cell_, 20 - waypointGenerator_.smoothing_land_cell_,
+  kernel.block(offset - waypointGenerator_.smoothing_land_cell_, offset - waypointGenerator_.smoothing_land_cell_,
                waypointGenerator_.mask_.rows(), waypointGenerator_.mask_.cols()) = waypointGenerator_.mask_;
 
   Eigen::MatrixXi result = waypointGenerator_.can_land_hysteresis_result_.cwiseProduct(kernel);
-- 
2.43.0


From 5416c9c5c4ec1289de6b79d3dfe16aa14e9ef8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:12 +0000
Subject: [PATCH 20/22] hook: loop invariant markers in the landing planner
 node (guarded by PX4_AVOIDANCE_CONTRACTS)

---
 .../src/nodes/safe_landing_planner_node.cpp              | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp b/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
index cd586aa..305529e 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
@@ -83,6 +83,9 @@ void SafeLandingPlannerNode::cmdLoopCallback(const ros::TimerEvent &event) {
 
   ros::Time start_query_position = ros::Time::now();
   while (!cloud_transformed_ && ros::ok()) {
+#ifdef PX4_AVOIDANCE_CONTRACTS
+    VC_LOOP_INVARIANT(cloud_wait, *this, start_query_position);
+#endif
     ros::getGlobalCallbackQueue()->callAvailable(ros::WallDuration(0.1));
     ros::Duration since_query = ros::Time::now() - start_query_position;
     if (since_query > ros::Duration(safe_landing_planner_->timeout_termination_)) {
@@ -213,11 +216,17 @@ void SafeLandingPlannerNode::publishSerialGrid() {
 
 void SafeLandingPlannerNode::pointCloudTransformThread() {
   while (!should_exit_) {
+#ifdef PX4_AVOIDANCE_CONTRACTS
+    VC_LOOP_INVARIANT(transform_rounds, *this);
+#endif
     {
       std::unique_lock<std::mutex> cloud_msg_lock(*(cloud_msg_mutex_));
       cloud_ready_cv_->wait(cloud_msg_lock);
     }
     while (cloud_transformed_ == false) {
+#ifdef PX4_AVOIDANCE_CONTRACTS
+      VC_LOOP_INVARIANT(transform_tries, *this);
+#endif
       if (should_exit_) break;
 
       std::unique_ptr<std::lock_guard<std::mutex>> cloud_msg_lock(new std::lock_guard<std::mutex>(*(cloud_msg_mutex_)));
-- 
2.43.0


From bc19f1a4e64d4bc2652e0fe6ca6dae6cfaae18e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:12 +0000
Subject: [PATCH 21/22] fix: the point cloud thread of the landing planner was
 started before its mutexes existed

---
 safe_landing_planner/src/nodes/safe_landing_planner_node.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp b/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
index 305529e..cdb1b8c 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
@@ -65,11 +65,11 @@ void SafeLandingPlannerNode::rawGridCallback(const safe_landing_planner::SLPGrid
 }
 
 void SafeLandingPlannerNode::startNode() {
-  // initialize thread
-  worker_ = std::thread(&SafeLandingPlannerNode::pointCloudTransformThread, this);
   cloud_msg_mutex_.reset(new std::mutex);
   transformed_cloud_mutex_.reset(new std::mutex);
   cloud_ready_cv_.reset(new std::condition_variable);
+  // initialize thread, which uses the mutexes
+  worker_ = std::thread(&SafeLandingPlannerNode::pointCloudTransformThread, this);
 
   ros::TimerOptions timer_options(ros::Duration(spin_dt_),
                                   boost::bind(&SafeLandingPlannerNode::cmdLoopCallback, this, _1), &cmdloop_queue_);
-- 
2.43.0


From e7a474bec835e7b8aa85caedec7f00d1818ca914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:50 +0000
Subject: [PATCH 22/22] fix: a point cloud that could not be transformed was
 used for landing as if it were

---
 safe_landing_planner/src/nodes/safe_landing_planner_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp b/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
index cdb1b8c..07978a1 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
@@ -243,7 +243,7 @@ void SafeLandingPlannerNode::pointCloudTransformThread() {
           pcl::removeNaNFromPointCloud(pcl_cloud, pcl_cloud, dummy_index);
 
           // transform cloud to local_origin frame
-          pcl_ros::transformPointCloud("local_origin", pcl_cloud, pcl_cloud, tf_listener_);
+          if (!pcl_ros::transformPointCloud("local_origin", pcl_cloud, pcl_cloud, tf_listener_)) continue;
 
           std::lock_guard<std::mutex> transformed_cloud_guard(*(transformed_cloud_mutex_));
           cloud_transformed_ = true;
-- 
2.43.0

