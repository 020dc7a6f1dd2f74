From 69e61bed2789ab561aee6df878bdf03c7417667a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:51 +0000
Subject: [PATCH 01/47] fix: transform buffer returns its only transform when
 exactly its stamp is requested

---
 avoidance/src/transform_buffer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/avoidance/src/transform_buffer.cpp b/avoidance/src/transform_buffer.cpp
index d5d91f3..3023911 100644
--- a/avoidance/src/transform_buffer.cpp
+++ b/avoidance/src/transform_buffer.cpp
@@ -73,6 +73,12 @@ bool TransformBuffer::getTransform(const std::string& source_frame, const std::s
       print(log_level::warn,
             "TF Buffer: could not retrieve requested transform from buffer, tf has already been dropped from buffer");
       return false;
+    } else if (iterator->second.back().stamp_ == time) {
+      // the newest transform matches exactly, it might be the only one in the buffer
+      transform.stamp_ = time;
+      transform.setOrigin(iterator->second.back().getOrigin());
+      transform.setRotation(iterator->second.back().getRotation());
+      return true;
     } else {
       const tf::StampedTransform* previous = &iterator->second.back();
       for (std::deque<tf::StampedTransform>::const_reverse_iterator it = ++iterator->second.rbegin();
-- 
2.43.0


From a4a2124fb423d5d9e63a718fd2635e7d8d01611c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:54 +0000
Subject: [PATCH 02/47] fix: fields of view extending over the +-180 degree
 seam contain their directions

---
 avoidance/src/common.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/avoidance/src/common.cpp b/avoidance/src/common.cpp
index 9a8e21a..bc84875 100644
--- a/avoidance/src/common.cpp
+++ b/avoidance/src/common.cpp
@@ -18,9 +18,8 @@ bool pointInsideFOV(const std::vector<FOV>& fov_vec, const PolarPoint& p_pol) {
 }
 
 bool pointInsideFOV(const FOV& fov, const PolarPoint& p_pol) {
-  return p_pol.z <= wrapAngleToPlusMinus180(fov.yaw_deg + fov.h_fov_deg / 2.f) &&
-         p_pol.z >= wrapAngleToPlusMinus180(fov.yaw_deg - fov.h_fov_deg / 2.f) &&
-         p_pol.e <= fov.pitch_deg + fov.v_fov_deg / 2.f && p_pol.e >= fov.pitch_deg - fov.v_fov_deg / 2.f;
+  return pointInsideYawFOV(fov, p_pol) && p_pol.e <= fov.pitch_deg + fov.v_fov_deg / 2.f &&
+         p_pol.e >= fov.pitch_deg - fov.v_fov_deg / 2.f;
 }
 
 bool histogramIndexYawInsideFOV(const std::vector<FOV>& fov_vec, const int idx, Eigen::Vector3f position,
@@ -64,8 +63,8 @@ bool pointInsideYawFOV(const std::vector<FOV>& fov_vec, const PolarPoint& p_pol)
 }
 
 bool pointInsideYawFOV(const FOV& fov, const PolarPoint& p_pol) {
-  return p_pol.z <= wrapAngleToPlusMinus180(fov.yaw_deg + fov.h_fov_deg / 2.f) &&
-         p_pol.z >= wrapAngleToPlusMinus180(fov.yaw_deg - fov.h_fov_deg / 2.f);
+  // compare the wrapped angle to the camera axis, the FOV might extend over the +-180 degrees seam
+  return std::abs(angleDifference(p_pol.z, fov.yaw_deg)) <= fov.h_fov_deg / 2.f;
 }
 
 bool isInWhichFOV(const std::vector<FOV>& fov_vec, const PolarPoint& p_pol, int& idx) {
-- 
2.43.0


From a8da946116c37ded07570f83e099739567a5fe89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:52 +0000
Subject: [PATCH 03/47] fix: a recorded grid of another size also resizes the
 previous grid it is combined with

---
 safe_landing_planner/src/nodes/safe_landing_planner.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/safe_landing_planner/src/nodes/safe_landing_planner.cpp b/safe_landing_planner/src/nodes/safe_landing_planner.cpp
index 66849cf..f351716 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner.cpp
@@ -54,12 +54,13 @@ void SafeLandingPlanner::processPointcloud() {
 void SafeLandingPlanner::processRawGrid() {
   grid_seq_ = raw_grid_.header.seq;
   std::swap(previous_grid_, grid_);
-  grid_.reset();
-  grid_.setFilterLimits(position_);
-
   if (grid_.getGridSize() != raw_grid_.grid_size || grid_.getCellSize() != raw_grid_.cell_size) {
+    // both grids are combined cell by cell and must have the same dimensions
     grid_.resize(raw_grid_.grid_size, raw_grid_.cell_size);
+    previous_grid_.resize(raw_grid_.grid_size, raw_grid_.cell_size);
   }
+  grid_.reset();
+  grid_.setFilterLimits(position_);
 
   for (int i = 0; i < raw_grid_.mean.layout.dim[0].size; i++) {
     for (int j = 0; j < raw_grid_.mean.layout.dim[1].size; j++) {
-- 
2.43.0


From b0bca11d937a53d141aa4b262d9f4eaf80a1c362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:09 +0000
Subject: [PATCH 04/47] fix: points just inside the upper grid border fall into
 the last cell

---
 safe_landing_planner/src/nodes/safe_landing_planner.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/safe_landing_planner/src/nodes/safe_landing_planner.cpp b/safe_landing_planner/src/nodes/safe_landing_planner.cpp
index f351716..d59f3fb 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner.cpp
@@ -149,7 +149,8 @@ Eigen::Vector2i SafeLandingPlanner::computeGridIndexes(float x, float y) {
   grid_.getGridLimits(grid_min, grid_max);
   Eigen::Vector2i idx(static_cast<int>(std::floor((x - grid_min.x()) / grid_.getCellSize())),
                       static_cast<int>(std::floor((y - grid_min.y()) / grid_.getCellSize())));
-  return idx;
+  // a point just below the upper border can be rounded up onto it
+  return idx.cwiseMin(grid_.getRowColSize() - 1);
 }
 
 std::pair<float, float> SafeLandingPlanner::computeOnlineMeanVariance(float prev_mean, float prev_variance,
-- 
2.43.0


From 050382522050f139416cd71533679cfe4ec389cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 05/47] fix: landing sites can be found when no neighbour may
 differ in mean height

---
 safe_landing_planner/src/nodes/safe_landing_planner.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/safe_landing_planner/src/nodes/safe_landing_planner.cpp b/safe_landing_planner/src/nodes/safe_landing_planner.cpp
index d59f3fb..ddba100 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner.cpp
@@ -123,8 +123,7 @@ void SafeLandingPlanner::isLandingPossible() {
 
     // threshold each cell based on the number of cells in the neighborhood with
     // mean value difference greater than mean_diff_thr_
-    mean_accumulator = (mean_accumulator.array() <= max_n_mean_diff_cells_).select(1, mean_accumulator);
-    mean_accumulator = (mean_accumulator.array() > max_n_mean_diff_cells_).select(0, mean_accumulator);
+    mean_accumulator = (mean_accumulator.array() <= max_n_mean_diff_cells_).cast<int>().matrix().eval();
 
     // logical AND between mean_accumulator and land_accumulator
     land_accumulator = mean_accumulator.cwiseProduct(land_accumulator);
-- 
2.43.0


From 2beefae7dc9b32e3e6bb15af3ea8ef7305bf3d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:20 +0000
Subject: [PATCH 06/47] fix: landing setpoints without any vertical component
 are not flagged valid

---
 safe_landing_planner/src/nodes/waypoint_generator_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
index bf8887c..8b0f0bb 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
@@ -157,7 +157,7 @@ void WaypointGeneratorNode::publishTrajectorySetpoints(const Eigen::Vector3f &po
   bool xy_vel_sp_valid = std::isfinite(setpoint.point_1.velocity.x) && std::isfinite(setpoint.point_1.velocity.y);
 
   if ((xy_pos_sp_valid || xy_vel_sp_valid) &&
-      (std::isfinite(setpoint.point_1.position.z || std::isfinite(setpoint.point_1.velocity.z)))) {
+      (std::isfinite(setpoint.point_1.position.z) || std::isfinite(setpoint.point_1.velocity.z))) {
     setpoint.point_valid = {true, false, false, false, false};
   } else {
     setpoint.point_valid = {false, false, false, false, false};
-- 
2.43.0


From 2a6e22bc722ca5873b0ef38ce9ab6e3ef2678f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:20 +0000
Subject: [PATCH 07/47] fix: the landing area of grids other than 40x40 is
 visualised around the grid centre

---
 safe_landing_planner/src/nodes/waypoint_generator_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
index 8b0f0bb..4002482 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
@@ -208,7 +208,7 @@ void WaypointGeneratorNode::landingAreaVisualization() {
   Eigen::MatrixXi kernel(waypointGenerator_.can_land_hysteresis_matrix_.rows(),
                          waypointGenerator_.can_land_hysteresis_matrix_.cols());
   kernel.fill(0);
-  kernel.block(20 - waypointGenerator_.smoothing_land_cell_, 20 - waypointGenerator_.smoothing_land_cell_,
+  kernel.block(offset - waypointGenerator_.smoothing_land_cell_, offset - waypointGenerator_.smoothing_land_cell_,
                waypointGenerator_.mask_.rows(), waypointGenerator_.mask_.cols()) = waypointGenerator_.mask_;
 
   Eigen::MatrixXi result = waypointGenerator_.can_land_hysteresis_result_.cwiseProduct(kernel);
-- 
2.43.0


From d61ac4e846b618c8952aed0f728a1a55c3acf076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:20 +0000
Subject: [PATCH 08/47] fix: height percentile of a landing area of a single
 cell stays inside the area

---
 safe_landing_planner/src/nodes/waypoint_generator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/safe_landing_planner/src/nodes/waypoint_generator.cpp b/safe_landing_planner/src/nodes/waypoint_generator.cpp
index f6dd9cf..54c375e 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator.cpp
@@ -337,6 +337,7 @@ float WaypointGenerator::landingAreaHeightPercentile(float percentile) {
 
   std::sort(altitude_landing_area.begin(), altitude_landing_area.end());
   int index = static_cast<int>(std::round(percentile / 100.f * altitude_landing_area.size()));
+  index = std::min(index, static_cast<int>(altitude_landing_area.size()) - 1);
   return altitude_landing_area[index];
 }
 }
-- 
2.43.0


From 0955391ce9b433bbca8ed1d2cd8b55fb4ae93228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:37 +0000
Subject: [PATCH 09/47] fix: cancelling a landing forgets its decision also
 when a new landing is requested before the next grid

---
 safe_landing_planner/src/nodes/waypoint_generator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/safe_landing_planner/src/nodes/waypoint_generator.cpp b/safe_landing_planner/src/nodes/waypoint_generator.cpp
index 54c375e..994c557 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator.cpp
@@ -74,7 +74,7 @@ void WaypointGenerator::updateSLPState() {
     can_land_hysteresis_result_.fill(0);
   }
 
-  if (!is_land_waypoint_) {
+  if (!is_land_waypoint_ || trigger_reset_) {
     decision_taken_ = false;
     can_land_ = true;
     can_land_hysteresis_matrix_.fill(0.0f);
@@ -82,7 +82,7 @@ void WaypointGenerator::updateSLPState() {
     n_explored_pattern_ = -1;
     factor_exploration_ = 1.f;
     landing_radius_ = 2.0f;
-    ROS_INFO("[WGN] Not a land waypoint");
+    ROS_INFO("[WGN] Not a land waypoint or landing cancelled");
   }
 
   return;
-- 
2.43.0


From 00184af7c17b253b04d6b23ed94fe8d63b8bf98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:58 +0000
Subject: [PATCH 10/47] fix: a landing in progress is abandoned when the
 mission moves on to another item

---
 safe_landing_planner/src/nodes/waypoint_generator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/safe_landing_planner/src/nodes/waypoint_generator.cpp b/safe_landing_planner/src/nodes/waypoint_generator.cpp
index 994c557..9d8bcc3 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator.cpp
@@ -83,6 +83,10 @@ void WaypointGenerator::updateSLPState() {
     factor_exploration_ = 1.f;
     landing_radius_ = 2.0f;
     ROS_INFO("[WGN] Not a land waypoint or landing cancelled");
+    if (getState() != SLPState::GOTO) {
+      // a landing in progress must not be continued at the position of another mission item
+      trigger_reset_ = true;
+    }
   }
 
   return;
-- 
2.43.0


From 17c4e7597e0643182b1ec2714a64c0f0daa2c4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:27 +0000
Subject: [PATCH 11/47] fix: a landing in progress starts over when its mission
 item is replaced

---
 safe_landing_planner/src/nodes/waypoint_generator_node.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
index 4002482..084a8d4 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
@@ -80,6 +80,10 @@ void WaypointGeneratorNode::trajectoryCallback(const mavros_msgs::Trajectory &ms
   if (update && msg.point_valid[0] == true) {
     waypointGenerator_.goal_ = avoidance::toEigen(msg.point_1.position);
     waypointGenerator_.velocity_setpoint_ = avoidance::toEigen(msg.point_1.velocity);
+    if (waypointGenerator_.getState() != SLPState::GOTO) {
+      // the site chosen so far has nothing to do with the new item: start over
+      waypointGenerator_.trigger_reset_ = true;
+    }
     waypointGenerator_.is_land_waypoint_ = (msg.command[1] == static_cast<int>(MavCommand::MAV_CMD_NAV_LAND));
     ROS_INFO_STREAM("\033[1;33m [WGN] Set New goal from FCU " << waypointGenerator_.goal_.transpose()
                                                               << " - nan nan nan \033[0m");
-- 
2.43.0


From da973f058d67bc6bd524470ceeb76e19b5f9fbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:10 +0000
Subject: [PATCH 12/47] fix: a cloud arriving while the landing planner
 transforms the previous one is not missed

---
 .../safe_landing_planner_node.hpp                  |  3 ++-
 .../src/nodes/safe_landing_planner_node.cpp        | 14 ++++++++------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/safe_landing_planner/include/safe_landing_planner/safe_landing_planner_node.hpp b/safe_landing_planner/include/safe_landing_planner/safe_landing_planner_node.hpp
index 00b7fd0..6ca71b2 100644
--- a/safe_landing_planner/include/safe_landing_planner/safe_landing_planner_node.hpp
+++ b/safe_landing_planner/include/safe_landing_planner/safe_landing_planner_node.hpp
@@ -61,6 +61,7 @@ class SafeLandingPlannerNode {
   ros::CallbackQueue cmdloop_queue_;
 
   sensor_msgs::PointCloud2 newest_cloud_msg_;
+  bool cloud_pending_ = false;  ///< newest_cloud_msg_ still has to be transformed, guarded by cloud_msg_mutex_
 
   ros::NodeHandle nh_;
 
@@ -84,7 +85,7 @@ class SafeLandingPlannerNode {
   SafeLandingPlannerVisualization visualizer_;
 
   bool position_received_ = false;
-  bool cloud_transformed_ = false;
+  std::atomic<bool> cloud_transformed_{false};
   double spin_dt_ = 0.1;
 
   dynamic_reconfigure::Server<safe_landing_planner::SafeLandingPlannerNodeConfig> server_;
diff --git a/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp b/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
index c60eeed..cd19621 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
@@ -53,6 +53,7 @@ void SafeLandingPlannerNode::pointCloudCallback(const sensor_msgs::PointCloud2 &
   {
     std::lock_guard<std::mutex> lck(*(cloud_msg_mutex_));
     newest_cloud_msg_ = msg;  // FIXME: avoid a copy
+    cloud_pending_ = true;
   }
 
   cloud_ready_cv_->notify_one();
@@ -65,11 +66,11 @@ void SafeLandingPlannerNode::rawGridCallback(const safe_landing_planner::SLPGrid
 }
 
 void SafeLandingPlannerNode::startNode() {
-  // initialize thread
-  worker_ = std::thread(&SafeLandingPlannerNode::pointCloudTransformThread, this);
   cloud_msg_mutex_.reset(new std::mutex);
   transformed_cloud_mutex_.reset(new std::mutex);
   cloud_ready_cv_.reset(new std::condition_variable);
+  // initialize thread, it uses the mutexes right away
+  worker_ = std::thread(&SafeLandingPlannerNode::pointCloudTransformThread, this);
 
   ros::TimerOptions timer_options(ros::Duration(spin_dt_),
                                   boost::bind(&SafeLandingPlannerNode::cmdLoopCallback, this, _1), &cmdloop_queue_);
@@ -209,18 +210,19 @@ void SafeLandingPlannerNode::pointCloudTransformThread() {
   while (!should_exit_) {
     {
       std::unique_lock<std::mutex> cloud_msg_lock(*(cloud_msg_mutex_));
-      cloud_ready_cv_->wait(cloud_msg_lock);
+      // the notification of a cloud which arrives while the previous one is being transformed would be missed
+      cloud_ready_cv_->wait(cloud_msg_lock, [this] { return cloud_pending_ || should_exit_; });
     }
-    while (cloud_transformed_ == false) {
-      if (should_exit_) break;
-
+    while (!should_exit_) {
       std::unique_ptr<std::lock_guard<std::mutex>> cloud_msg_lock(new std::lock_guard<std::mutex>(*(cloud_msg_mutex_)));
+      if (!cloud_pending_) break;
       if (tf_listener_.canTransform("local_origin", newest_cloud_msg_.header.frame_id,
                                     newest_cloud_msg_.header.stamp)) {
         try {
           pcl::PointCloud<pcl::PointXYZ> pcl_cloud;
           // transform message to pcl type
           pcl::fromROSMsg(newest_cloud_msg_, pcl_cloud);
+          cloud_pending_ = false;
           cloud_msg_lock.reset();
           // remove nan padding
           std::vector<int> dummy_index;
-- 
2.43.0


From a0d6b0404c3dfdd253f12a0f268c872d6bda5471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:26 +0000
Subject: [PATCH 13/47] fix: a cloud whose transform lookup fails is not used
 untransformed by the landing planner

---
 .../src/nodes/safe_landing_planner_node.cpp            | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp b/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
index cd19621..2b6f509 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
@@ -230,7 +230,15 @@ void SafeLandingPlannerNode::pointCloudTransformThread() {
           pcl::removeNaNFromPointCloud(pcl_cloud, pcl_cloud, dummy_index);
 
           // transform cloud to local_origin frame
-          pcl_ros::transformPointCloud("local_origin", pcl_cloud, pcl_cloud, tf_listener_);
+          if (!pcl_ros::transformPointCloud("local_origin", pcl_cloud, pcl_cloud, tf_listener_)) {
+            // the cloud is still in the camera frame: try again, unless a newer one arrives
+            {
+              std::lock_guard<std::mutex> pending_guard(*(cloud_msg_mutex_));
+              cloud_pending_ = true;
+            }
+            ros::Duration(0.001).sleep();
+            continue;
+          }
 
           std::lock_guard<std::mutex> transformed_cloud_guard(*(transformed_cloud_mutex_));
           cloud_transformed_ = true;
-- 
2.43.0


From 7cb3b32f9459b367a7d737ed1f4e7fbbf344b3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:53 +0000
Subject: [PATCH 14/47] fix: the first waypoint is not smoothed over the time
 since the epoch

---
 local_planner/include/local_planner/waypoint_generator.h | 4 ++--
 local_planner/src/nodes/waypoint_generator.cpp           | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/local_planner/include/local_planner/waypoint_generator.h b/local_planner/include/local_planner/waypoint_generator.h
index 15b7c0b..f689f21 100644
--- a/local_planner/include/local_planner/waypoint_generator.h
+++ b/local_planner/include/local_planner/waypoint_generator.h
@@ -48,8 +48,8 @@ class WaypointGenerator : public usm::StateMachine<PlannerState> {
 
   float curr_yaw_rad_ = NAN;
   float curr_pitch_deg_ = NAN;
-  ros::Time last_time_{99999.};
-  ros::Time current_time_{99999.};
+  ros::Time last_time_;
+  ros::Time current_time_;
 
   float smoothing_speed_xy_{10.f};
   float smoothing_speed_z_{3.0f};
diff --git a/local_planner/src/nodes/waypoint_generator.cpp b/local_planner/src/nodes/waypoint_generator.cpp
index 730168f..35a5bbf 100644
--- a/local_planner/src/nodes/waypoint_generator.cpp
+++ b/local_planner/src/nodes/waypoint_generator.cpp
@@ -204,8 +204,11 @@ void WaypointGenerator::calculateWaypoint() {
   output_.linear_velocity_wp = Eigen::Vector3f(NAN, NAN, NAN);
 
   // Timing
+  const bool first_iteration = current_time_.isZero();
   last_time_ = current_time_;
   current_time_ = getSystemTime();
+  // there is no time step to integrate over yet
+  if (first_iteration) last_time_ = current_time_;
 
   iterateOnce();
   output_.waypoint_type = getState();
-- 
2.43.0


From 1303f623b0ec6741fe093c955842903de7d34bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:53 +0000
Subject: [PATCH 15/47] fix: loitering during a landing holds the position
 instead of the last landing setpoint

---
 local_planner/src/nodes/waypoint_generator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/local_planner/src/nodes/waypoint_generator.cpp b/local_planner/src/nodes/waypoint_generator.cpp
index 35a5bbf..e0ec9af 100644
--- a/local_planner/src/nodes/waypoint_generator.cpp
+++ b/local_planner/src/nodes/waypoint_generator.cpp
@@ -164,6 +164,8 @@ usm::Transition WaypointGenerator::runLoiter() {
   if (state_changed_ || hover_position_.array().hasNaN()) {
     hover_position_ = position_;
   }
+  // the position is controlled also when a landing was interrupted
+  auto_land_ = false;
   output_.goto_position = hover_position_;
   ROS_DEBUG("[WG] Hover at: [%f, %f, %f].", output_.goto_position.x(), output_.goto_position.y(),
             output_.goto_position.z());
-- 
2.43.0


From ddac34213ac6ef88216be894a6f5b1f25579fcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:30 +0000
Subject: [PATCH 16/47] fix: no candidate directions are taken from an empty
 queue

children_per_node_ may be configured to 0; the candidate selection then
read the top of an empty priority queue. No candidates are returned, which
the tree search already handles.
---
 local_planner/src/nodes/planner_functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/local_planner/src/nodes/planner_functions.cpp b/local_planner/src/nodes/planner_functions.cpp
index 19560c9..c48c14f 100644
--- a/local_planner/src/nodes/planner_functions.cpp
+++ b/local_planner/src/nodes/planner_functions.cpp
@@ -240,7 +240,7 @@ void getBestCandidatesFromCostMatrix(const Eigen::MatrixXf& matrix, unsigned int
 
       if (queue.size() < number_of_candidates) {
         queue.push(candidate);
-      } else if (candidate < queue.top()) {
+      } else if (!queue.empty() && candidate < queue.top()) {
         queue.push(candidate);
         queue.pop();
       }
-- 
2.43.0


From 66f6ae0597374352ff0c81e719c947033ff7a222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:13 +0000
Subject: [PATCH 17/47] fix: the trajectory simulation brakes when no direction
 is commanded

For a zero desired velocity the gain of the controller was 0/0, and every
simulated state was NaN. The same gain is computed in a form that is
defined for zero as well.
---
 local_planner/src/utils/trajectory_simulator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/local_planner/src/utils/trajectory_simulator.cpp b/local_planner/src/utils/trajectory_simulator.cpp
index 46ce756..98cea25 100644
--- a/local_planner/src/utils/trajectory_simulator.cpp
+++ b/local_planner/src/utils/trajectory_simulator.cpp
@@ -35,9 +35,10 @@ std::vector<simulation_state> TrajectorySimulator::generate_trajectory(const Eig
   // calculate P and D constants such that they hit the jerk limit when
   // doing accel from 0
   float max_accel_norm = std::min(2 * std::sqrt(config_.max_jerk_norm), config_.max_acceleration_norm);
+  // (the usual quotient of the quadratic formula is expanded to be defined for a desired velocity of 0 as well)
   float P_constant =
-      (std::sqrt(sqr(max_accel_norm) + config_.max_jerk_norm * desired_velocity.norm()) - max_accel_norm) /
-      desired_velocity.norm() * 10;
+      config_.max_jerk_norm /
+      (std::sqrt(sqr(max_accel_norm) + config_.max_jerk_norm * desired_velocity.norm()) + max_accel_norm) * 10;
   float D_constant = 2 * std::sqrt(P_constant);
 
   simulation_state run_state = start_;
-- 
2.43.0


From 7601d9778b4cd9474ce4659cefca2bd1880cf4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:40 +0000
Subject: [PATCH 18/47] fix: local planner node does not miss a cloud that
 arrives while a thread is about to wait

---
 .../src/nodes/local_planner_nodelet.cpp       | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/local_planner/src/nodes/local_planner_nodelet.cpp b/local_planner/src/nodes/local_planner_nodelet.cpp
index 9e83709..d452353 100644
--- a/local_planner/src/nodes/local_planner_nodelet.cpp
+++ b/local_planner/src/nodes/local_planner_nodelet.cpp
@@ -456,9 +456,12 @@ void LocalPlannerNodelet::threadFunction() {
   while (!should_exit_) {
     ros::Time start_time = ros::Time::now();
 
-    while ((cameras_.size() == 0 || cameras_.size() != numTransformedClouds()) && !should_exit_) {
+    {
+      // check under the lock the transform threads notify with, otherwise a notification could get lost
       std::unique_lock<std::mutex> lock(transformed_cloud_mutex_);
-      transformed_cloud_cv_.wait_for(lock, std::chrono::milliseconds(5000));
+      while ((cameras_.size() == 0 || cameras_.size() != numTransformedClouds()) && !should_exit_) {
+        transformed_cloud_cv_.wait_for(lock, std::chrono::milliseconds(5000));
+      }
     }
 
     if (should_exit_) break;
@@ -495,6 +498,7 @@ void LocalPlannerNodelet::pointCloudTransformThread(int index) {
   while (!should_exit_) {
     bool waiting_on_transform = false;
     bool waiting_on_cloud = false;
+    bool cloud_transformed = false;
     {
       std::lock_guard<std::mutex> camera_lock(*(cameras_[index].camera_mutex_));
 
@@ -524,8 +528,7 @@ void LocalPlannerNodelet::pointCloudTransformThread(int index) {
           cameras_[index].transformed_ = true;
           cameras_[index].received_ = false;
           waiting_on_cloud = true;
-          std::lock_guard<std::mutex> lock(transformed_cloud_mutex_);
-          transformed_cloud_cv_.notify_all();
+          cloud_transformed = true;
         } else {
           waiting_on_transform = true;
         }
@@ -534,6 +537,11 @@ void LocalPlannerNodelet::pointCloudTransformThread(int index) {
       }
     }
 
+    if (cloud_transformed) {
+      std::lock_guard<std::mutex> lock(transformed_cloud_mutex_);
+      transformed_cloud_cv_.notify_all();
+    }
+
     if (should_exit_) {
       break;
     }
@@ -543,7 +551,9 @@ void LocalPlannerNodelet::pointCloudTransformThread(int index) {
       tf_buffer_cv_.wait_for(lck, std::chrono::milliseconds(5000));
     } else if (waiting_on_cloud) {
       std::unique_lock<std::mutex> lck(*(cameras_[index].camera_mutex_));
-      cameras_[index].camera_cv_->wait_for(lck, std::chrono::milliseconds(5000));
+      // a cloud might have arrived since the camera was checked
+      cameras_[index].camera_cv_->wait_for(lck, std::chrono::milliseconds(5000),
+                                           [this, index] { return cameras_[index].received_ || should_exit_; });
     }
   }
 }
-- 
2.43.0


From a73ff168ea278fca6f8b57d0e4264f810dbacd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:40 +0000
Subject: [PATCH 19/47] fix: a goal that is received while the local planner is
 being updated is not lost

---
 local_planner/src/nodes/local_planner_nodelet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/local_planner/src/nodes/local_planner_nodelet.cpp b/local_planner/src/nodes/local_planner_nodelet.cpp
index d452353..5200fba 100644
--- a/local_planner/src/nodes/local_planner_nodelet.cpp
+++ b/local_planner/src/nodes/local_planner_nodelet.cpp
@@ -183,9 +183,9 @@ void LocalPlannerNodelet::updatePlannerInfo() {
 
   // update goal
   if (new_goal_) {
+    new_goal_ = false;  // first, a goal received in the meantime is used in the next cycle
     local_planner_->setGoal(goal_position_);
     local_planner_->setPreviousGoal(prev_goal_position_);
-    new_goal_ = false;
   }
 
   // update last sent waypoint
-- 
2.43.0


From 6ac8faf4761f9cf813430648f421b3cdd5227d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:40 +0000
Subject: [PATCH 20/47] fix: local planner node state is defined before the
 first messages arrive

---
 .../local_planner/local_planner_nodelet.h     | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/local_planner/include/local_planner/local_planner_nodelet.h b/local_planner/include/local_planner/local_planner_nodelet.h
index d34e4d4..decd178 100644
--- a/local_planner/include/local_planner/local_planner_nodelet.h
+++ b/local_planner/include/local_planner/local_planner_nodelet.h
@@ -211,18 +211,18 @@ class LocalPlannerNodelet : public nodelet::Nodelet {
   bool new_goal_ = false;
 
   std::mutex waypoints_mutex_;
-  Eigen::Vector3f newest_waypoint_position_;
-  Eigen::Vector3f last_waypoint_position_;
-  Eigen::Vector3f newest_adapted_waypoint_position_;
-  Eigen::Vector3f last_adapted_waypoint_position_;
-  Eigen::Vector3f newest_position_;
-  Eigen::Quaternionf newest_orientation_;
-  Eigen::Vector3f last_position_;
-  Eigen::Quaternionf last_orientation_;
-  Eigen::Vector3f velocity_;
-  Eigen::Vector3f desired_velocity_;
-  Eigen::Vector3f goal_position_;
-  Eigen::Vector3f prev_goal_position_;
+  Eigen::Vector3f newest_waypoint_position_ = Eigen::Vector3f::Zero();
+  Eigen::Vector3f last_waypoint_position_ = Eigen::Vector3f::Zero();
+  Eigen::Vector3f newest_adapted_waypoint_position_ = Eigen::Vector3f::Zero();
+  Eigen::Vector3f last_adapted_waypoint_position_ = Eigen::Vector3f::Zero();
+  Eigen::Vector3f newest_position_ = Eigen::Vector3f::Zero();
+  Eigen::Quaternionf newest_orientation_ = Eigen::Quaternionf::Identity();
+  Eigen::Vector3f last_position_ = Eigen::Vector3f::Zero();
+  Eigen::Quaternionf last_orientation_ = Eigen::Quaternionf::Identity();
+  Eigen::Vector3f velocity_ = Eigen::Vector3f::Zero();
+  Eigen::Vector3f desired_velocity_ = Eigen::Vector3f(NAN, NAN, NAN);
+  Eigen::Vector3f goal_position_ = Eigen::Vector3f::Zero();
+  Eigen::Vector3f prev_goal_position_ = Eigen::Vector3f::Zero();
 
   NavigationState nav_state_ = NavigationState::none;
 
-- 
2.43.0


From a617d1ce002bbb66d4dc9375417b7dca6a97ddf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:02 +0000
Subject: [PATCH 21/47] fix: obstacle distances are updated whenever they are
 sent

---
 local_planner/src/nodes/local_planner.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/local_planner/src/nodes/local_planner.cpp b/local_planner/src/nodes/local_planner.cpp
index 560cd78..83dd59f 100644
--- a/local_planner/src/nodes/local_planner.cpp
+++ b/local_planner/src/nodes/local_planner.cpp
@@ -118,7 +118,8 @@ void LocalPlanner::determineStrategy() {
   cost_image_data_.clear();
   cost_image_data_.resize(3 * GRID_LENGTH_E * GRID_LENGTH_Z, 0);
 
-  create2DObstacleRepresentation(px4_.param_cp_dist > 0.f);
+  // collision prevention is off if negative, by default the obstacle distances are sent
+  create2DObstacleRepresentation(!(px4_.param_cp_dist < 0.f));
 
   // calculate the vehicle projected position on the line between the previous and current goal
   Eigen::Vector2f u_prev_to_goal = (goal_ - prev_goal_).head<2>().normalized();
-- 
2.43.0


From 2d62b22cbf2c32776d472ba62cb3356dd6fc692a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:53 +0000
Subject: [PATCH 22/47] fix: planner nodes can be destroyed while their threads
 run

---
 avoidance/include/avoidance/avoidance_node.h      |  3 ++-
 avoidance/src/avoidance_node.cpp                  | 13 ++++++++-----
 local_planner/src/nodes/local_planner_nodelet.cpp |  7 ++++++-
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/avoidance/include/avoidance/avoidance_node.h b/avoidance/include/avoidance/avoidance_node.h
index 9cbb0e4..79653cb 100644
--- a/avoidance/include/avoidance/avoidance_node.h
+++ b/avoidance/include/avoidance/avoidance_node.h
@@ -10,6 +10,7 @@
 #include "avoidance/common.h"
 #include "mavros_msgs/CompanionProcessStatus.h"
 
+#include <atomic>
 #include <thread>
 
 namespace avoidance {
@@ -77,7 +78,7 @@ class AvoidanceNode {
   double timeout_startup_;
 
   bool position_received_;
-  bool should_exit_;
+  std::atomic<bool> should_exit_;
 
   float mission_item_speed_;
 
diff --git a/avoidance/src/avoidance_node.cpp b/avoidance/src/avoidance_node.cpp
index 75881ec..84c72aa 100644
--- a/avoidance/src/avoidance_node.cpp
+++ b/avoidance/src/avoidance_node.cpp
@@ -15,7 +15,10 @@ AvoidanceNode::AvoidanceNode(const ros::NodeHandle& nh, const ros::NodeHandle& n
   param_cb_mutex_.reset(new std::mutex);
 }
 
-AvoidanceNode::~AvoidanceNode() {}
+AvoidanceNode::~AvoidanceNode() {
+  should_exit_ = true;
+  if (worker_.joinable()) worker_.join();
+}
 
 void AvoidanceNode::init() {
   mavros_system_status_pub_ = nh_.advertise<mavros_msgs::CompanionProcessStatus>("mavros/companion_process/status", 1);
@@ -157,10 +160,10 @@ void AvoidanceNode::checkPx4Parameters() {
           !std::isfinite(px4_.param_mpc_yawrauto_max);
     }
 
-    if (is_param_not_initialized) {
-      std::this_thread::sleep_for(std::chrono::seconds(5));
-    } else {
-      std::this_thread::sleep_for(std::chrono::seconds(30));
+    // sleep in short steps, such that the thread can be stopped
+    const int seconds = is_param_not_initialized ? 5 : 30;
+    for (int i = 0; i < 10 * seconds && !should_exit_; i++) {
+      std::this_thread::sleep_for(std::chrono::milliseconds(100));
     }
   }
 }
diff --git a/local_planner/src/nodes/local_planner_nodelet.cpp b/local_planner/src/nodes/local_planner_nodelet.cpp
index 5200fba..d13db64 100644
--- a/local_planner/src/nodes/local_planner_nodelet.cpp
+++ b/local_planner/src/nodes/local_planner_nodelet.cpp
@@ -19,6 +19,9 @@ LocalPlannerNodelet::LocalPlannerNodelet() : tf_buffer_(5.f), spin_dt_(0.1) {}
 
 LocalPlannerNodelet::~LocalPlannerNodelet() {
   should_exit_ = true;
+  // the timer callback uses the members, and it waits for a position
+  if (cmdloop_spinner_) cmdloop_spinner_->stop();
+
   {
     std::lock_guard<std::mutex> guard(buffered_transforms_mutex_);
     tf_buffer_cv_.notify_all();
@@ -237,7 +240,7 @@ void LocalPlannerNodelet::cmdLoopCallback(const ros::TimerEvent& event) {
   // Process callbacks & wait for a position update
   ros::Time start_query_position = ros::Time::now();
 
-  while (!position_received_ && ros::ok()) {
+  while (!position_received_ && ros::ok() && !should_exit_) {
     ros::getGlobalCallbackQueue()->callAvailable(ros::WallDuration(0.1));
     ros::Duration since_query = ros::Time::now() - start_query_position;
     if (since_query > ros::Duration(local_planner_->timeout_termination_)) {
@@ -259,6 +262,8 @@ void LocalPlannerNodelet::cmdLoopCallback(const ros::TimerEvent& event) {
     }
   }
 
+  if (should_exit_) return;
+
   // Check if all information was received
   ros::Time now = ros::Time::now();
   ros::Duration since_last_cloud = now - last_wp_time_;
-- 
2.43.0


From 7b2b1861158583536cf8b5425517ac59c5744800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:09 +0000
Subject: [PATCH 23/47] fix: field of view of cameras that look over the +-180
 degree seam

---
 avoidance/src/common.cpp | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/avoidance/src/common.cpp b/avoidance/src/common.cpp
index bc84875..360b004 100644
--- a/avoidance/src/common.cpp
+++ b/avoidance/src/common.cpp
@@ -403,29 +403,30 @@ pcl::PointCloud<pcl::PointXYZ> removeNaNAndGetMaxima(pcl::PointCloud<pcl::PointX
 
 void updateFOVFromMaxima(FOV& fov, const pcl::PointCloud<pcl::PointXYZ>& maxima) {
   float h_min = 9999.f, h_max = -9999.f, v_min = 9999.f, v_max = -9999.f;
+  float h_ref = 0.f;
+  bool first = true;
 
   for (auto p : maxima) {
     PolarPoint p_pol_fcu = cartesianToPolarFCU(p);
-    p_pol_fcu.z += 180.0f;  // move azimuth to [0, 360]
-    p_pol_fcu.e += 90.0f;   // move elevation to [0, 180]
-    h_min = std::min(p_pol_fcu.z, h_min);
-    h_max = std::max(p_pol_fcu.z, h_max);
+    if (first) h_ref = p_pol_fcu.z;
+    first = false;
+    // measure the azimuth from the first point, such that a camera which looks over the +-180 degree seam
+    // is not different from others
+    // Note: this assumes the FOV of one camera is < 180 degrees!
+    const float h_rel = wrapAngleToPlusMinus180(p_pol_fcu.z - h_ref);
+    p_pol_fcu.e += 90.0f;  // move elevation to [0, 180]
+    h_min = std::min(h_rel, h_min);
+    h_max = std::max(h_rel, h_max);
     v_min = std::min(p_pol_fcu.e, v_min);
     v_max = std::max(p_pol_fcu.e, v_max);
   }
 
-  float h_diff = std::min(h_max - h_min, 360.0f - h_max + h_min);
+  float h_diff = h_max - h_min;
   float v_diff = std::min(v_max - v_min, 360.0f - v_max + v_min);
 
   if (h_diff > fov.h_fov_deg) {
     fov.h_fov_deg = h_diff;
-
-    // Note: the wrapping here assumes the FOV of one camera is < 180 degrees!
-    if (h_diff >= h_max - h_min) {
-      fov.yaw_deg = wrapAngleToPlusMinus180((h_max + h_min) / 2.0 - 180.0f);  // center of camera in [-180, 180]
-    } else {
-      fov.yaw_deg = wrapAngleToPlusMinus180((h_max + h_min) / 2.0);
-    }
+    fov.yaw_deg = wrapAngleToPlusMinus180(h_ref + (h_max + h_min) / 2.0f);  // center of camera in [-180, 180]
   }
 
   // Note: no wrapping in elevation! If the camera sees the zenith or nadir,
-- 
2.43.0


From 052ae6688669ca31e53d2a28c030228f0d6aedce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:02 +0000
Subject: [PATCH 24/47] fix: let the cell size and speed node radius parameters
 reach the planner

CELL_SCALE and SPEEDNODE_RADIUS were static variables in headers, so that the
node changed its own copies and the planner library never saw the configured
values. The values of the first configuration (all level bits set) were dropped
as well.
---
 global_planner/include/global_planner/cell.h  |  2 +-
 global_planner/include/global_planner/node.h  |  2 +-
 global_planner/src/library/cell.cpp           |  2 ++
 global_planner/src/library/node.cpp           |  2 ++
 .../src/nodes/global_planner_node.cpp         | 21 +++++++++++++++++--
 5 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/global_planner/include/global_planner/cell.h b/global_planner/include/global_planner/cell.h
index 5eb30d3..8493e5f 100644
--- a/global_planner/include/global_planner/cell.h
+++ b/global_planner/include/global_planner/cell.h
@@ -11,7 +11,7 @@
 
 namespace global_planner {
 
-static double CELL_SCALE = 1.0;
+extern double CELL_SCALE;
 
 class Cell {
  public:
diff --git a/global_planner/include/global_planner/node.h b/global_planner/include/global_planner/node.h
index 49c134f..31205e4 100644
--- a/global_planner/include/global_planner/node.h
+++ b/global_planner/include/global_planner/node.h
@@ -67,7 +67,7 @@ class NodeWithoutSmooth : public Node {
   double getRotation(const Node& other) const { return 0.0; }
 };
 
-static double SPEEDNODE_RADIUS = 5.0;
+extern double SPEEDNODE_RADIUS;
 // Node represents 3D position, orientation and speed
 // TODO: Needs to check the risk of Cells between cell and parent
 class SpeedNode : public Node {
diff --git a/global_planner/src/library/cell.cpp b/global_planner/src/library/cell.cpp
index 80aeacb..a909ad4 100644
--- a/global_planner/src/library/cell.cpp
+++ b/global_planner/src/library/cell.cpp
@@ -2,6 +2,8 @@
 
 namespace global_planner {
 
+double CELL_SCALE = 1.0;
+
 Cell::Cell() = default;
 Cell::Cell(std::tuple<int, int, int> new_tuple) : tpl_(new_tuple) {}
 Cell::Cell(double x, double y, double z) : tpl_(floor(x / CELL_SCALE), floor(y / CELL_SCALE), floor(z / CELL_SCALE)) {}
diff --git a/global_planner/src/library/node.cpp b/global_planner/src/library/node.cpp
index 6f631f0..de723cb 100644
--- a/global_planner/src/library/node.cpp
+++ b/global_planner/src/library/node.cpp
@@ -2,6 +2,8 @@
 
 namespace global_planner {
 
+double SPEEDNODE_RADIUS = 5.0;
+
 bool Node::isSmaller(const Node& other) const {
   return cell_ < other.cell_ || (cell_ == other.cell_ && parent_ < other.parent_);
 }
diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index 877907b..da3e576 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -186,12 +186,29 @@ void GlobalPlannerNode::dynamicReconfigureCallback(global_planner::GlobalPlanner
   simplify_margin_ = config.simplify_margin_;
 
   // cell
-  if (level == 2) {
+  if ((level & 2) && CELL_SCALE != config.CELL_SCALE) {
+    // Cells are indices: keep the positions of the goals and forget everything known about the old cells
+    std::vector<GoalCell> goals = waypoints_;
+    goals.push_back(global_planner_.goal_pos_);
+    std::vector<geometry_msgs::Point> positions;
+    for (const GoalCell& goal : goals) {
+      positions.push_back(goal.toPoint());
+    }
     CELL_SCALE = config.CELL_SCALE;
+    for (size_t i = 0; i < goals.size(); ++i) {
+      goals[i] = GoalCell(Cell(positions[i]), goals[i].radius_, goals[i].is_temporary_);
+    }
+    global_planner_.setGoal(goals.back());
+    goals.pop_back();
+    waypoints_ = goals;
+    global_planner_.curr_path_.clear();
+    global_planner_.path_back_.clear();
+    global_planner_.occupied_.clear();
+    global_planner_.risk_cache_.clear();
   }
 
   // node
-  if (level == 4) {
+  if (level & 4) {
     SPEEDNODE_RADIUS = config.SPEEDNODE_RADIUS;
     global_planner_.default_node_type_ = config.default_node_type_;
   }
-- 
2.43.0


From eef49217d1c61d9c55156a24d2b20bc9fab8a61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:02 +0000
Subject: [PATCH 25/47] fix: pass the simplification margin and the number of
 iterations in the right order

---
 global_planner/src/nodes/global_planner_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index da3e576..9c5a36a 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -391,7 +391,7 @@ void GlobalPlannerNode::publishPath() {
   setCurrentPath(path_msg.poses);
   smooth_path_pub_.publish(smoothPath(path_msg));
 
-  auto simple_path = simplifyPath(&global_planner_, global_planner_.curr_path_, simplify_iterations_, simplify_margin_);
+  auto simple_path = simplifyPath(&global_planner_, global_planner_.curr_path_, simplify_margin_, simplify_iterations_);
   auto simple_path_msg = global_planner_.getPathMsg(simple_path);
   global_temp_path_pub_.publish(simple_path_msg);
   setCurrentPath(simple_path_msg.poses);
-- 
2.43.0


From 410981a409aa8d88cdae0b98b0acedb3b6ddd340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:02 +0000
Subject: [PATCH 26/47] fix: let use_risk_based_speedup_ control the risk based
 speed

---
 global_planner/src/nodes/global_planner_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index 9c5a36a..404298d 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -407,7 +407,7 @@ void GlobalPlannerNode::printPointInfo(double x, double y, double z) {
 void GlobalPlannerNode::publishSetpoint() {
   // Vector pointing from current position to the current goal
   tf::Vector3 vec = toTfVector3(subtractPoints(current_goal_.pose.position, last_pos_.pose.position));
-  if (global_planner_.use_speedup_heuristics_) {
+  if (global_planner_.use_risk_based_speedup_) {
     Cell cur_cell =
         global_planner::Cell(last_pos_.pose.position.x, last_pos_.pose.position.y, last_pos_.pose.position.z);
     double cur_risk = std::sqrt(global_planner_.getRisk(cur_cell));
-- 
2.43.0


From f0b6c2be86f6ae1621004d5d10446a00f99d2d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:02 +0000
Subject: [PATCH 27/47] fix: initialise the map resolution, robot radius and
 yaw of the global planner

The risk at the vehicle is queried for the speed before the first map arrives.
---
 global_planner/include/global_planner/global_planner.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/global_planner/include/global_planner/global_planner.h b/global_planner/include/global_planner/global_planner.h
index eaf464c..61baead 100644
--- a/global_planner/include/global_planner/global_planner.h
+++ b/global_planner/include/global_planner/global_planner.h
@@ -59,7 +59,7 @@ class GlobalPlanner {
   // TODO: rename and remove not needed
   std::vector<Cell> path_back_;
   geometry_msgs::Point curr_pos_;
-  double curr_yaw_;
+  double curr_yaw_ = 0.0;
   geometry_msgs::Vector3 curr_vel_;
   GoalCell goal_pos_ = GoalCell(0.5, 0.5, 3.5);
   bool going_back_ = true;  // we start by just finding the start position
@@ -145,8 +145,8 @@ class GlobalPlanner {
   void setRobotRadius(double radius);
 
  private:
-  double robot_radius_;
-  double octree_resolution_;
+  double robot_radius_ = 0.5;
+  double octree_resolution_ = 1.0;
 };
 
 }  // namespace global_planner
-- 
2.43.0


From f50c11301279b4b9e22aab7f608447b602f19635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:02 +0000
Subject: [PATCH 28/47] fix: no square root of a negative number in
 getFlowNeighbors

For a radius of two or more cells the NaN became INT_MIN, and every cell got a
'neighbour' far below the ground, whose risk of 1 made the cell illegal.
---
 global_planner/src/library/cell.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global_planner/src/library/cell.cpp b/global_planner/src/library/cell.cpp
index a909ad4..f431b3c 100644
--- a/global_planner/src/library/cell.cpp
+++ b/global_planner/src/library/cell.cpp
@@ -69,7 +69,7 @@ std::vector<Cell> Cell::getFlowNeighbors(int radius) const {
   std::vector<Cell> cells;
   auto ceilDistance = [](int radius, int x, int y) {
     auto sqr = [](int i) { return double(i * i); };
-    return static_cast<int>(std::ceil(std::sqrt(sqr(radius) - sqr(x) - sqr(y))));
+    return static_cast<int>(std::ceil(std::sqrt(std::max(0.0, sqr(radius) - sqr(x) - sqr(y)))));
   };
   for (int x = -radius; x <= radius; x++) {
     int y_radius = ceilDistance(radius, x, 0);
-- 
2.43.0


From a13223316cdbe96c7ca428431e37873bc52e2fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:02 +0000
Subject: [PATCH 29/47] fix: a turn from the x to the y direction is a turn

getXYRotation tested the y index of the wrong node for vertical movement.
---
 global_planner/src/library/node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global_planner/src/library/node.cpp b/global_planner/src/library/node.cpp
index de723cb..dafcaf2 100644
--- a/global_planner/src/library/node.cpp
+++ b/global_planner/src/library/node.cpp
@@ -67,7 +67,7 @@ double Node::getRotation(const Node& other) const {
 double Node::getXYRotation(const Node& other) const {
   Cell this_diff = (cell_ - parent_);
   Cell other_diff = (other.cell_ - other.parent_);
-  if ((this_diff.xIndex() == 0 && this_diff.yIndex() == 0) || (other_diff.xIndex() == 0 && this_diff.yIndex() == 0)) {
+  if ((this_diff.xIndex() == 0 && this_diff.yIndex() == 0) || (other_diff.xIndex() == 0 && other_diff.yIndex() == 0)) {
     return 0.0;  // Vertical movement
   }
   double this_ang = this_diff.angle();
-- 
2.43.0


From 49b0b1146f534fa3cd64e3481d5d099d9ab54f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:49 +0000
Subject: [PATCH 30/47] fix: altitudes outside of the table of priors

The heuristic read beyond accumulated_alt_prior_ for goals below the ground or
above 24 cells, and the unsigned comparison in getAltPrior gave cells below the
ground the prior of the highest ones.
---
 global_planner/include/global_planner/global_planner.h | 1 +
 global_planner/src/library/global_planner.cpp          | 9 +++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/global_planner/include/global_planner/global_planner.h b/global_planner/include/global_planner/global_planner.h
index 61baead..ab3271a 100644
--- a/global_planner/include/global_planner/global_planner.h
+++ b/global_planner/include/global_planner/global_planner.h
@@ -116,6 +116,7 @@ class GlobalPlanner {
   double getEdgeDist(const Cell& u, const Cell& v);
   double getSingleCellRisk(const Cell& cell);
   double getAltPrior(const Cell& cell);
+  double getAccumulatedAltPrior(int index);
   bool isOccupied(const Cell& cell);
   bool isLegal(const Node& node);
   double getRisk(const Cell& cell);
diff --git a/global_planner/src/library/global_planner.cpp b/global_planner/src/library/global_planner.cpp
index d04f49f..83ce13d 100644
--- a/global_planner/src/library/global_planner.cpp
+++ b/global_planner/src/library/global_planner.cpp
@@ -163,7 +163,7 @@ double GlobalPlanner::getSingleCellRisk(const Cell& cell) {
 double GlobalPlanner::getAltPrior(const Cell& cell) {
   int index = std::round(cell.zPos());
 
-  if (index > alt_prior_.size() - 1) {
+  if (index > static_cast<int>(alt_prior_.size()) - 1) {
     return alt_prior_.back();
   } else if (index < 0) {
     return alt_prior_.front();
@@ -172,6 +172,11 @@ double GlobalPlanner::getAltPrior(const Cell& cell) {
   }
 }
 
+double GlobalPlanner::getAccumulatedAltPrior(int index) {
+  int last = static_cast<int>(accumulated_alt_prior_.size()) - 1;
+  return accumulated_alt_prior_[std::min(std::max(index, 0), last)];
+}
+
 bool GlobalPlanner::isOccupied(const Cell& cell) { return getSingleCellRisk(cell) > 0.5; }
 
 bool GlobalPlanner::isLegal(const Node& node) {
@@ -256,7 +261,7 @@ double GlobalPlanner::riskHeuristic(const Cell& u, const Cell& goal) {
   double xy_dist = u.diagDistance2D(goal) - 1.0;  // XY distance excluding the goal cell
   double xy_risk = xy_dist * unexplored_risk * getAltPrior(u);
   double z_risk =
-      unexplored_risk * std::abs(accumulated_alt_prior_[u.zIndex()] - accumulated_alt_prior_[goal.zIndex()]);
+      unexplored_risk * std::abs(getAccumulatedAltPrior(u.zIndex()) - getAccumulatedAltPrior(goal.zIndex()));
   // TODO: instead of subtracting 1 from the xy_dist, subtract 1 from the
   // combined xy and z dist
   double goal_risk = getRisk(goal) * risk_factor_;
-- 
2.43.0


From 9fa470dda6d3f7a0510b75f625d6f1d79bd2d944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:49 +0000
Subject: [PATCH 31/47] fix: keep the configured number of iterations after a
 last resort search

---
 global_planner/src/library/global_planner.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/global_planner/src/library/global_planner.cpp b/global_planner/src/library/global_planner.cpp
index 83ce13d..4aae6a7 100644
--- a/global_planner/src/library/global_planner.cpp
+++ b/global_planner/src/library/global_planner.cpp
@@ -477,8 +477,10 @@ bool GlobalPlanner::findPath(std::vector<Cell>& path) {
   // Last resort, try 2d search at max_altitude_
   if (!found_path) {
     printf("No path found, search in 2D \n");
+    int configured_iterations = max_iterations_;
     max_iterations_ = 5000;
     found_path = find2DPath(this, path, s, t, parent_of_s, max_altitude_);
+    max_iterations_ = configured_iterations;
   }
 
   return found_path;
-- 
2.43.0


From 87eb07c2bc875102f9f91751c5eae7e62d2469de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:49 +0000
Subject: [PATCH 32/47] fix: last resort search above the start and the goal
 for every cell size

The indices of the cells were taken for coordinates.
---
 global_planner/include/global_planner/search_tools.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/global_planner/include/global_planner/search_tools.h b/global_planner/include/global_planner/search_tools.h
index 65ac372..42b1120 100644
--- a/global_planner/include/global_planner/search_tools.h
+++ b/global_planner/include/global_planner/search_tools.h
@@ -205,8 +205,8 @@ template <typename GlobalPlanner>
 bool find2DPath(GlobalPlanner* global_planner, std::vector<Cell>& path, const Cell& s, const Cell& t,
                 const Cell& start_parent, double alt) {
   std::vector<Cell> up_path;
-  Cell above_s(Cell(s.xIndex(), s.yIndex(), alt));
-  Cell above_t(Cell(t.xIndex(), t.yIndex(), alt));
+  Cell above_s(s.xPos(), s.yPos(), alt);
+  Cell above_t(t.xPos(), t.yPos(), alt);
   bool found_up_path = findPathOld(global_planner, up_path, s, above_s, s, true);
   std::vector<Cell> down_path;
   bool found_down_path = findPathOld(global_planner, down_path, above_t, t, above_t, true);
-- 
2.43.0


From e785089e1a0526902c684308cc04d741b5d7bc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:49 +0000
Subject: [PATCH 33/47] fix: let use_current_yaw_ have an effect

The parent of the start was assigned to a shadowing local variable.
---
 global_planner/src/library/global_planner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global_planner/src/library/global_planner.cpp b/global_planner/src/library/global_planner.cpp
index 4aae6a7..ee61b08 100644
--- a/global_planner/src/library/global_planner.cpp
+++ b/global_planner/src/library/global_planner.cpp
@@ -425,7 +425,7 @@ bool GlobalPlanner::findPath(std::vector<Cell>& path) {
   // behind the start cell Cell parent_of_s = Cell(curr_pos_);
   Cell parent_of_s(subtractPoints(curr_pos_, scalePoint(curr_vel_, search_time_)));
   if (!use_current_yaw_) {
-    Cell parent_of_s = s;  // Ignore the current yaw
+    parent_of_s = s;  // Ignore the current yaw
   }
 
   ROS_INFO("Planning a path from %s to %s", s.asString().c_str(), t.asString().c_str());
-- 
2.43.0


From d64e4cd28354078ec4173bfb1e367829177e0810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:49 +0000
Subject: [PATCH 34/47] fix: ignore maps which are not an OcTree instead of
 crashing

---
 global_planner/src/library/global_planner.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/global_planner/src/library/global_planner.cpp b/global_planner/src/library/global_planner.cpp
index ee61b08..e1b5bcc 100644
--- a/global_planner/src/library/global_planner.cpp
+++ b/global_planner/src/library/global_planner.cpp
@@ -67,11 +67,17 @@ void GlobalPlanner::setFrame(std::string frame_id) { frame_id_ = frame_id; }
 // Going through the octomap can take more than 50 ms for 100m x 100m explored
 // map
 void GlobalPlanner::updateFullOctomap(octomap::AbstractOcTree* tree) {
+  octomap::OcTree* new_octree = dynamic_cast<octomap::OcTree*>(tree);
+  if (!new_octree) {
+    ROS_WARN("Ignoring a map that is not an OcTree");
+    delete tree;
+    return;
+  }
   risk_cache_.clear();
   if (octree_) {
     delete octree_;
   }
-  octree_ = dynamic_cast<octomap::OcTree*>(tree);
+  octree_ = new_octree;
   octree_resolution_ = octree_->getResolution();
 }
 
-- 
2.43.0


From 25fa39721cb517bb14a3a95983bdf6ddb0ce3a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:49 +0000
Subject: [PATCH 35/47] fix: forget cached risks when the parameters change

The planner mixed risks of the old and the new parameters until the next map.
---
 global_planner/src/nodes/global_planner_node.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index 404298d..a698c36 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -155,6 +155,7 @@ void GlobalPlannerNode::setIntermediateGoal() {
 }
 
 void GlobalPlannerNode::dynamicReconfigureCallback(global_planner::GlobalPlannerNodeConfig& config, uint32_t level) {
+  std::lock_guard<std::mutex> lock(mutex_);
   // global_planner_
   global_planner_.min_altitude_ = config.min_altitude_;
   global_planner_.max_altitude_ = config.max_altitude_;
@@ -178,6 +179,7 @@ void GlobalPlannerNode::dynamicReconfigureCallback(global_planner::GlobalPlanner
   global_planner_.use_risk_heuristics_ = config.use_risk_heuristics_;
   global_planner_.use_speedup_heuristics_ = config.use_speedup_heuristics_;
   global_planner_.use_risk_based_speedup_ = config.use_risk_based_speedup_;
+  global_planner_.risk_cache_.clear();  // The risk of a cell depends on the parameters
 
   // global_planner_node
   clicked_goal_alt_ = config.clicked_goal_alt_;
@@ -204,7 +206,6 @@ void GlobalPlannerNode::dynamicReconfigureCallback(global_planner::GlobalPlanner
     global_planner_.curr_path_.clear();
     global_planner_.path_back_.clear();
     global_planner_.occupied_.clear();
-    global_planner_.risk_cache_.clear();
   }
 
   // node
-- 
2.43.0


From 33a5d4a2ca0a4a9912a243779dddfefa6e3ed531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:49 +0000
Subject: [PATCH 36/47] fix: no NaN setpoint when the vehicle is exactly at the
 current goal

---
 global_planner/src/nodes/global_planner_node.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index a698c36..6324cd1 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -426,7 +426,9 @@ void GlobalPlannerNode::publishSetpoint() {
 
   // If we are less than 1.0 away, then we should stop at the goal
   double new_len = vec.length() < 1.0 ? vec.length() : speed_;
-  vec.normalize();
+  if (vec.length() > 0.0) {
+    vec.normalize();
+  }
   vec *= new_len;
 
   auto setpoint = current_goal_;  // The intermediate position sent to Mavros
-- 
2.43.0


From 5c90a4add368e5ff36125c6f27147f40f55850f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:49 +0000
Subject: [PATCH 37/47] fix: stop at the current position when the goal is
 blocked

The path of a stopped planner is a single pose, which was ignored, so that the
vehicle continued to the current point of the path it had given up.
---
 global_planner/src/nodes/global_planner_node.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index 6324cd1..33fe036 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -325,12 +325,12 @@ void GlobalPlannerNode::depthCameraCallback(const sensor_msgs::PointCloud2& msg)
 void GlobalPlannerNode::setCurrentPath(const std::vector<geometry_msgs::PoseStamped>& poses) {
   path_.clear();
 
-  if (poses.size() < 2) {
+  if (poses.empty()) {
     ROS_INFO("  Received empty path\n");
     return;
   }
-  last_goal_ = poses[0];
-  current_goal_ = poses[1];
+  last_goal_ = poses.front();
+  current_goal_ = poses.size() > 1 ? poses[1] : poses[0];
 
   for (int i = 2; i < poses.size(); ++i) {
     path_.push_back(poses[i]);
-- 
2.43.0


From dad967dfe66bba789f364376ad5cb1d9715b31d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:46 +0000
Subject: [PATCH 38/47] fix: planning ends when the start is in the goal and
 min_overestimate_factor_ is 1

The factor converges to 1 and never falls below its minimum; a search without
iterations does not use up the iterations left either.
---
 global_planner/src/library/global_planner.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/global_planner/src/library/global_planner.cpp b/global_planner/src/library/global_planner.cpp
index e1b5bcc..7cef21c 100644
--- a/global_planner/src/library/global_planner.cpp
+++ b/global_planner/src/library/global_planner.cpp
@@ -477,7 +477,11 @@ bool GlobalPlanner::findPath(std::vector<Cell>& path) {
     }
     last_iter = search_info.num_iter;
     iter_left -= last_iter;
-    overestimate_factor_ = (overestimate_factor_ - 1.0) / 4.0 + 1.0;
+    double next_overestimate_factor = (overestimate_factor_ - 1.0) / 4.0 + 1.0;
+    if (next_overestimate_factor >= overestimate_factor_) {
+      break;  // Already without overestimation, searching again would give the same path
+    }
+    overestimate_factor_ = next_overestimate_factor;
   }
 
   // Last resort, try 2d search at max_altitude_
-- 
2.43.0


From 55da555c1072969f540b5fad97ad6928bbf6016f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:13 +0000
Subject: [PATCH 39/47] fix: the 2D search does not cross obstacles when
 risk_factor_ is 0

---
 global_planner/include/global_planner/search_tools.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/global_planner/include/global_planner/search_tools.h b/global_planner/include/global_planner/search_tools.h
index 42b1120..f53fc44 100644
--- a/global_planner/include/global_planner/search_tools.h
+++ b/global_planner/include/global_planner/search_tools.h
@@ -299,10 +299,11 @@ bool findPathOld(GlobalPlanner* global_planner, std::vector<Cell>& path, const C
     for (const auto& v_cell_dist : neighbors) {
       Cell v = v_cell_dist.first;
       double edge_cost = v_cell_dist.second;  // Use getEdgeCost
-      double risk = global_planner->risk_factor_ * global_planner->getRisk(v);
-      if (risk > global_planner->risk_factor_ * global_planner->max_cell_risk_ && v != t) {
+      double cell_risk = global_planner->getRisk(v);
+      if (cell_risk > global_planner->max_cell_risk_ && v != t) {
         continue;
       }
+      double risk = global_planner->risk_factor_ * cell_risk;
       double new_dist = d + edge_cost + risk;
       double old_dist = getWithDefault(distance, v, INFINITY);
       if (new_dist < old_dist) {
-- 
2.43.0


From 7290a6c9ec64436aa51f3a45a71cddde040da4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:36 +0000
Subject: [PATCH 40/47] fix: compare the costs of a search in double precision

getWithDefault(distance, v, INFINITY) returned a float, so that an equal cost could
look like an improvement: with free descents the parents of the nodes formed a
cycle and the search never returned.
---
 global_planner/include/global_planner/common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global_planner/include/global_planner/common.h b/global_planner/include/global_planner/common.h
index 04ebe42..1430962 100644
--- a/global_planner/include/global_planner/common.h
+++ b/global_planner/include/global_planner/common.h
@@ -19,7 +19,7 @@ inline double interpolate(double start, double end, double ratio) { return start
 
 // Returns Map[key] if it exists, default_val otherwise
 template <typename Key, typename Value, typename Map>
-Value getWithDefault(Map& m, const Key& key, const Value& default_val) {
+typename Map::mapped_type getWithDefault(Map& m, const Key& key, const Value& default_val) {
   if (m.find(key) != m.end()) {
     return m[key];
   }
-- 
2.43.0


From bdf649cddeb67be9030b1c258d04bea75e618ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:02 +0000
Subject: [PATCH 41/47] fix: a point clicked before the first map arrives does
 not crash the global planner node

---
 global_planner/include/global_planner/analysis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global_planner/include/global_planner/analysis.h b/global_planner/include/global_planner/analysis.h
index 9ce202b..5fd8ce3 100644
--- a/global_planner/include/global_planner/analysis.h
+++ b/global_planner/include/global_planner/analysis.h
@@ -116,7 +116,7 @@ void printPointStats(GlobalPlanner* global_planner, double x, double y, double z
   double heuristics = global_planner->getHeuristic(Node(cell, cell), global_planner->goal_pos_);
   ROS_INFO("Heuristics: %2.2f", heuristics);
 
-  octomap::OcTreeNode* node = global_planner->octree_->search(x, y, z);
+  octomap::OcTreeNode* node = global_planner->octree_ ? global_planner->octree_->search(x, y, z) : nullptr;
   if (node) {
     double prob = octomap::probability(node->getValue());
     double post_prob = posterior(global_planner->getAltPrior(cell), prob);
-- 
2.43.0


From f5ef1ad97a24659c60d90ab25539481b68793baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:42 +0000
Subject: [PATCH 42/47] fix: the flow diagram generator ignores comments

---
 tools/generate_flow_diagram.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tools/generate_flow_diagram.py b/tools/generate_flow_diagram.py
index 6340266..b54a17e 100755
--- a/tools/generate_flow_diagram.py
+++ b/tools/generate_flow_diagram.py
@@ -1,5 +1,6 @@
 #!/usr/bin/python
 
+import re
 import sys
 
 NORMAL = "normal"
@@ -12,6 +13,10 @@ class Transition:
         self.end = end
         self.style = style
 
+def remove_comments(file_string):
+    return re.sub(r"//[^\n]*|/\*.*?\*/", " ", file_string, flags=re.DOTALL)
+
+
 def extract_first_wrapped(table_string, key):
     try:
         start = table_string.index(key)
@@ -117,7 +122,7 @@ def main():
     with open(filename, 'r') as file:
         cpp_string = file.read()
 
-    transitions = extract_transitions(cpp_string)
+    transitions = extract_transitions(remove_comments(cpp_string))
     dot_file_string = make_dot_file_string(transitions)
 
     if len(arguments) == 2:
-- 
2.43.0


From 174699e53fe219487c8ee7277d897f3e226fff8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:32 +0000
Subject: [PATCH 43/47] fix: histogram image announced 255 instead of 60 bytes
 per row, receivers rejected it as malformed

---
 local_planner/src/nodes/local_planner_visualization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/local_planner/src/nodes/local_planner_visualization.cpp b/local_planner/src/nodes/local_planner_visualization.cpp
index 553d929..53a97b9 100644
--- a/local_planner/src/nodes/local_planner_visualization.cpp
+++ b/local_planner/src/nodes/local_planner_visualization.cpp
@@ -311,7 +311,7 @@ void LocalPlannerVisualization::publishDataImages(const std::vector<uint8_t>& hi
   hist_img.width = GRID_LENGTH_Z;
   hist_img.encoding = sensor_msgs::image_encodings::MONO8;
   hist_img.is_bigendian = 0;
-  hist_img.step = 255;
+  hist_img.step = hist_img.width;
   hist_img.data = histogram_image_data;
 
   histogram_image_pub_.publish(hist_img);
-- 
2.43.0


From f6416f8d479f1fb46687d29103c3eea1e7ce446a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:02 +0000
Subject: [PATCH 44/47] fix: heading in the cost image was converted from
 degrees to degrees as if it were radians

---
 local_planner/src/nodes/local_planner_visualization.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/local_planner/src/nodes/local_planner_visualization.cpp b/local_planner/src/nodes/local_planner_visualization.cpp
index 53a97b9..fba909f 100644
--- a/local_planner/src/nodes/local_planner_visualization.cpp
+++ b/local_planner/src/nodes/local_planner_visualization.cpp
@@ -278,8 +278,8 @@ void LocalPlannerVisualization::publishDataImages(const std::vector<uint8_t>& hi
   cost_img.data = cost_image_data;
 
   // current orientation
-  float curr_yaw_fcu_frame = getYawFromQuaternion(newest_orientation);
-  float yaw_angle_histogram_frame = -static_cast<float>(curr_yaw_fcu_frame) * 180.0f / M_PI_F + 90.0f;
+  float curr_yaw_fcu_frame_deg = getYawFromQuaternion(newest_orientation);
+  float yaw_angle_histogram_frame = -curr_yaw_fcu_frame_deg + 90.0f;
   PolarPoint heading_pol(0, yaw_angle_histogram_frame, 1.0);
   Eigen::Vector2i heading_index = polarToHistogramIndex(heading_pol, ALPHA_RES);
 
-- 
2.43.0


From f0eb8d310e4be7b5b33c7082271a336214e23635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:00 +0000
Subject: [PATCH 45/47] fix: malformed world file ended the node instead of
 being reported

---
 avoidance/src/rviz_world_loader.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/avoidance/src/rviz_world_loader.cpp b/avoidance/src/rviz_world_loader.cpp
index 943bc82..f89cd87 100644
--- a/avoidance/src/rviz_world_loader.cpp
+++ b/avoidance/src/rviz_world_loader.cpp
@@ -25,7 +25,11 @@ WorldVisualizer::WorldVisualizer(const ros::NodeHandle& nh, const std::string& n
 void WorldVisualizer::loopCallback(const ros::TimerEvent& event) {
   // visualize world in RVIZ
   if (!world_path_.empty()) {
-    if (visualizeRVIZWorld(world_path_)) ROS_WARN("[WorldVisualizer] Failed to visualize Rviz world");
+    try {
+      if (visualizeRVIZWorld(world_path_)) ROS_WARN("[WorldVisualizer] Failed to visualize Rviz world");
+    } catch (const YAML::Exception& ex) {
+      ROS_WARN("[WorldVisualizer] Failed to visualize Rviz world, malformed world file: %s", ex.what());
+    }
   }
 }
 
-- 
2.43.0


From 798adf5dcf8a5543458f29835e7bf663c873291c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:00 +0000
Subject: [PATCH 46/47] fix: model lookup without GAZEBO_MODEL_PATH crashed,
 without HOME found nothing

---
 avoidance/src/rviz_world_loader.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/avoidance/src/rviz_world_loader.cpp b/avoidance/src/rviz_world_loader.cpp
index f89cd87..6c27791 100644
--- a/avoidance/src/rviz_world_loader.cpp
+++ b/avoidance/src/rviz_world_loader.cpp
@@ -38,8 +38,9 @@ int WorldVisualizer::resolveUri(std::string& uri) {
   char* gazebo_model_path = getenv("GAZEBO_MODEL_PATH");
   char* home = getenv("HOME");
   uri = uri.substr(7, std::string::npos);
-  std::stringstream all_locations(gazebo_model_path, std::ios_base::app | std::ios_base::out | std::ios_base::in);
-  all_locations << ":" << home << "/.gazebo/models";
+  std::stringstream all_locations;
+  if (gazebo_model_path) all_locations << gazebo_model_path << ":";
+  if (home) all_locations << home << "/.gazebo/models";
   std::string current_location;
   while (getline(all_locations, current_location, ':')) {
     struct stat s;
-- 
2.43.0


From 5c40ad33223729bdcfd34697fa636abe8173278b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:32 +0000
Subject: [PATCH 47/47] fix: landing area was displayed half a cell off the
 cells it shows

---
 safe_landing_planner/src/nodes/waypoint_generator_node.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
index 084a8d4..4694c3f 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
@@ -221,8 +221,8 @@ void WaypointGeneratorNode::landingAreaVisualization() {
 
   for (size_t k = offset - slc; k <= offset + slc; k++) {
     for (size_t l = offset - slc; l <= offset + slc; l++) {
-      cell.pose.position.x = grid_min.x() + (cell_size * k);
-      cell.pose.position.y = grid_min.y() + (cell_size * l);
+      cell.pose.position.x = grid_min.x() + (cell_size * k) + (cell_size / 2.f);
+      cell.pose.position.y = grid_min.y() + (cell_size * l) + (cell_size / 2.f);
       cell.pose.position.z = 1;
       if (result(k, l)) {
         cell.color.r = 0.0;
-- 
2.43.0

