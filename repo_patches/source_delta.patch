From d7b67839e1d6914904617f5eb9741f2ff53c6813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 01/59] fix: polarFCUToCartesian mirrored the elevation
 (positive pitch points down)

---
 avoidance/src/common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/avoidance/src/common.cpp b/avoidance/src/common.cpp
index 9a8e21a..a6e3700 100644
--- a/avoidance/src/common.cpp
+++ b/avoidance/src/common.cpp
@@ -135,7 +135,7 @@ Eigen::Vector3f polarFCUToCartesian(const PolarPoint& p_pol, const Eigen::Vector
   Eigen::Vector3f p;
   p.x() = pos.x() + p_pol.r * std::sin((90.0f - p_pol.e) * DEG_TO_RAD) * std::cos(p_pol.z * DEG_TO_RAD);
   p.y() = pos.y() + p_pol.r * std::sin((90.0f - p_pol.e) * DEG_TO_RAD) * std::sin(p_pol.z * DEG_TO_RAD);
-  p.z() = pos.z() + p_pol.r * std::cos((90.0f - p_pol.e) * DEG_TO_RAD);
+  p.z() = pos.z() - p_pol.r * std::cos((90.0f - p_pol.e) * DEG_TO_RAD);  // positive pitch points down
 
   return p;
 }
-- 
2.43.0


From 00fe19fa52002940426fee39a54b2203236863d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:15 +0000
Subject: [PATCH 02/59] fix: fields of view reaching across +-180 degrees
 contained no direction

---
 avoidance/src/common.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/avoidance/src/common.cpp b/avoidance/src/common.cpp
index a6e3700..29235a0 100644
--- a/avoidance/src/common.cpp
+++ b/avoidance/src/common.cpp
@@ -18,9 +18,8 @@ bool pointInsideFOV(const std::vector<FOV>& fov_vec, const PolarPoint& p_pol) {
 }
 
 bool pointInsideFOV(const FOV& fov, const PolarPoint& p_pol) {
-  return p_pol.z <= wrapAngleToPlusMinus180(fov.yaw_deg + fov.h_fov_deg / 2.f) &&
-         p_pol.z >= wrapAngleToPlusMinus180(fov.yaw_deg - fov.h_fov_deg / 2.f) &&
-         p_pol.e <= fov.pitch_deg + fov.v_fov_deg / 2.f && p_pol.e >= fov.pitch_deg - fov.v_fov_deg / 2.f;
+  return pointInsideYawFOV(fov, p_pol) && p_pol.e <= fov.pitch_deg + fov.v_fov_deg / 2.f &&
+         p_pol.e >= fov.pitch_deg - fov.v_fov_deg / 2.f;
 }
 
 bool histogramIndexYawInsideFOV(const std::vector<FOV>& fov_vec, const int idx, Eigen::Vector3f position,
@@ -64,8 +63,8 @@ bool pointInsideYawFOV(const std::vector<FOV>& fov_vec, const PolarPoint& p_pol)
 }
 
 bool pointInsideYawFOV(const FOV& fov, const PolarPoint& p_pol) {
-  return p_pol.z <= wrapAngleToPlusMinus180(fov.yaw_deg + fov.h_fov_deg / 2.f) &&
-         p_pol.z >= wrapAngleToPlusMinus180(fov.yaw_deg - fov.h_fov_deg / 2.f);
+  // compare the wrapped difference: the FOV may reach across +-180 degrees
+  return std::abs(wrapAngleToPlusMinus180(p_pol.z - fov.yaw_deg)) <= fov.h_fov_deg / 2.f;
 }
 
 bool isInWhichFOV(const std::vector<FOV>& fov_vec, const PolarPoint& p_pol, int& idx) {
-- 
2.43.0


From 0290632b769244ccea8186dd35963ffaf2e8a4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:32 +0000
Subject: [PATCH 03/59] fix: field of view estimate of a backwards looking
 camera was cut at +-180 degrees

---
 avoidance/src/common.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/avoidance/src/common.cpp b/avoidance/src/common.cpp
index 29235a0..4375e87 100644
--- a/avoidance/src/common.cpp
+++ b/avoidance/src/common.cpp
@@ -403,29 +403,29 @@ pcl::PointCloud<pcl::PointXYZ> removeNaNAndGetMaxima(pcl::PointCloud<pcl::PointX
 
 void updateFOVFromMaxima(FOV& fov, const pcl::PointCloud<pcl::PointXYZ>& maxima) {
   float h_min = 9999.f, h_max = -9999.f, v_min = 9999.f, v_max = -9999.f;
+  if (maxima.points.empty()) return;
+
+  // azimuths are measured relative to the first point, so that an FOV reaching across +-180 degrees has no seam in it
+  const float h_ref = cartesianToPolarFCU(maxima.points[0]).z;
 
   for (auto p : maxima) {
     PolarPoint p_pol_fcu = cartesianToPolarFCU(p);
-    p_pol_fcu.z += 180.0f;  // move azimuth to [0, 360]
-    p_pol_fcu.e += 90.0f;   // move elevation to [0, 180]
+    p_pol_fcu.z = wrapAngleToPlusMinus180(p_pol_fcu.z - h_ref);
+    p_pol_fcu.e += 90.0f;  // move elevation to [0, 180]
     h_min = std::min(p_pol_fcu.z, h_min);
     h_max = std::max(p_pol_fcu.z, h_max);
     v_min = std::min(p_pol_fcu.e, v_min);
     v_max = std::max(p_pol_fcu.e, v_max);
   }
 
-  float h_diff = std::min(h_max - h_min, 360.0f - h_max + h_min);
+  float h_diff = h_max - h_min;
   float v_diff = std::min(v_max - v_min, 360.0f - v_max + v_min);
 
   if (h_diff > fov.h_fov_deg) {
     fov.h_fov_deg = h_diff;
 
     // Note: the wrapping here assumes the FOV of one camera is < 180 degrees!
-    if (h_diff >= h_max - h_min) {
-      fov.yaw_deg = wrapAngleToPlusMinus180((h_max + h_min) / 2.0 - 180.0f);  // center of camera in [-180, 180]
-    } else {
-      fov.yaw_deg = wrapAngleToPlusMinus180((h_max + h_min) / 2.0);
-    }
+    fov.yaw_deg = wrapAngleToPlusMinus180(h_ref + (h_max + h_min) / 2.0f);  // center of camera in [-180, 180]
   }
 
   // Note: no wrapping in elevation! If the camera sees the zenith or nadir,
-- 
2.43.0


From 452687a14b3ce070a27b95ddf9a570993797d593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 04/59] fix: an exactly matching transform was not found when
 it was the only one buffered

---
 avoidance/src/transform_buffer.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/avoidance/src/transform_buffer.cpp b/avoidance/src/transform_buffer.cpp
index d5d91f3..dbaec9c 100644
--- a/avoidance/src/transform_buffer.cpp
+++ b/avoidance/src/transform_buffer.cpp
@@ -75,6 +75,13 @@ bool TransformBuffer::getTransform(const std::string& source_frame, const std::s
       return false;
     } else {
       const tf::StampedTransform* previous = &iterator->second.back();
+      if (previous->stamp_ == time) {
+        // exact match with the newest transform, which may be the only one
+        transform.stamp_ = time;
+        transform.setOrigin(previous->getOrigin());
+        transform.setRotation(previous->getRotation());
+        return true;
+      }
       for (std::deque<tf::StampedTransform>::const_reverse_iterator it = ++iterator->second.rbegin();
            it != iterator->second.rend(); ++it) {
         if (it->stamp_ <= time) {
-- 
2.43.0


From 326114568e78e108f9a4488d1b5dae6b13530ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:53 +0000
Subject: [PATCH 05/59] fix: destroying an initialised AvoidanceNode terminated
 the process (worker thread never stopped or joined)

---
 avoidance/include/avoidance/avoidance_node.h |  4 ++++
 avoidance/src/avoidance_node.cpp             | 18 ++++++++++++------
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/avoidance/include/avoidance/avoidance_node.h b/avoidance/include/avoidance/avoidance_node.h
index 9cbb0e4..65b717e 100644
--- a/avoidance/include/avoidance/avoidance_node.h
+++ b/avoidance/include/avoidance/avoidance_node.h
@@ -10,6 +10,8 @@
 #include "avoidance/common.h"
 #include "mavros_msgs/CompanionProcessStatus.h"
 
+#include <condition_variable>
+#include <mutex>
 #include <thread>
 
 namespace avoidance {
@@ -70,6 +72,8 @@ class AvoidanceNode {
   std::unique_ptr<std::mutex> param_cb_mutex_;
 
   std::thread worker_;
+  std::mutex exit_mutex_;  // guards should_exit_
+  std::condition_variable exit_cv_;
 
   double cmdloop_dt_, statusloop_dt_;
   double timeout_termination_;
diff --git a/avoidance/src/avoidance_node.cpp b/avoidance/src/avoidance_node.cpp
index 75881ec..5e2423f 100644
--- a/avoidance/src/avoidance_node.cpp
+++ b/avoidance/src/avoidance_node.cpp
@@ -15,7 +15,14 @@ AvoidanceNode::AvoidanceNode(const ros::NodeHandle& nh, const ros::NodeHandle& n
   param_cb_mutex_.reset(new std::mutex);
 }
 
-AvoidanceNode::~AvoidanceNode() {}
+AvoidanceNode::~AvoidanceNode() {
+  {
+    std::lock_guard<std::mutex> lck(exit_mutex_);
+    should_exit_ = true;
+  }
+  exit_cv_.notify_all();
+  if (worker_.joinable()) worker_.join();
+}
 
 void AvoidanceNode::init() {
   mavros_system_status_pub_ = nh_.advertise<mavros_msgs::CompanionProcessStatus>("mavros/companion_process/status", 1);
@@ -132,7 +139,7 @@ void AvoidanceNode::checkPx4Parameters() {
       val = req.response.value.real;
     }
   };
-  while (!should_exit_) {
+  while (true) {
     bool is_param_not_initialized = true;
     {
       std::lock_guard<std::mutex> lck(*(param_cb_mutex_));
@@ -157,10 +164,9 @@ void AvoidanceNode::checkPx4Parameters() {
           !std::isfinite(px4_.param_mpc_yawrauto_max);
     }
 
-    if (is_param_not_initialized) {
-      std::this_thread::sleep_for(std::chrono::seconds(5));
-    } else {
-      std::this_thread::sleep_for(std::chrono::seconds(30));
+    std::unique_lock<std::mutex> lck(exit_mutex_);
+    if (exit_cv_.wait_for(lck, std::chrono::seconds(is_param_not_initialized ? 5 : 30), [this] { return should_exit_; })) {
+      break;
     }
   }
 }
-- 
2.43.0


From d7a2cab683f022ee7e4583b512543e515319ae3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:29 +0000
Subject: [PATCH 06/59] fix: data races on the companion state and the mission
 speed of AvoidanceNode

---
 avoidance/include/avoidance/avoidance_node.h | 5 +++--
 avoidance/src/avoidance_node.cpp             | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/avoidance/include/avoidance/avoidance_node.h b/avoidance/include/avoidance/avoidance_node.h
index 65b717e..2518b68 100644
--- a/avoidance/include/avoidance/avoidance_node.h
+++ b/avoidance/include/avoidance/avoidance_node.h
@@ -10,6 +10,7 @@
 #include "avoidance/common.h"
 #include "mavros_msgs/CompanionProcessStatus.h"
 
+#include <atomic>
 #include <condition_variable>
 #include <mutex>
 #include <thread>
@@ -66,7 +67,7 @@ class AvoidanceNode {
   std::unique_ptr<ros::AsyncSpinner> cmdloop_spinner_;
   std::unique_ptr<ros::AsyncSpinner> statusloop_spinner_;
 
-  MAV_STATE companion_state_ = MAV_STATE::MAV_STATE_STANDBY;
+  std::atomic<MAV_STATE> companion_state_{MAV_STATE::MAV_STATE_STANDBY};  // read by the status loop's spinner thread
 
   ModelParameters px4_;  // PX4 Firmware paramters
   std::unique_ptr<std::mutex> param_cb_mutex_;
@@ -83,7 +84,7 @@ class AvoidanceNode {
   bool position_received_;
   bool should_exit_;
 
-  float mission_item_speed_;
+  std::atomic<float> mission_item_speed_;  // written by a callback, read by the planner's thread
 
   void cmdLoopCallback(const ros::TimerEvent& event);
   void statusLoopCallback(const ros::TimerEvent& event);
diff --git a/avoidance/src/avoidance_node.cpp b/avoidance/src/avoidance_node.cpp
index 5e2423f..ddff379 100644
--- a/avoidance/src/avoidance_node.cpp
+++ b/avoidance/src/avoidance_node.cpp
@@ -61,7 +61,7 @@ void AvoidanceNode::publishSystemStatus() {
   mavros_msgs::CompanionProcessStatus status_msg;
   status_msg.header.stamp = ros::Time::now();
   status_msg.component = 196;  // MAV_COMPONENT_ID_AVOIDANCE
-  status_msg.state = (int)companion_state_;
+  status_msg.state = (int)companion_state_.load();
 
   mavros_system_status_pub_.publish(status_msg);
 }
-- 
2.43.0


From c5f3f023ed46594b0c3e783bccd40dfbc8ac2204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 07/59] fix: trajectory simulation towards a zero velocity
 setpoint produced NaN

---
 local_planner/src/utils/trajectory_simulator.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/local_planner/src/utils/trajectory_simulator.cpp b/local_planner/src/utils/trajectory_simulator.cpp
index 46ce756..29fa218 100644
--- a/local_planner/src/utils/trajectory_simulator.cpp
+++ b/local_planner/src/utils/trajectory_simulator.cpp
@@ -35,9 +35,10 @@ std::vector<simulation_state> TrajectorySimulator::generate_trajectory(const Eig
   // calculate P and D constants such that they hit the jerk limit when
   // doing accel from 0
   float max_accel_norm = std::min(2 * std::sqrt(config_.max_jerk_norm), config_.max_acceleration_norm);
-  float P_constant =
-      (std::sqrt(sqr(max_accel_norm) + config_.max_jerk_norm * desired_velocity.norm()) - max_accel_norm) /
-      desired_velocity.norm() * 10;
+  // (this is (sqrt(a^2 + j * v) - a) / v, written such that it has a value for a desired velocity of zero)
+  float P_constant = config_.max_jerk_norm /
+                     (std::sqrt(sqr(max_accel_norm) + config_.max_jerk_norm * desired_velocity.norm()) + max_accel_norm) *
+                     10;
   float D_constant = 2 * std::sqrt(P_constant);
 
   simulation_state run_state = start_;
-- 
2.43.0


From 5a8c8606581c4173b80066ef7239a61d349d4505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:51 +0000
Subject: [PATCH 08/59] fix: trajectory simulation kept a limit-sized
 acceleration in a wrong direction and ran away from the setpoint

---
 .../src/utils/trajectory_simulator.cpp         | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/local_planner/src/utils/trajectory_simulator.cpp b/local_planner/src/utils/trajectory_simulator.cpp
index 29fa218..ceaedc9 100644
--- a/local_planner/src/utils/trajectory_simulator.cpp
+++ b/local_planner/src/utils/trajectory_simulator.cpp
@@ -43,25 +43,15 @@ std::vector<simulation_state> TrajectorySimulator::generate_trajectory(const Eig
 
   simulation_state run_state = start_;
   for (int i = 0; i < num_steps; i++) {
-    float single_step_time = step_time_;
     const Eigen::Vector3f damped_jerk =
         jerk_for_velocity_setpoint(P_constant, D_constant, config_.max_jerk_norm, desired_velocity, run_state);
 
-    // limit time step to not exceed the maximum acceleration, but clamp
-    // jerk to 0 if at maximum acceleration already
-    const Eigen::Vector3f requested_accel = run_state.acceleration + single_step_time * damped_jerk;
-    Eigen::Vector3f jerk = damped_jerk;
-    if (requested_accel.squaredNorm() > sqr(max_accel_norm)) {
-      single_step_time =
-          (max_accel_norm - run_state.acceleration.norm()) / damped_jerk.norm();  // Use a dot product here somewhere?
-      if (single_step_time <= FLT_EPSILON || single_step_time > step_time_) {
-        jerk = Eigen::Vector3f::Zero();
-        single_step_time = step_time_;
-      }
-    }
+    // limit the jerk such that the acceleration ends up within its limit (this only ever shortens the jerk)
+    const Eigen::Vector3f next_accel = norm_clamp<3>(run_state.acceleration + step_time_ * damped_jerk, max_accel_norm);
+    const Eigen::Vector3f jerk = (next_accel - run_state.acceleration) / step_time_;
 
     // update the state based on motion equations with the final jerk
-    run_state = simulate_step_constant_jerk(run_state, jerk, single_step_time);
+    run_state = simulate_step_constant_jerk(run_state, jerk, step_time_);
     timepoints.push_back(run_state);
   }
 
-- 
2.43.0


From a7b52fda5fd1adeb2005a5b4fc3662042dc5d72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:08 +0000
Subject: [PATCH 09/59] fix: zero children per node (allowed by dynamic
 reconfigure) read the top of an empty queue

---
 local_planner/src/nodes/planner_functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/local_planner/src/nodes/planner_functions.cpp b/local_planner/src/nodes/planner_functions.cpp
index 19560c9..c48c14f 100644
--- a/local_planner/src/nodes/planner_functions.cpp
+++ b/local_planner/src/nodes/planner_functions.cpp
@@ -240,7 +240,7 @@ void getBestCandidatesFromCostMatrix(const Eigen::MatrixXf& matrix, unsigned int
 
       if (queue.size() < number_of_candidates) {
         queue.push(candidate);
-      } else if (candidate < queue.top()) {
+      } else if (!queue.empty() && candidate < queue.top()) {
         queue.push(candidate);
         queue.pop();
       }
-- 
2.43.0


From ac6aff5ebbbb383510f48829072778359c2683cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:55 +0000
Subject: [PATCH 10/59] fix: the first waypoint was smoothed over the whole
 time since second 99999 of the clock and could jump arbitrarily far

---
 local_planner/include/local_planner/waypoint_generator.h | 4 ++--
 local_planner/src/nodes/waypoint_generator.cpp           | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/local_planner/include/local_planner/waypoint_generator.h b/local_planner/include/local_planner/waypoint_generator.h
index 15b7c0b..40f5eb0 100644
--- a/local_planner/include/local_planner/waypoint_generator.h
+++ b/local_planner/include/local_planner/waypoint_generator.h
@@ -48,8 +48,8 @@ class WaypointGenerator : public usm::StateMachine<PlannerState> {
 
   float curr_yaw_rad_ = NAN;
   float curr_pitch_deg_ = NAN;
-  ros::Time last_time_{99999.};
-  ros::Time current_time_{99999.};
+  ros::Time last_time_{0.};
+  ros::Time current_time_{0.};
 
   float smoothing_speed_xy_{10.f};
   float smoothing_speed_z_{3.0f};
diff --git a/local_planner/src/nodes/waypoint_generator.cpp b/local_planner/src/nodes/waypoint_generator.cpp
index 730168f..5106953 100644
--- a/local_planner/src/nodes/waypoint_generator.cpp
+++ b/local_planner/src/nodes/waypoint_generator.cpp
@@ -204,8 +204,9 @@ void WaypointGenerator::calculateWaypoint() {
   output_.linear_velocity_wp = Eigen::Vector3f(NAN, NAN, NAN);
 
   // Timing
-  last_time_ = current_time_;
-  current_time_ = getSystemTime();
+  const ros::Time now = getSystemTime();
+  last_time_ = current_time_.isZero() ? now : current_time_;
+  current_time_ = now;
 
   iterateOnce();
   output_.waypoint_type = getState();
-- 
2.43.0


From 9a77c548f2f7ded67be04085493e68d14cf0b6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:55 +0000
Subject: [PATCH 11/59] fix: the yaw rate of the waypoint sent to the flight
 controller was never initialised

---
 local_planner/src/nodes/waypoint_generator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/local_planner/src/nodes/waypoint_generator.cpp b/local_planner/src/nodes/waypoint_generator.cpp
index 5106953..0aea8d0 100644
--- a/local_planner/src/nodes/waypoint_generator.cpp
+++ b/local_planner/src/nodes/waypoint_generator.cpp
@@ -202,6 +202,7 @@ void WaypointGenerator::calculateWaypoint() {
   ROS_DEBUG("\033[1;32m[WG] Generate Waypoint, current position: [%f, %f, %f].\033[0m", position_.x(), position_.y(),
             position_.z());
   output_.linear_velocity_wp = Eigen::Vector3f(NAN, NAN, NAN);
+  output_.angular_velocity_wp = Eigen::Vector3f(NAN, NAN, NAN);
 
   // Timing
   const ros::Time now = getSystemTime();
-- 
2.43.0


From 2fd8bb11c208e5de41a0a8ec8fbb8c08c1b0e82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:55 +0000
Subject: [PATCH 12/59] fix: loitering during a landing kept sending the
 landing target instead of holding the position

---
 local_planner/src/nodes/waypoint_generator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/local_planner/src/nodes/waypoint_generator.cpp b/local_planner/src/nodes/waypoint_generator.cpp
index 0aea8d0..54fa987 100644
--- a/local_planner/src/nodes/waypoint_generator.cpp
+++ b/local_planner/src/nodes/waypoint_generator.cpp
@@ -164,6 +164,7 @@ usm::Transition WaypointGenerator::runLoiter() {
   if (state_changed_ || hover_position_.array().hasNaN()) {
     hover_position_ = position_;
   }
+  auto_land_ = false;  // hold the position: a landing is only resumed after loitering
   output_.goto_position = hover_position_;
   ROS_DEBUG("[WG] Hover at: [%f, %f, %f].", output_.goto_position.x(), output_.goto_position.y(),
             output_.goto_position.z());
-- 
2.43.0


From b519f35176282c2ba264d9be4340770be2f68353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:28 +0000
Subject: [PATCH 13/59] fix: a point just inside the landing grid's upper limit
 could be written beyond the last cell

---
 safe_landing_planner/src/nodes/safe_landing_planner.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/safe_landing_planner/src/nodes/safe_landing_planner.cpp b/safe_landing_planner/src/nodes/safe_landing_planner.cpp
index 66849cf..b6cf1fe 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner.cpp
@@ -148,7 +148,8 @@ Eigen::Vector2i SafeLandingPlanner::computeGridIndexes(float x, float y) {
   grid_.getGridLimits(grid_min, grid_max);
   Eigen::Vector2i idx(static_cast<int>(std::floor((x - grid_min.x()) / grid_.getCellSize())),
                       static_cast<int>(std::floor((y - grid_min.y()) / grid_.getCellSize())));
-  return idx;
+  // due to rounding, a point just inside the upper limit may end up one cell beyond the last one
+  return idx.cwiseMin(grid_.getRowColSize() - 1);
 }
 
 std::pair<float, float> SafeLandingPlanner::computeOnlineMeanVariance(float prev_mean, float prev_variance,
-- 
2.43.0


From cea66db4008d650accfba6b7520fbe216e486be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:28 +0000
Subject: [PATCH 14/59] fix: with max_n_mean_diff_cells set to 0 no cell was
 ever landable

---
 safe_landing_planner/src/nodes/safe_landing_planner.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/safe_landing_planner/src/nodes/safe_landing_planner.cpp b/safe_landing_planner/src/nodes/safe_landing_planner.cpp
index b6cf1fe..45751e1 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner.cpp
@@ -117,13 +117,11 @@ void SafeLandingPlanner::isLandingPossible() {
 
     // threshold each cell based on the number of landable cells in the
     // neighborhood
-    land_accumulator = (land_accumulator.array() <= min_n_land_cells_).select(0, land_accumulator);
-    land_accumulator = (land_accumulator.array() > min_n_land_cells_).select(1, land_accumulator);
+    land_accumulator = (land_accumulator.array() > min_n_land_cells_).cast<int>();
 
     // threshold each cell based on the number of cells in the neighborhood with
     // mean value difference greater than mean_diff_thr_
-    mean_accumulator = (mean_accumulator.array() <= max_n_mean_diff_cells_).select(1, mean_accumulator);
-    mean_accumulator = (mean_accumulator.array() > max_n_mean_diff_cells_).select(0, mean_accumulator);
+    mean_accumulator = (mean_accumulator.array() <= max_n_mean_diff_cells_).cast<int>();
 
     // logical AND between mean_accumulator and land_accumulator
     land_accumulator = mean_accumulator.cwiseProduct(land_accumulator);
-- 
2.43.0


From 4d675f407ba0c8241340ff8b1791767db0636854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:28 +0000
Subject: [PATCH 15/59] fix: a recorded grid of another size was combined with
 the previous grid of the old size

---
 safe_landing_planner/src/nodes/safe_landing_planner.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/safe_landing_planner/src/nodes/safe_landing_planner.cpp b/safe_landing_planner/src/nodes/safe_landing_planner.cpp
index 45751e1..e66294b 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner.cpp
@@ -53,14 +53,15 @@ void SafeLandingPlanner::processPointcloud() {
 
 void SafeLandingPlanner::processRawGrid() {
   grid_seq_ = raw_grid_.header.seq;
-  std::swap(previous_grid_, grid_);
-  grid_.reset();
-  grid_.setFilterLimits(position_);
-
   if (grid_.getGridSize() != raw_grid_.grid_size || grid_.getCellSize() != raw_grid_.cell_size) {
     grid_.resize(raw_grid_.grid_size, raw_grid_.cell_size);
+    previous_grid_.resize(raw_grid_.grid_size, raw_grid_.cell_size);
   }
 
+  std::swap(previous_grid_, grid_);
+  grid_.reset();
+  grid_.setFilterLimits(position_);
+
   for (int i = 0; i < raw_grid_.mean.layout.dim[0].size; i++) {
     for (int j = 0; j < raw_grid_.mean.layout.dim[1].size; j++) {
       Eigen::Vector2i grid_index = Eigen::Vector2i(i, j);
-- 
2.43.0


From 3779509a73c5e599ef406de12328e484ee4472b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:05 +0000
Subject: [PATCH 16/59] fix: a landing area larger than the grid, or of one
 cell, was read and evaluated beyond its end

---
 .../waypoint_generator.hpp                    |  6 +++
 .../src/nodes/waypoint_generator.cpp          | 37 +++++++++++--------
 2 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/safe_landing_planner/include/safe_landing_planner/waypoint_generator.hpp b/safe_landing_planner/include/safe_landing_planner/waypoint_generator.hpp
index 284e20d..d21393e 100644
--- a/safe_landing_planner/include/safe_landing_planner/waypoint_generator.hpp
+++ b/safe_landing_planner/include/safe_landing_planner/waypoint_generator.hpp
@@ -123,6 +123,12 @@ class WaypointGenerator : public usm::StateMachine<SLPState> {
   **/
   float landingAreaHeightPercentile(float percentile);
 
+  /**
+  * @brief      radius in cells of the area that needs to be landable: the
+  *             configured one, or the largest one that fits into the grid
+  **/
+  int landCellRadius() const;
+
   bool evaluatePatch(Eigen::Vector2i& left_upper_corner);
 
   void initializeMask();
diff --git a/safe_landing_planner/src/nodes/waypoint_generator.cpp b/safe_landing_planner/src/nodes/waypoint_generator.cpp
index f6dd9cf..7a3f042 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator.cpp
@@ -41,10 +41,15 @@ WaypointGenerator::WaypointGenerator()
   initializeMask();
 }
 
+int WaypointGenerator::landCellRadius() const {
+  return std::max(0, std::min(smoothing_land_cell_, (static_cast<int>(grid_slp_.land_.rows()) - 1) / 2));
+}
+
 void WaypointGenerator::initializeMask() {
+  const int radius = (mask_.rows() - 1) / 2;
   for (int i = 0; i < mask_.rows(); i++) {
     for (int j = 0; j < mask_.cols(); j++) {
-      mask_(i, j) = std::hypot(i - smoothing_land_cell_, j - smoothing_land_cell_) < (smoothing_land_cell_ + 0.5f);
+      mask_(i, j) = std::hypot(i - radius, j - radius) < (radius + 0.5f);
     }
   }
 }
@@ -60,8 +65,9 @@ void WaypointGenerator::calculateWaypoint() {
 }
 
 void WaypointGenerator::updateSLPState() {
-  if (update_smoothing_size_ || mask_.rows() != (smoothing_land_cell_ * 2 + 1)) {
-    mask_.resize((smoothing_land_cell_ * 2 + 1), (smoothing_land_cell_ * 2 + 1));
+  const int radius = landCellRadius();
+  if (update_smoothing_size_ || mask_.rows() != (radius * 2 + 1)) {
+    mask_.resize((radius * 2 + 1), (radius * 2 + 1));
 
     initializeMask();
     update_smoothing_size_ = false;
@@ -270,22 +276,22 @@ usm::Transition WaypointGenerator::runEvaluateGrid() {
            loiter_position_.y(), loiter_position_.z(), loiter_yaw_);
 
   landing_radius_ = 0.5f;
+  const int radius = landCellRadius();
   Eigen::Vector2i center = Eigen::Vector2i(grid_slp_.land_.rows() / 2, grid_slp_.land_.cols() / 2);
   Eigen::Vector2i offset = Eigen::Vector2i(grid_slp_.land_.rows() / 2, grid_slp_.land_.cols() / 2);
 
-  Eigen::Vector2i left_upper_corner =
-      Eigen::Vector2i(center.x() - smoothing_land_cell_, center.y() - smoothing_land_cell_);
+  Eigen::Vector2i left_upper_corner = Eigen::Vector2i(center.x() - radius, center.y() - radius);
   can_land_ = evaluatePatch(left_upper_corner);
   if (can_land_) {
     decision_taken_ = true;
     return usm::Transition::NEXT2;  // GOTO_LAND
   }
 
-  int n_iterations = (1 + (grid_slp_.land_.rows() - (2 * smoothing_land_cell_ + 1)) / stride_) / 2;
+  int n_iterations = (1 + (grid_slp_.land_.rows() - (2 * radius + 1)) / stride_) / 2;
   for (int i = 1; i < n_iterations; i++) {
     for (int j = 0; j < exploration_pattern.size(); j++) {
-      offset.x() = center.x() + exploration_pattern[j].x() * i * stride_ - smoothing_land_cell_;
-      offset.y() = center.y() + exploration_pattern[j].y() * i * stride_ - smoothing_land_cell_;
+      offset.x() = center.x() + exploration_pattern[j].x() * i * stride_ - radius;
+      offset.y() = center.y() + exploration_pattern[j].y() * i * stride_ - radius;
       can_land_ = evaluatePatch(offset);
 
       if (can_land_) {
@@ -294,8 +300,8 @@ usm::Transition WaypointGenerator::runEvaluateGrid() {
 
         grid_slp_.getGridLimits(min, max);
         goal_ = Eigen::Vector3f(
-            position_.x() + (offset.x() + smoothing_land_cell_ - grid_slp_.land_.rows() / 2) * grid_slp_.getCellSize(),
-            position_.y() + (offset.y() + smoothing_land_cell_ - grid_slp_.land_.cols() / 2) * grid_slp_.getCellSize(),
+            position_.x() + (offset.x() + radius - grid_slp_.land_.rows() / 2) * grid_slp_.getCellSize(),
+            position_.y() + (offset.y() + radius - grid_slp_.land_.cols() / 2) * grid_slp_.getCellSize(),
             position_.z());
 
         velocity_setpoint_.z() = NAN;
@@ -324,19 +330,20 @@ bool WaypointGenerator::inVerticalRange() {
 }
 
 float WaypointGenerator::landingAreaHeightPercentile(float percentile) {
-  std::vector<float> altitude_landing_area((smoothing_land_cell_ * 2 + 1) * (smoothing_land_cell_ * 2 + 1));
+  const int radius = landCellRadius();
+  std::vector<float> altitude_landing_area((radius * 2 + 1) * (radius * 2 + 1));
 
   int offset_center = grid_slp_.land_.rows() / 2;
-  for (int i = offset_center - smoothing_land_cell_; i <= offset_center + smoothing_land_cell_; i++) {
-    for (int j = offset_center - smoothing_land_cell_; j <= offset_center + smoothing_land_cell_; j++) {
-      int index = (smoothing_land_cell_ * 2 + 1) * (i - offset_center + smoothing_land_cell_) +
-                  (j - offset_center + smoothing_land_cell_);
+  for (int i = offset_center - radius; i <= offset_center + radius; i++) {
+    for (int j = offset_center - radius; j <= offset_center + radius; j++) {
+      int index = (radius * 2 + 1) * (i - offset_center + radius) + (j - offset_center + radius);
       altitude_landing_area[index] = grid_slp_.mean_(i, j);
     }
   }
 
   std::sort(altitude_landing_area.begin(), altitude_landing_area.end());
   int index = static_cast<int>(std::round(percentile / 100.f * altitude_landing_area.size()));
+  index = std::min(index, static_cast<int>(altitude_landing_area.size()) - 1);
   return altitude_landing_area[index];
 }
 }
-- 
2.43.0


From c276b22c3023ea32b41c1f21d2b806c93110491e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:05 +0000
Subject: [PATCH 17/59] fix: a landing setpoint without any finite height or
 climb rate was sent as valid

---
 safe_landing_planner/src/nodes/waypoint_generator_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
index bf8887c..8b0f0bb 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
@@ -157,7 +157,7 @@ void WaypointGeneratorNode::publishTrajectorySetpoints(const Eigen::Vector3f &po
   bool xy_vel_sp_valid = std::isfinite(setpoint.point_1.velocity.x) && std::isfinite(setpoint.point_1.velocity.y);
 
   if ((xy_pos_sp_valid || xy_vel_sp_valid) &&
-      (std::isfinite(setpoint.point_1.position.z || std::isfinite(setpoint.point_1.velocity.z)))) {
+      (std::isfinite(setpoint.point_1.position.z) || std::isfinite(setpoint.point_1.velocity.z))) {
     setpoint.point_valid = {true, false, false, false, false};
   } else {
     setpoint.point_valid = {false, false, false, false, false};
-- 
2.43.0


From a3b338f959ffff98e4d31190bfa37c6328ed2f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:05 +0000
Subject: [PATCH 18/59] fix: drawing the landing area wrote outside the grid
 unless it had 40x40 cells

---
 safe_landing_planner/src/nodes/waypoint_generator_node.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
index 8b0f0bb..aafe714 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
@@ -208,13 +208,12 @@ void WaypointGeneratorNode::landingAreaVisualization() {
   Eigen::MatrixXi kernel(waypointGenerator_.can_land_hysteresis_matrix_.rows(),
                          waypointGenerator_.can_land_hysteresis_matrix_.cols());
   kernel.fill(0);
-  kernel.block(20 - waypointGenerator_.smoothing_land_cell_, 20 - waypointGenerator_.smoothing_land_cell_,
-               waypointGenerator_.mask_.rows(), waypointGenerator_.mask_.cols()) = waypointGenerator_.mask_;
+  int slc = waypointGenerator_.landCellRadius();
+  kernel.block(offset - slc, offset - slc, waypointGenerator_.mask_.rows(), waypointGenerator_.mask_.cols()) =
+      waypointGenerator_.mask_;
 
   Eigen::MatrixXi result = waypointGenerator_.can_land_hysteresis_result_.cwiseProduct(kernel);
 
-  int slc = waypointGenerator_.smoothing_land_cell_;
-
   for (size_t k = offset - slc; k <= offset + slc; k++) {
     for (size_t l = offset - slc; l <= offset + slc; l++) {
       cell.pose.position.x = grid_min.x() + (cell_size * k);
-- 
2.43.0


From 77f8a25ae8e017fe2e31a8d2d2a7f306537e9237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:23 +0000
Subject: [PATCH 19/59] fix: the landing planner's worker thread used mutexes
 that did not exist yet, raced on a flag and was never joined

---
 .../safe_landing_planner_node.hpp                |  4 ++--
 .../src/nodes/safe_landing_planner_node.cpp      | 16 +++++++++++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/safe_landing_planner/include/safe_landing_planner/safe_landing_planner_node.hpp b/safe_landing_planner/include/safe_landing_planner/safe_landing_planner_node.hpp
index 00b7fd0..cc85f58 100644
--- a/safe_landing_planner/include/safe_landing_planner/safe_landing_planner_node.hpp
+++ b/safe_landing_planner/include/safe_landing_planner/safe_landing_planner_node.hpp
@@ -29,7 +29,7 @@ namespace avoidance {
 class SafeLandingPlannerNode {
  public:
   SafeLandingPlannerNode(const ros::NodeHandle& nh);
-  ~SafeLandingPlannerNode() = default;
+  ~SafeLandingPlannerNode();
 
   std::unique_ptr<SafeLandingPlanner> safe_landing_planner_;
 
@@ -84,7 +84,7 @@ class SafeLandingPlannerNode {
   SafeLandingPlannerVisualization visualizer_;
 
   bool position_received_ = false;
-  bool cloud_transformed_ = false;
+  std::atomic<bool> cloud_transformed_{false};
   double spin_dt_ = 0.1;
 
   dynamic_reconfigure::Server<safe_landing_planner::SafeLandingPlannerNodeConfig> server_;
diff --git a/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp b/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
index c60eeed..c3c6855 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
@@ -6,6 +6,9 @@ const Eigen::Vector3f nan_setpoint = Eigen::Vector3f(NAN, NAN, NAN);
 
 SafeLandingPlannerNode::SafeLandingPlannerNode(const ros::NodeHandle &nh) : nh_(nh), spin_dt_(0.1) {
   safe_landing_planner_.reset(new SafeLandingPlanner());
+  cloud_msg_mutex_.reset(new std::mutex);
+  transformed_cloud_mutex_.reset(new std::mutex);
+  cloud_ready_cv_.reset(new std::condition_variable);
 
 #ifndef DISABLE_SIMULATION
   world_visualizer_.reset(new avoidance::WorldVisualizer(nh_, ros::this_node::getName()));
@@ -37,6 +40,15 @@ SafeLandingPlannerNode::SafeLandingPlannerNode(const ros::NodeHandle &nh) : nh_(
   start_time_ = ros::Time::now();
 }
 
+SafeLandingPlannerNode::~SafeLandingPlannerNode() {
+  {
+    std::lock_guard<std::mutex> lck(*(cloud_msg_mutex_));
+    should_exit_ = true;
+  }
+  cloud_ready_cv_->notify_all();
+  if (worker_.joinable()) worker_.join();
+}
+
 void SafeLandingPlannerNode::dynamicReconfigureCallback(safe_landing_planner::SafeLandingPlannerNodeConfig &config,
                                                         uint32_t level) {
   rqt_param_config_ = config;
@@ -67,9 +79,6 @@ void SafeLandingPlannerNode::rawGridCallback(const safe_landing_planner::SLPGrid
 void SafeLandingPlannerNode::startNode() {
   // initialize thread
   worker_ = std::thread(&SafeLandingPlannerNode::pointCloudTransformThread, this);
-  cloud_msg_mutex_.reset(new std::mutex);
-  transformed_cloud_mutex_.reset(new std::mutex);
-  cloud_ready_cv_.reset(new std::condition_variable);
 
   ros::TimerOptions timer_options(ros::Duration(spin_dt_),
                                   boost::bind(&SafeLandingPlannerNode::cmdLoopCallback, this, _1), &cmdloop_queue_);
@@ -209,6 +218,7 @@ void SafeLandingPlannerNode::pointCloudTransformThread() {
   while (!should_exit_) {
     {
       std::unique_lock<std::mutex> cloud_msg_lock(*(cloud_msg_mutex_));
+      if (should_exit_) break;
       cloud_ready_cv_->wait(cloud_msg_lock);
     }
     while (cloud_transformed_ == false) {
-- 
2.43.0


From 116af22b270e1c1f4e5d6c40e5a24622c869ee79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:05 +0000
Subject: [PATCH 20/59] fix: the altitude prior was read outside its table
 below the ground and above 25 cells

---
 global_planner/src/library/global_planner.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/global_planner/src/library/global_planner.cpp b/global_planner/src/library/global_planner.cpp
index d04f49f..e7e1fed 100644
--- a/global_planner/src/library/global_planner.cpp
+++ b/global_planner/src/library/global_planner.cpp
@@ -163,7 +163,7 @@ double GlobalPlanner::getSingleCellRisk(const Cell& cell) {
 double GlobalPlanner::getAltPrior(const Cell& cell) {
   int index = std::round(cell.zPos());
 
-  if (index > alt_prior_.size() - 1) {
+  if (index > static_cast<int>(alt_prior_.size()) - 1) {
     return alt_prior_.back();
   } else if (index < 0) {
     return alt_prior_.front();
@@ -255,8 +255,10 @@ double GlobalPlanner::riskHeuristic(const Cell& u, const Cell& goal) {
   double unexplored_risk = (1.0 + 6.0 * neighbor_risk_flow_) * explore_penalty_ * risk_factor_;
   double xy_dist = u.diagDistance2D(goal) - 1.0;  // XY distance excluding the goal cell
   double xy_risk = xy_dist * unexplored_risk * getAltPrior(u);
-  double z_risk =
-      unexplored_risk * std::abs(accumulated_alt_prior_[u.zIndex()] - accumulated_alt_prior_[goal.zIndex()]);
+  auto accumulated_prior = [this](int z) {
+    return accumulated_alt_prior_[std::max(0, std::min(z, static_cast<int>(accumulated_alt_prior_.size()) - 1))];
+  };
+  double z_risk = unexplored_risk * std::abs(accumulated_prior(u.zIndex()) - accumulated_prior(goal.zIndex()));
   // TODO: instead of subtracting 1 from the xy_dist, subtract 1 from the
   // combined xy and z dist
   double goal_risk = getRisk(goal) * risk_factor_;
-- 
2.43.0


From 1f6f3b92052f5f6e6776f0025de762e5d797a41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:05 +0000
Subject: [PATCH 21/59] fix: the global planner read its robot radius, map
 resolution and yaw before they were set

---
 global_planner/include/global_planner/global_planner.h      | 6 +++---
 global_planner/include/global_planner/global_planner_node.h | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/global_planner/include/global_planner/global_planner.h b/global_planner/include/global_planner/global_planner.h
index eaf464c..61baead 100644
--- a/global_planner/include/global_planner/global_planner.h
+++ b/global_planner/include/global_planner/global_planner.h
@@ -59,7 +59,7 @@ class GlobalPlanner {
   // TODO: rename and remove not needed
   std::vector<Cell> path_back_;
   geometry_msgs::Point curr_pos_;
-  double curr_yaw_;
+  double curr_yaw_ = 0.0;
   geometry_msgs::Vector3 curr_vel_;
   GoalCell goal_pos_ = GoalCell(0.5, 0.5, 3.5);
   bool going_back_ = true;  // we start by just finding the start position
@@ -145,8 +145,8 @@ class GlobalPlanner {
   void setRobotRadius(double radius);
 
  private:
-  double robot_radius_;
-  double octree_resolution_;
+  double robot_radius_ = 0.5;
+  double octree_resolution_ = 1.0;
 };
 
 }  // namespace global_planner
diff --git a/global_planner/include/global_planner/global_planner_node.h b/global_planner/include/global_planner/global_planner_node.h
index 3f3c1d4..cf47b10 100644
--- a/global_planner/include/global_planner/global_planner_node.h
+++ b/global_planner/include/global_planner/global_planner_node.h
@@ -108,14 +108,14 @@ class GlobalPlannerNode {
   double mapupdate_dt_;
   double speed_;
   double start_yaw_;
-  bool position_received_;
+  bool position_received_ = false;
   std::string frame_id_;
   std::string camera_frame_id_;
 
   // Dynamic Reconfiguration
   double clicked_goal_alt_;
   double clicked_goal_radius_;
-  bool hover_;
+  bool hover_ = false;
   int simplify_iterations_;
   double simplify_margin_;
 
-- 
2.43.0


From 136d4a1515d8ecdf22f574cc170a99b7ceda4225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:05 +0000
Subject: [PATCH 22/59] fix: a map message that is not an occupancy octree
 crashed the global planner

---
 global_planner/src/library/global_planner.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/global_planner/src/library/global_planner.cpp b/global_planner/src/library/global_planner.cpp
index e7e1fed..5313b82 100644
--- a/global_planner/src/library/global_planner.cpp
+++ b/global_planner/src/library/global_planner.cpp
@@ -67,11 +67,14 @@ void GlobalPlanner::setFrame(std::string frame_id) { frame_id_ = frame_id; }
 // Going through the octomap can take more than 50 ms for 100m x 100m explored
 // map
 void GlobalPlanner::updateFullOctomap(octomap::AbstractOcTree* tree) {
-  risk_cache_.clear();
-  if (octree_) {
-    delete octree_;
+  octomap::OcTree* octree = dynamic_cast<octomap::OcTree*>(tree);
+  if (!octree) {
+    delete tree;  // Not a map we can use, keep the current one
+    return;
   }
-  octree_ = dynamic_cast<octomap::OcTree*>(tree);
+  risk_cache_.clear();
+  delete octree_;
+  octree_ = octree;
   octree_resolution_ = octree_->getResolution();
 }
 
-- 
2.43.0


From b6b603a409517e1754c03ebace487a4f02d4ffe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:05 +0000
Subject: [PATCH 23/59] fix: the rotation towards a vertical movement depended
 on the direction of the movement before it

---
 global_planner/src/library/node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global_planner/src/library/node.cpp b/global_planner/src/library/node.cpp
index 6f631f0..f8173e2 100644
--- a/global_planner/src/library/node.cpp
+++ b/global_planner/src/library/node.cpp
@@ -65,7 +65,7 @@ double Node::getRotation(const Node& other) const {
 double Node::getXYRotation(const Node& other) const {
   Cell this_diff = (cell_ - parent_);
   Cell other_diff = (other.cell_ - other.parent_);
-  if ((this_diff.xIndex() == 0 && this_diff.yIndex() == 0) || (other_diff.xIndex() == 0 && this_diff.yIndex() == 0)) {
+  if ((this_diff.xIndex() == 0 && this_diff.yIndex() == 0) || (other_diff.xIndex() == 0 && other_diff.yIndex() == 0)) {
     return 0.0;  // Vertical movement
   }
   double this_ang = this_diff.angle();
-- 
2.43.0


From 53bbdb92e7d58256f20f3649aefa048d8fa2776f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:05 +0000
Subject: [PATCH 24/59] fix: the risk of an edge without extent was not a
 number

---
 global_planner/src/library/node.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/global_planner/src/library/node.cpp b/global_planner/src/library/node.cpp
index f8173e2..b791e87 100644
--- a/global_planner/src/library/node.cpp
+++ b/global_planner/src/library/node.cpp
@@ -24,6 +24,10 @@ std::vector<NodePtr> Node::getNeighbors() const {
 
 std::unordered_set<Cell> Node::getCells() const {
   std::unordered_set<Cell> cells;
+  if (cell_ == parent_) {
+    cells.insert(cell_);
+    return cells;
+  }
   int dx = cell_.xIndex() - parent_.xIndex();
   int dy = cell_.yIndex() - parent_.yIndex();
   int dz = cell_.zIndex() - parent_.zIndex();
-- 
2.43.0


From 9f766478dff458ab7743396d41948af8680fff2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:05 +0000
Subject: [PATCH 25/59] fix: the number of simplifications was used as the
 allowed cost increase and the other way round

---
 global_planner/src/nodes/global_planner_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index 877907b..a9f8cee 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -374,7 +374,7 @@ void GlobalPlannerNode::publishPath() {
   setCurrentPath(path_msg.poses);
   smooth_path_pub_.publish(smoothPath(path_msg));
 
-  auto simple_path = simplifyPath(&global_planner_, global_planner_.curr_path_, simplify_iterations_, simplify_margin_);
+  auto simple_path = simplifyPath(&global_planner_, global_planner_.curr_path_, simplify_margin_, simplify_iterations_);
   auto simple_path_msg = global_planner_.getPathMsg(simple_path);
   global_temp_path_pub_.publish(simple_path_msg);
   setCurrentPath(simple_path_msg.poses);
-- 
2.43.0


From 3f4470b0c6586377f43060a23480afcae931a55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:05 +0000
Subject: [PATCH 26/59] fix: the setpoint at the goal was not a number, and
 shortly before it lay behind the goal

---
 global_planner/src/nodes/global_planner_node.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index a9f8cee..3a5a265 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -407,9 +407,11 @@ void GlobalPlannerNode::publishSetpoint() {
   }
 
   // If we are less than 1.0 away, then we should stop at the goal
-  double new_len = vec.length() < 1.0 ? vec.length() : speed_;
-  vec.normalize();
-  vec *= new_len;
+  double len = vec.length();
+  double new_len = len < 1.0 ? len : std::min(speed_, len);
+  if (len > 0.0) {
+    vec *= new_len / len;
+  }
 
   auto setpoint = current_goal_;  // The intermediate position sent to Mavros
   setpoint.pose.position.x = last_pos_.pose.position.x + vec.getX();
-- 
2.43.0


From 89be44c3a3be24db1f5c38f3a2371da8c39a616f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:05 +0000
Subject: [PATCH 27/59] fix: without the parameter camera_frame_id no cloud
 could be transformed

---
 global_planner/src/nodes/global_planner_node.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index 3a5a265..6e6ed28 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -82,9 +82,8 @@ void GlobalPlannerNode::readParams() {
   nh_.getParam("pointcloud_topics", camera_topics);
   if (!nh_.hasParam("camera_frame_id")) {
     nh_.setParam("camera_frame_id", "camera_link");
-  } else {
-    nh_.getParam("camera_frame_id", camera_frame_id_);
   }
+  nh_.getParam("camera_frame_id", camera_frame_id_);
 
   initializeCameraSubscribers(camera_topics);
   global_planner_.goal_pos_ = GoalCell(start_pos_.x, start_pos_.y, start_pos_.z);
-- 
2.43.0


From 908b5569c2097c9714a44a45201712607e6a0c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:05 +0000
Subject: [PATCH 28/59] fix: invalid camera points with a valid first
 coordinate were converted to cells

---
 global_planner/src/nodes/global_planner_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index 6e6ed28..29eaac3 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -290,7 +290,7 @@ void GlobalPlannerNode::depthCameraCallback(const sensor_msgs::PointCloud2& msg)
 
     // Store the obstacle points
     for (const auto& p : cloud) {
-      if (!std::isnan(p.x)) {
+      if (std::isfinite(p.x) && std::isfinite(p.y) && std::isfinite(p.z)) {
         // TODO: Not all points end up here
         Cell occupied_cell(p.x, p.y, p.z);
         global_planner_.occupied_.insert(occupied_cell);
-- 
2.43.0


From 8f3e5073b89ee92da1210d07f41c7c5092737b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:05 +0000
Subject: [PATCH 29/59] fix: hashing a cell with a negative index shifted a
 negative number

---
 global_planner/include/global_planner/cell.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/global_planner/include/global_planner/cell.h b/global_planner/include/global_planner/cell.h
index 5eb30d3..e79dbec 100644
--- a/global_planner/include/global_planner/cell.h
+++ b/global_planner/include/global_planner/cell.h
@@ -102,7 +102,10 @@ namespace std {
 template <>
 struct hash<global_planner::Cell> {
   std::size_t operator()(const global_planner::Cell& cell) const {
-    return (std::get<0>(cell.tpl_) << 20) ^ (std::get<1>(cell.tpl_) << 10) ^ std::get<2>(cell.tpl_);
+    std::size_t x = std::get<0>(cell.tpl_);
+    std::size_t y = std::get<1>(cell.tpl_);
+    std::size_t z = std::get<2>(cell.tpl_);
+    return (x << 20) ^ (y << 10) ^ z;
     // return (std::get<0>(cell.tpl_) * 18397) + (std::get<1>(cell.tpl_) *
     // 20483) + (std::get<2>(cell.tpl_) * 29303);
   }
-- 
2.43.0


From 7ca93f03c4ddd9e781699391b0af30e9d4cdaf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:05 +0000
Subject: [PATCH 30/59] fix: switching off the use of the current yaw had no
 effect

---
 global_planner/src/library/global_planner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global_planner/src/library/global_planner.cpp b/global_planner/src/library/global_planner.cpp
index 5313b82..cc8ff5f 100644
--- a/global_planner/src/library/global_planner.cpp
+++ b/global_planner/src/library/global_planner.cpp
@@ -425,7 +425,7 @@ bool GlobalPlanner::findPath(std::vector<Cell>& path) {
   // behind the start cell Cell parent_of_s = Cell(curr_pos_);
   Cell parent_of_s(subtractPoints(curr_pos_, scalePoint(curr_vel_, search_time_)));
   if (!use_current_yaw_) {
-    Cell parent_of_s = s;  // Ignore the current yaw
+    parent_of_s = s;  // Ignore the current yaw
   }
 
   ROS_INFO("Planning a path from %s to %s", s.asString().c_str(), t.asString().c_str());
-- 
2.43.0


From 4f33163b5bba058007fa2c0cacd6c2efe1fa38c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:05 +0000
Subject: [PATCH 31/59] fix: a failed search changed the configured number of
 iterations for good

---
 global_planner/src/library/global_planner.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/global_planner/src/library/global_planner.cpp b/global_planner/src/library/global_planner.cpp
index cc8ff5f..817b2af 100644
--- a/global_planner/src/library/global_planner.cpp
+++ b/global_planner/src/library/global_planner.cpp
@@ -477,8 +477,10 @@ bool GlobalPlanner::findPath(std::vector<Cell>& path) {
   // Last resort, try 2d search at max_altitude_
   if (!found_path) {
     printf("No path found, search in 2D \n");
+    int configured_iterations = max_iterations_;
     max_iterations_ = 5000;
     found_path = find2DPath(this, path, s, t, parent_of_s, max_altitude_);
+    max_iterations_ = configured_iterations;
   }
 
   return found_path;
-- 
2.43.0


From edeb9851d3b636a6a80820673fac8829ca83d1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:05 +0000
Subject: [PATCH 32/59] fix: clicking a point before the first map arrived
 crashed the global planner

---
 global_planner/include/global_planner/analysis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global_planner/include/global_planner/analysis.h b/global_planner/include/global_planner/analysis.h
index 9ce202b..5fd8ce3 100644
--- a/global_planner/include/global_planner/analysis.h
+++ b/global_planner/include/global_planner/analysis.h
@@ -116,7 +116,7 @@ void printPointStats(GlobalPlanner* global_planner, double x, double y, double z
   double heuristics = global_planner->getHeuristic(Node(cell, cell), global_planner->goal_pos_);
   ROS_INFO("Heuristics: %2.2f", heuristics);
 
-  octomap::OcTreeNode* node = global_planner->octree_->search(x, y, z);
+  octomap::OcTreeNode* node = global_planner->octree_ ? global_planner->octree_->search(x, y, z) : nullptr;
   if (node) {
     double prob = octomap::probability(node->getValue());
     double post_prob = posterior(global_planner->getAltPrior(cell), prob);
-- 
2.43.0


From 23cd4c5db79c8a0cdb94d17d95d7173a5e405351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:05 +0000
Subject: [PATCH 33/59] fix: a new goal straight above or below the current one
 was ignored

---
 global_planner/src/nodes/global_planner_node.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index 29eaac3..50abb15 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -254,7 +254,8 @@ void GlobalPlannerNode::moveBaseSimpleCallback(const geometry_msgs::PoseStamped&
 void GlobalPlannerNode::fcuInputGoalCallback(const mavros_msgs::Trajectory& msg) {
   const GoalCell new_goal = GoalCell(msg.point_2.position.x, msg.point_2.position.y, msg.point_2.position.z, 1.0);
   if (msg.point_valid[1] == true && ((std::fabs(global_planner_.goal_pos_.xPos() - new_goal.xPos()) > 0.001) ||
-                                     (std::fabs(global_planner_.goal_pos_.yPos() - new_goal.yPos()) > 0.001))) {
+                                     (std::fabs(global_planner_.goal_pos_.yPos() - new_goal.yPos()) > 0.001) ||
+                                     (std::fabs(global_planner_.goal_pos_.zPos() - new_goal.zPos()) > 0.001))) {
     setNewGoal(new_goal);
   }
 }
-- 
2.43.0


From 86ff2c8382ee602932b17774b3dec0eabb0919c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:30 +0000
Subject: [PATCH 34/59] fix: the last-resort path ignored the cell size, the
 maximum altitude and obstacles above start and goal

---
 global_planner/include/global_planner/search_tools.h | 10 ++++++++--
 global_planner/src/library/global_planner.cpp        |  4 ++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/global_planner/include/global_planner/search_tools.h b/global_planner/include/global_planner/search_tools.h
index 65ac372..2ddb0db 100644
--- a/global_planner/include/global_planner/search_tools.h
+++ b/global_planner/include/global_planner/search_tools.h
@@ -205,8 +205,14 @@ template <typename GlobalPlanner>
 bool find2DPath(GlobalPlanner* global_planner, std::vector<Cell>& path, const Cell& s, const Cell& t,
                 const Cell& start_parent, double alt) {
   std::vector<Cell> up_path;
-  Cell above_s(Cell(s.xIndex(), s.yIndex(), alt));
-  Cell above_t(Cell(t.xIndex(), t.yIndex(), alt));
+  // The highest cells whose center is below alt
+  Cell above_s(s.xPos(), s.yPos(), alt - CELL_SCALE);
+  Cell above_t(t.xPos(), t.yPos(), alt - CELL_SCALE);
+  for (const Cell& above : {above_s, above_t}) {
+    if (above != s && above != t && global_planner->getRisk(above) > global_planner->max_cell_risk_) {
+      return false;
+    }
+  }
   bool found_up_path = findPathOld(global_planner, up_path, s, above_s, s, true);
   std::vector<Cell> down_path;
   bool found_down_path = findPathOld(global_planner, down_path, above_t, t, above_t, true);
diff --git a/global_planner/src/library/global_planner.cpp b/global_planner/src/library/global_planner.cpp
index 817b2af..80345be 100644
--- a/global_planner/src/library/global_planner.cpp
+++ b/global_planner/src/library/global_planner.cpp
@@ -105,10 +105,10 @@ void GlobalPlanner::getOpenNeighbors(const Cell& cell, std::vector<CellDistanceP
   neighbors.push_back(std::make_pair(left, 1.0));
   neighbors.push_back(std::make_pair(righ, 1.0));
   // Vertical neighbors
-  if (is_3D && z < max_altitude_) {
+  if (is_3D && up.zPos() < max_altitude_) {
     neighbors.push_back(std::make_pair(up, up_cost_));
   }
-  if (is_3D && z > min_altitude_) {
+  if (is_3D && down.zPos() > min_altitude_) {
     neighbors.push_back(std::make_pair(down, down_cost_));
   }
 }
-- 
2.43.0


From a8303b176d52ed1cc3d9770d283cad11e40834a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:12 +0000
Subject: [PATCH 35/59] fix: the cell size and the search radius could not be
 configured

---
 global_planner/include/global_planner/cell.h      |  2 +-
 .../include/global_planner/global_planner.h       |  1 +
 global_planner/include/global_planner/node.h      |  2 +-
 global_planner/src/library/cell.cpp               |  2 ++
 global_planner/src/library/global_planner.cpp     | 10 ++++++++++
 global_planner/src/library/node.cpp               |  2 ++
 global_planner/src/nodes/global_planner_node.cpp  | 15 +++++++++++++--
 7 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/global_planner/include/global_planner/cell.h b/global_planner/include/global_planner/cell.h
index e79dbec..987a917 100644
--- a/global_planner/include/global_planner/cell.h
+++ b/global_planner/include/global_planner/cell.h
@@ -11,7 +11,7 @@
 
 namespace global_planner {
 
-static double CELL_SCALE = 1.0;
+extern double CELL_SCALE;
 
 class Cell {
  public:
diff --git a/global_planner/include/global_planner/global_planner.h b/global_planner/include/global_planner/global_planner.h
index 61baead..eb30790 100644
--- a/global_planner/include/global_planner/global_planner.h
+++ b/global_planner/include/global_planner/global_planner.h
@@ -107,6 +107,7 @@ class GlobalPlanner {
   void setGoal(const GoalCell& goal);
   void setPath(const std::vector<Cell>& path);
   void setFrame(std::string frame_id);
+  void resetCells();
 
   void updateFullOctomap(octomap::AbstractOcTree* tree);
 
diff --git a/global_planner/include/global_planner/node.h b/global_planner/include/global_planner/node.h
index 49c134f..31205e4 100644
--- a/global_planner/include/global_planner/node.h
+++ b/global_planner/include/global_planner/node.h
@@ -67,7 +67,7 @@ class NodeWithoutSmooth : public Node {
   double getRotation(const Node& other) const { return 0.0; }
 };
 
-static double SPEEDNODE_RADIUS = 5.0;
+extern double SPEEDNODE_RADIUS;
 // Node represents 3D position, orientation and speed
 // TODO: Needs to check the risk of Cells between cell and parent
 class SpeedNode : public Node {
diff --git a/global_planner/src/library/cell.cpp b/global_planner/src/library/cell.cpp
index 80aeacb..a909ad4 100644
--- a/global_planner/src/library/cell.cpp
+++ b/global_planner/src/library/cell.cpp
@@ -2,6 +2,8 @@
 
 namespace global_planner {
 
+double CELL_SCALE = 1.0;
+
 Cell::Cell() = default;
 Cell::Cell(std::tuple<int, int, int> new_tuple) : tpl_(new_tuple) {}
 Cell::Cell(double x, double y, double z) : tpl_(floor(x / CELL_SCALE), floor(y / CELL_SCALE), floor(z / CELL_SCALE)) {}
diff --git a/global_planner/src/library/global_planner.cpp b/global_planner/src/library/global_planner.cpp
index 80345be..09de9e4 100644
--- a/global_planner/src/library/global_planner.cpp
+++ b/global_planner/src/library/global_planner.cpp
@@ -63,6 +63,16 @@ void GlobalPlanner::setPath(const std::vector<Cell>& path) {
 
 void GlobalPlanner::setFrame(std::string frame_id) { frame_id_ = frame_id; }
 
+// Forgets everything stored in cells except for the goal
+void GlobalPlanner::resetCells() {
+  risk_cache_.clear();
+  bubble_risk_cache_.clear();
+  heuristic_cache_.clear();
+  occupied_.clear();
+  path_back_.clear();
+  setPath({});
+}
+
 // Returns false iff current path has an obstacle
 // Going through the octomap can take more than 50 ms for 100m x 100m explored
 // map
diff --git a/global_planner/src/library/node.cpp b/global_planner/src/library/node.cpp
index b791e87..c23cb78 100644
--- a/global_planner/src/library/node.cpp
+++ b/global_planner/src/library/node.cpp
@@ -2,6 +2,8 @@
 
 namespace global_planner {
 
+double SPEEDNODE_RADIUS = 5.0;
+
 bool Node::isSmaller(const Node& other) const {
   return cell_ < other.cell_ || (cell_ == other.cell_ && parent_ < other.parent_);
 }
diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index 50abb15..af9f440 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -185,12 +185,23 @@ void GlobalPlannerNode::dynamicReconfigureCallback(global_planner::GlobalPlanner
   simplify_margin_ = config.simplify_margin_;
 
   // cell
-  if (level == 2) {
+  if ((level & 2) && CELL_SCALE != config.CELL_SCALE) {
+    // Goals keep their position, everything else stored in cells of the old size is void
+    geometry_msgs::Point goal = global_planner_.goal_pos_.toPoint();
+    std::vector<geometry_msgs::Point> waypoints;
+    for (const GoalCell& waypoint : waypoints_) {
+      waypoints.push_back(waypoint.toPoint());
+    }
     CELL_SCALE = config.CELL_SCALE;
+    global_planner_.goal_pos_.tpl_ = Cell(goal).tpl_;
+    for (size_t i = 0; i < waypoints_.size(); ++i) {
+      waypoints_[i].tpl_ = Cell(waypoints[i]).tpl_;
+    }
+    global_planner_.resetCells();
   }
 
   // node
-  if (level == 4) {
+  if (level & 4) {
     SPEEDNODE_RADIUS = config.SPEEDNODE_RADIUS;
     global_planner_.default_node_type_ = config.default_node_type_;
   }
-- 
2.43.0


From 824abbc908c88b8ad304a36bd330df1d243c49af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:33 +0000
Subject: [PATCH 36/59] fix: around a robot larger than a cell, cells
 infinitely far below were counted as risk

---
 global_planner/src/library/cell.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global_planner/src/library/cell.cpp b/global_planner/src/library/cell.cpp
index a909ad4..f431b3c 100644
--- a/global_planner/src/library/cell.cpp
+++ b/global_planner/src/library/cell.cpp
@@ -69,7 +69,7 @@ std::vector<Cell> Cell::getFlowNeighbors(int radius) const {
   std::vector<Cell> cells;
   auto ceilDistance = [](int radius, int x, int y) {
     auto sqr = [](int i) { return double(i * i); };
-    return static_cast<int>(std::ceil(std::sqrt(sqr(radius) - sqr(x) - sqr(y))));
+    return static_cast<int>(std::ceil(std::sqrt(std::max(0.0, sqr(radius) - sqr(x) - sqr(y)))));
   };
   for (int x = -radius; x <= radius; x++) {
     int y_radius = ceilDistance(radius, x, 0);
-- 
2.43.0


From a44d25bafb2f4aea842dddbc7c7eb6268b8798bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:42 +0000
Subject: [PATCH 37/59] fix: the parameter for the risk-based speed had no
 effect, that of the search heuristic switched it

---
 global_planner/src/nodes/global_planner_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index af9f440..4958c67 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -401,7 +401,7 @@ void GlobalPlannerNode::printPointInfo(double x, double y, double z) {
 void GlobalPlannerNode::publishSetpoint() {
   // Vector pointing from current position to the current goal
   tf::Vector3 vec = toTfVector3(subtractPoints(current_goal_.pose.position, last_pos_.pose.position));
-  if (global_planner_.use_speedup_heuristics_) {
+  if (global_planner_.use_risk_based_speedup_) {
     Cell cur_cell =
         global_planner::Cell(last_pos_.pose.position.x, last_pos_.pose.position.y, last_pos_.pose.position.z);
     double cur_risk = std::sqrt(global_planner_.getRisk(cur_cell));
-- 
2.43.0


From ca8a7665cad689c7b620e1f2dcb2506d47fa4f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:42 +0000
Subject: [PATCH 38/59] fix: intermediate goals were overwritten by the goal
 being repeated, and replaced goals were flown to later

---
 global_planner/src/nodes/global_planner_node.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index 4958c67..d2bee65 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -259,14 +259,18 @@ void GlobalPlannerNode::clickedPointCallback(const geometry_msgs::PointStamped&
 }
 
 void GlobalPlannerNode::moveBaseSimpleCallback(const geometry_msgs::PoseStamped& msg) {
+  waypoints_.clear();  // Only leads to the goal being replaced
   setNewGoal(GoalCell(msg.pose.position.x, msg.pose.position.y, clicked_goal_alt_, clicked_goal_radius_));
 }
 
 void GlobalPlannerNode::fcuInputGoalCallback(const mavros_msgs::Trajectory& msg) {
   const GoalCell new_goal = GoalCell(msg.point_2.position.x, msg.point_2.position.y, msg.point_2.position.z, 1.0);
-  if (msg.point_valid[1] == true && ((std::fabs(global_planner_.goal_pos_.xPos() - new_goal.xPos()) > 0.001) ||
-                                     (std::fabs(global_planner_.goal_pos_.yPos() - new_goal.yPos()) > 0.001) ||
-                                     (std::fabs(global_planner_.goal_pos_.zPos() - new_goal.zPos()) > 0.001))) {
+  // The goal may be waiting behind an intermediate goal
+  const GoalCell& final_goal = waypoints_.empty() ? global_planner_.goal_pos_ : waypoints_.back();
+  if (msg.point_valid[1] == true && ((std::fabs(final_goal.xPos() - new_goal.xPos()) > 0.001) ||
+                                     (std::fabs(final_goal.yPos() - new_goal.yPos()) > 0.001) ||
+                                     (std::fabs(final_goal.zPos() - new_goal.zPos()) > 0.001))) {
+    waypoints_.clear();
     setNewGoal(new_goal);
   }
 }
-- 
2.43.0


From d451f81e2f581975544c6a1585fdc264cd960888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:32 +0000
Subject: [PATCH 39/59] fix: the search never ended with a minimum
 overestimation of 1.0 when the start was at the goal

---
 global_planner/src/library/global_planner.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/global_planner/src/library/global_planner.cpp b/global_planner/src/library/global_planner.cpp
index 09de9e4..acc8c4f 100644
--- a/global_planner/src/library/global_planner.cpp
+++ b/global_planner/src/library/global_planner.cpp
@@ -481,6 +481,9 @@ bool GlobalPlanner::findPath(std::vector<Cell>& path) {
     }
     last_iter = search_info.num_iter;
     iter_left -= last_iter;
+    if (overestimate_factor_ <= 1.0) {
+      break;  // There is nothing left to improve
+    }
     overestimate_factor_ = (overestimate_factor_ - 1.0) / 4.0 + 1.0;
   }
 
-- 
2.43.0


From 92d9b924e8fa45db3a415f75182fd235dcd02835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:32 +0000
Subject: [PATCH 40/59] fix: stopping at a blocked goal kept flying to the next
 point of the previous path

---
 global_planner/src/nodes/global_planner_node.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index d2bee65..f8e070d 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -322,10 +322,16 @@ void GlobalPlannerNode::depthCameraCallback(const sensor_msgs::PointCloud2& msg)
 void GlobalPlannerNode::setCurrentPath(const std::vector<geometry_msgs::PoseStamped>& poses) {
   path_.clear();
 
-  if (poses.size() < 2) {
+  if (poses.empty()) {
     ROS_INFO("  Received empty path\n");
     return;
   }
+  if (poses.size() == 1) {
+    // Stop there
+    last_goal_ = current_goal_;
+    current_goal_ = poses[0];
+    return;
+  }
   last_goal_ = poses[0];
   current_goal_ = poses[1];
 
-- 
2.43.0


From 09e074c38871953f9de094258447476bb14aeef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:25 +0000
Subject: [PATCH 41/59] fix: the local planner's threads shared vehicle state,
 goals and the waypoint generator without a lock

The command loop also waited for a position while holding the mutex the planner needs; a reconfiguration request processed in
that wait deadlocked with a running planner.
---
 .../include/local_planner/local_planner.h     |  3 +-
 .../local_planner/local_planner_nodelet.h     |  8 ++-
 .../src/nodes/local_planner_nodelet.cpp       | 63 ++++++++++++++-----
 3 files changed, 57 insertions(+), 17 deletions(-)

diff --git a/local_planner/include/local_planner/local_planner.h b/local_planner/include/local_planner/local_planner.h
index 99ae5e0..125a777 100644
--- a/local_planner/include/local_planner/local_planner.h
+++ b/local_planner/include/local_planner/local_planner.h
@@ -23,6 +23,7 @@
 #include <nav_msgs/Path.h>
 
 #include <ros/time.h>
+#include <atomic>
 #include <deque>
 #include <string>
 #include <vector>
@@ -94,7 +95,7 @@ class LocalPlanner {
 
   double timeout_startup_ = 20.0;
   double timeout_critical_ = 0.5;
-  double timeout_termination_ = 20.0;
+  std::atomic<double> timeout_termination_{20.0};  // also read by the command loop
   float speed_ = 1.0f;
   float mission_item_speed_ = NAN;
 
diff --git a/local_planner/include/local_planner/local_planner_nodelet.h b/local_planner/include/local_planner/local_planner_nodelet.h
index d34e4d4..722ed19 100644
--- a/local_planner/include/local_planner/local_planner_nodelet.h
+++ b/local_planner/include/local_planner/local_planner_nodelet.h
@@ -103,7 +103,7 @@ class LocalPlannerNodelet : public nodelet::Nodelet {
   std::mutex running_mutex_;  ///< guard against concurrent access to input &
                               /// output data (point cloud, position, ...)
 
-  bool position_received_ = false;
+  std::atomic<bool> position_received_{false};
 
   /**
   * @brief     handles threads for data publication and subscription
@@ -208,9 +208,13 @@ class LocalPlannerNodelet : public nodelet::Nodelet {
   geometry_msgs::PoseStamped goal_mission_item_msg_;
   mavros_msgs::Altitude ground_distance_msg_;
 
+  // The callbacks, the command loop and the planner run in different threads. Lock order: running_mutex_,
+  // waypoints_mutex_, state_mutex_.
+  std::mutex state_mutex_;      // guards what the callbacks receive: vehicle state and goals
+  std::mutex waypoints_mutex_;  // guards wp_generator_, the waypoints sent and last_wp_time_
+
   bool new_goal_ = false;
 
-  std::mutex waypoints_mutex_;
   Eigen::Vector3f newest_waypoint_position_;
   Eigen::Vector3f last_waypoint_position_;
   Eigen::Vector3f newest_adapted_waypoint_position_;
diff --git a/local_planner/src/nodes/local_planner_nodelet.cpp b/local_planner/src/nodes/local_planner_nodelet.cpp
index 9e83709..e9f15cc 100644
--- a/local_planner/src/nodes/local_planner_nodelet.cpp
+++ b/local_planner/src/nodes/local_planner_nodelet.cpp
@@ -162,20 +162,27 @@ size_t LocalPlannerNodelet::numTransformedClouds() {
 void LocalPlannerNodelet::updatePlannerInfo() {
   // update the point cloud
   local_planner_->original_cloud_vector_.resize(cameras_.size());
+  std::vector<FOV> fov(cameras_.size());
   for (size_t i = 0; i < cameras_.size(); ++i) {
     std::lock_guard<std::mutex> transformed_cloud_guard(*(cameras_[i].camera_mutex_));
     try {
       std::swap(local_planner_->original_cloud_vector_[i], cameras_[i].transformed_cloud_);
       cameras_[i].transformed_cloud_.clear();
       cameras_[i].transformed_ = false;
-      local_planner_->setFOV(i, cameras_[i].fov_fcu_frame_);
-      wp_generator_->setFOV(i, cameras_[i].fov_fcu_frame_);
+      fov[i] = cameras_[i].fov_fcu_frame_;
     } catch (tf::TransformException& ex) {
       ROS_ERROR("Received an exception trying to transform a pointcloud: %s", ex.what());
     }
   }
 
+  std::lock_guard<std::mutex> waypoints_guard(waypoints_mutex_);
+  for (size_t i = 0; i < cameras_.size(); ++i) {
+    local_planner_->setFOV(i, fov[i]);
+    wp_generator_->setFOV(i, fov[i]);
+  }
+
   // update pose
+  std::lock_guard<std::mutex> state_guard(state_mutex_);
   local_planner_->setState(newest_position_, velocity_, newest_orientation_);
 
   // update state
@@ -197,6 +204,7 @@ void LocalPlannerNodelet::updatePlannerInfo() {
 }
 
 void LocalPlannerNodelet::positionCallback(const geometry_msgs::PoseStamped& msg) {
+  std::lock_guard<std::mutex> state_guard(state_mutex_);
   last_position_ = newest_position_;
   newest_position_ = toEigen(msg.pose.position);
   newest_orientation_ = toEigen(msg.pose.orientation);
@@ -205,10 +213,12 @@ void LocalPlannerNodelet::positionCallback(const geometry_msgs::PoseStamped& msg
 }
 
 void LocalPlannerNodelet::velocityCallback(const geometry_msgs::TwistStamped& msg) {
+  std::lock_guard<std::mutex> state_guard(state_mutex_);
   velocity_ = toEigen(msg.twist.linear);
 }
 
 void LocalPlannerNodelet::stateCallback(const mavros_msgs::State& msg) {
+  std::lock_guard<std::mutex> state_guard(state_mutex_);
   armed_ = msg.armed;
 
   if (msg.mode == "AUTO.MISSION") {
@@ -231,7 +241,6 @@ void LocalPlannerNodelet::stateCallback(const mavros_msgs::State& msg) {
 }
 
 void LocalPlannerNodelet::cmdLoopCallback(const ros::TimerEvent& event) {
-  std::lock_guard<std::mutex> lock(waypoints_mutex_);
   hover_ = false;
 
   // Process callbacks & wait for a position update
@@ -259,6 +268,9 @@ void LocalPlannerNodelet::cmdLoopCallback(const ros::TimerEvent& event) {
     }
   }
 
+  // The planner needs this mutex too, and callbacks processed while waiting above may wait for the planner
+  std::lock_guard<std::mutex> lock(waypoints_mutex_);
+
   // Check if all information was received
   ros::Time now = ros::Time::now();
   ros::Duration since_last_cloud = now - last_wp_time_;
@@ -281,11 +293,17 @@ void LocalPlannerNodelet::setSystemStatus(MAV_STATE state) { avoidance_node_->se
 MAV_STATE LocalPlannerNodelet::getSystemStatus() { return avoidance_node_->getSystemStatus(); }
 
 void LocalPlannerNodelet::calculateWaypoints(bool hover) {
-  bool is_airborne = armed_ && (nav_state_ != NavigationState::none);
-
-  wp_generator_->updateState(newest_position_, newest_orientation_, goal_position_, prev_goal_position_, velocity_,
-                             hover, is_airborne, nav_state_, is_land_waypoint_, is_takeoff_waypoint_,
-                             desired_velocity_);
+  Eigen::Vector3f last_position, newest_position;
+  {
+    std::lock_guard<std::mutex> state_guard(state_mutex_);
+    bool is_airborne = armed_ && (nav_state_ != NavigationState::none);
+
+    wp_generator_->updateState(newest_position_, newest_orientation_, goal_position_, prev_goal_position_, velocity_,
+                               hover, is_airborne, nav_state_, is_land_waypoint_, is_takeoff_waypoint_,
+                               desired_velocity_);
+    last_position = last_position_;
+    newest_position = newest_position_;
+  }
   waypointResult result = wp_generator_->getWaypoints();
 
   Eigen::Vector3f closest_pt = Eigen::Vector3f(NAN, NAN, NAN);
@@ -299,10 +317,10 @@ void LocalPlannerNodelet::calculateWaypoints(bool hover) {
 
   // visualize waypoint topics
   visualizer_.visualizeWaypoints(result.goto_position, result.adapted_goto_position, result.smoothed_goto_position);
-  visualizer_.publishPaths(last_position_, newest_position_, last_waypoint_position_, newest_waypoint_position_,
+  visualizer_.publishPaths(last_position, newest_position, last_waypoint_position_, newest_waypoint_position_,
                            last_adapted_waypoint_position_, newest_adapted_waypoint_position_);
   visualizer_.publishCurrentSetpoint(toTwist(result.linear_velocity_wp, result.angular_velocity_wp),
-                                     result.waypoint_type, newest_position_);
+                                     result.waypoint_type, newest_position);
 
   visualizer_.publishOfftrackPoints(closest_pt, deg60_pt);
 
@@ -320,15 +338,18 @@ void LocalPlannerNodelet::clickedPointCallback(const geometry_msgs::PointStamped
 }
 
 void LocalPlannerNodelet::clickedGoalCallback(const geometry_msgs::PoseStamped& msg) {
+  /* Selecting the goal from Rviz sets x and y. Get the z coordinate set in
+   * the launch file */
+  std::lock_guard<std::mutex> guard(running_mutex_);
+  std::lock_guard<std::mutex> state_guard(state_mutex_);
   new_goal_ = true;
   prev_goal_position_ = goal_position_;
   goal_position_ = toEigen(msg.pose.position);
-  /* Selecting the goal from Rviz sets x and y. Get the z coordinate set in
-   * the launch file */
   goal_position_.z() = local_planner_->getGoal().z();
 }
 
 void LocalPlannerNodelet::updateGoalCallback(const visualization_msgs::MarkerArray& msg) {
+  std::lock_guard<std::mutex> state_guard(state_mutex_);
   if (accept_goal_input_topic_ && msg.markers.size() > 0) {
     prev_goal_position_ = goal_position_;
     goal_position_ = toEigen(msg.markers[0].pose.position);
@@ -337,6 +358,7 @@ void LocalPlannerNodelet::updateGoalCallback(const visualization_msgs::MarkerArr
 }
 
 void LocalPlannerNodelet::fcuInputGoalCallback(const mavros_msgs::Trajectory& msg) {
+  std::lock_guard<std::mutex> state_guard(state_mutex_);
   bool update =
       ((avoidance::toEigen(msg.point_2.position) - avoidance::toEigen(goal_mission_item_msg_.pose.position)).norm() >
        0.01) ||
@@ -390,7 +412,9 @@ void LocalPlannerNodelet::transformBufferThread() {
 }
 
 void LocalPlannerNodelet::printPointInfo(double x, double y, double z) {
+  std::unique_lock<std::mutex> guard(running_mutex_);
   Eigen::Vector3f drone_pos = local_planner_->getPosition();
+  guard.unlock();
   int beta_z = floor((atan2(x - drone_pos.x(), y - drone_pos.y()) * 180.0 / M_PI));  //(-180. +180]
   int beta_e = floor((atan((z - drone_pos.z()) / (Eigen::Vector2f(x, y) - drone_pos.topRows<2>()).norm()) * 180.0 /
                       M_PI));  //(-90.+90)
@@ -435,6 +459,7 @@ void LocalPlannerNodelet::pointCloudCallback(const sensor_msgs::PointCloud2::Con
 void LocalPlannerNodelet::dynamicReconfigureCallback(avoidance::LocalPlannerNodeConfig& config, uint32_t level) {
   std::lock_guard<std::mutex> guard(running_mutex_);
   local_planner_->dynamicReconfigureSetParams(config, level);
+  std::lock_guard<std::mutex> waypoints_guard(waypoints_mutex_);
   wp_generator_->setSmoothingSpeed(config.smoothing_speed_xy_, config.smoothing_speed_z_);
   rqt_param_config_ = config;
 }
@@ -468,8 +493,18 @@ void LocalPlannerNodelet::threadFunction() {
       updatePlannerInfo();
       local_planner_->runPlanner();
 
-      visualizer_.visualizePlannerData(*(local_planner_.get()), newest_waypoint_position_,
-                                       newest_adapted_waypoint_position_, newest_position_, newest_orientation_);
+      Eigen::Vector3f newest_waypoint_position, newest_adapted_waypoint_position, newest_position;
+      Eigen::Quaternionf newest_orientation;
+      {
+        std::lock_guard<std::mutex> waypoints_guard(waypoints_mutex_);
+        std::lock_guard<std::mutex> state_guard(state_mutex_);
+        newest_waypoint_position = newest_waypoint_position_;
+        newest_adapted_waypoint_position = newest_adapted_waypoint_position_;
+        newest_position = newest_position_;
+        newest_orientation = newest_orientation_;
+      }
+      visualizer_.visualizePlannerData(*(local_planner_.get()), newest_waypoint_position,
+                                       newest_adapted_waypoint_position, newest_position, newest_orientation);
       publishLaserScan();
 
       std::lock_guard<std::mutex> lock(waypoints_mutex_);
-- 
2.43.0


From cdce227598a46453199ae71b8fe9c7f02c475e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:25 +0000
Subject: [PATCH 42/59] fix: the local planner started with uninitialised
 positions, velocities and previous goal

---
 .../local_planner/local_planner_nodelet.h     | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/local_planner/include/local_planner/local_planner_nodelet.h b/local_planner/include/local_planner/local_planner_nodelet.h
index 722ed19..5208f0c 100644
--- a/local_planner/include/local_planner/local_planner_nodelet.h
+++ b/local_planner/include/local_planner/local_planner_nodelet.h
@@ -215,18 +215,18 @@ class LocalPlannerNodelet : public nodelet::Nodelet {
 
   bool new_goal_ = false;
 
-  Eigen::Vector3f newest_waypoint_position_;
-  Eigen::Vector3f last_waypoint_position_;
-  Eigen::Vector3f newest_adapted_waypoint_position_;
-  Eigen::Vector3f last_adapted_waypoint_position_;
-  Eigen::Vector3f newest_position_;
-  Eigen::Quaternionf newest_orientation_;
-  Eigen::Vector3f last_position_;
-  Eigen::Quaternionf last_orientation_;
-  Eigen::Vector3f velocity_;
-  Eigen::Vector3f desired_velocity_;
-  Eigen::Vector3f goal_position_;
-  Eigen::Vector3f prev_goal_position_;
+  Eigen::Vector3f newest_waypoint_position_ = Eigen::Vector3f::Zero();
+  Eigen::Vector3f last_waypoint_position_ = Eigen::Vector3f::Zero();
+  Eigen::Vector3f newest_adapted_waypoint_position_ = Eigen::Vector3f::Zero();
+  Eigen::Vector3f last_adapted_waypoint_position_ = Eigen::Vector3f::Zero();
+  Eigen::Vector3f newest_position_ = Eigen::Vector3f::Zero();
+  Eigen::Quaternionf newest_orientation_ = Eigen::Quaternionf::Identity();
+  Eigen::Vector3f last_position_ = Eigen::Vector3f::Zero();
+  Eigen::Quaternionf last_orientation_ = Eigen::Quaternionf::Identity();
+  Eigen::Vector3f velocity_ = Eigen::Vector3f::Zero();
+  Eigen::Vector3f desired_velocity_ = Eigen::Vector3f(NAN, NAN, NAN);
+  Eigen::Vector3f goal_position_ = Eigen::Vector3f::Zero();
+  Eigen::Vector3f prev_goal_position_ = Eigen::Vector3f::Zero();
 
   NavigationState nav_state_ = NavigationState::none;
 
-- 
2.43.0


From 1133b952ddff66d390db028718ab97f4c834e7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:25 +0000
Subject: [PATCH 43/59] fix: changing any parameter of the local planner moved
 its goal to the height parameter, but not the waypoint generator's

---
 .../local_planner/local_planner_nodelet.h        |  1 +
 .../src/nodes/local_planner_nodelet.cpp          | 16 ++++++++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/local_planner/include/local_planner/local_planner_nodelet.h b/local_planner/include/local_planner/local_planner_nodelet.h
index 5208f0c..fcfd3ac 100644
--- a/local_planner/include/local_planner/local_planner_nodelet.h
+++ b/local_planner/include/local_planner/local_planner_nodelet.h
@@ -214,6 +214,7 @@ class LocalPlannerNodelet : public nodelet::Nodelet {
   std::mutex waypoints_mutex_;  // guards wp_generator_, the waypoints sent and last_wp_time_
 
   bool new_goal_ = false;
+  double goal_z_param_ = NAN;  // height parameter the last time
 
   Eigen::Vector3f newest_waypoint_position_ = Eigen::Vector3f::Zero();
   Eigen::Vector3f last_waypoint_position_ = Eigen::Vector3f::Zero();
diff --git a/local_planner/src/nodes/local_planner_nodelet.cpp b/local_planner/src/nodes/local_planner_nodelet.cpp
index e9f15cc..49c4ea4 100644
--- a/local_planner/src/nodes/local_planner_nodelet.cpp
+++ b/local_planner/src/nodes/local_planner_nodelet.cpp
@@ -338,14 +338,13 @@ void LocalPlannerNodelet::clickedPointCallback(const geometry_msgs::PointStamped
 }
 
 void LocalPlannerNodelet::clickedGoalCallback(const geometry_msgs::PoseStamped& msg) {
-  /* Selecting the goal from Rviz sets x and y. Get the z coordinate set in
-   * the launch file */
-  std::lock_guard<std::mutex> guard(running_mutex_);
   std::lock_guard<std::mutex> state_guard(state_mutex_);
   new_goal_ = true;
   prev_goal_position_ = goal_position_;
   goal_position_ = toEigen(msg.pose.position);
-  goal_position_.z() = local_planner_->getGoal().z();
+  /* Selecting the goal from Rviz sets x and y. Get the z coordinate set in
+   * the launch file */
+  goal_position_.z() = prev_goal_position_.z();
 }
 
 void LocalPlannerNodelet::updateGoalCallback(const visualization_msgs::MarkerArray& msg) {
@@ -462,6 +461,15 @@ void LocalPlannerNodelet::dynamicReconfigureCallback(avoidance::LocalPlannerNode
   std::lock_guard<std::mutex> waypoints_guard(waypoints_mutex_);
   wp_generator_->setSmoothingSpeed(config.smoothing_speed_xy_, config.smoothing_speed_z_);
   rqt_param_config_ = config;
+
+  // the planner took the goal's height from the parameter: it holds for the waypoint generator too, and only when it was
+  // changed, otherwise the planner goes back to the goal it had
+  std::lock_guard<std::mutex> state_guard(state_mutex_);
+  if (std::isfinite(goal_z_param_) && config.goal_z_param != goal_z_param_) {
+    goal_position_.z() = static_cast<float>(config.goal_z_param);
+  }
+  goal_z_param_ = config.goal_z_param;
+  new_goal_ = true;
 }
 
 void LocalPlannerNodelet::publishLaserScan() const {
-- 
2.43.0


From 6109e11af3c1d6b5177e990b8842abbe69089e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:25 +0000
Subject: [PATCH 44/59] fix: a mission goal without a command reached the
 waypoint generator but not the planner

---
 local_planner/src/nodes/local_planner_nodelet.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/local_planner/src/nodes/local_planner_nodelet.cpp b/local_planner/src/nodes/local_planner_nodelet.cpp
index 49c4ea4..f0c25a7 100644
--- a/local_planner/src/nodes/local_planner_nodelet.cpp
+++ b/local_planner/src/nodes/local_planner_nodelet.cpp
@@ -373,6 +373,7 @@ void LocalPlannerNodelet::fcuInputGoalCallback(const mavros_msgs::Trajectory& ms
   if (msg.point_valid[1] == true) {
     goal_mission_item_msg_.pose.position = msg.point_2.position;
     if (msg.command[1] == UINT16_MAX) {
+      new_goal_ = true;
       goal_position_ = toEigen(msg.point_2.position);
       desired_velocity_ << NAN, NAN, NAN;
     }
-- 
2.43.0


From db368f4a461576d63ca9b11387f3a1848d739b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:25 +0000
Subject: [PATCH 45/59] fix: the local planner's timeout parameters had no
 effect

---
 avoidance/include/avoidance/avoidance_node.h      | 15 ++++++++++++---
 local_planner/src/nodes/local_planner_nodelet.cpp |  1 +
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/avoidance/include/avoidance/avoidance_node.h b/avoidance/include/avoidance/avoidance_node.h
index 2518b68..dcbf09b 100644
--- a/avoidance/include/avoidance/avoidance_node.h
+++ b/avoidance/include/avoidance/avoidance_node.h
@@ -33,6 +33,15 @@ class AvoidanceNode {
   **/
   void checkFailsafe(ros::Duration since_last_cloud, ros::Duration since_start, bool& hover);
 
+  /**
+  * @brief      sets after how many seconds without data the failsafe steps in
+  **/
+  void setTimeouts(double startup, double critical, double termination) {
+    timeout_startup_ = startup;
+    timeout_critical_ = critical;
+    timeout_termination_ = termination;
+  }
+
   ModelParameters getPX4Parameters() const;
   float getMissionItemSpeed() const { return mission_item_speed_; }
   MAV_STATE getSystemStatus();
@@ -77,9 +86,9 @@ class AvoidanceNode {
   std::condition_variable exit_cv_;
 
   double cmdloop_dt_, statusloop_dt_;
-  double timeout_termination_;
-  double timeout_critical_;
-  double timeout_startup_;
+  std::atomic<double> timeout_termination_;
+  std::atomic<double> timeout_critical_;
+  std::atomic<double> timeout_startup_;
 
   bool position_received_;
   bool should_exit_;
diff --git a/local_planner/src/nodes/local_planner_nodelet.cpp b/local_planner/src/nodes/local_planner_nodelet.cpp
index f0c25a7..97d2cbb 100644
--- a/local_planner/src/nodes/local_planner_nodelet.cpp
+++ b/local_planner/src/nodes/local_planner_nodelet.cpp
@@ -459,6 +459,7 @@ void LocalPlannerNodelet::pointCloudCallback(const sensor_msgs::PointCloud2::Con
 void LocalPlannerNodelet::dynamicReconfigureCallback(avoidance::LocalPlannerNodeConfig& config, uint32_t level) {
   std::lock_guard<std::mutex> guard(running_mutex_);
   local_planner_->dynamicReconfigureSetParams(config, level);
+  avoidance_node_->setTimeouts(config.timeout_startup_, config.timeout_critical_, config.timeout_termination_);
   std::lock_guard<std::mutex> waypoints_guard(waypoints_mutex_);
   wp_generator_->setSmoothingSpeed(config.smoothing_speed_xy_, config.smoothing_speed_z_);
   rqt_param_config_ = config;
-- 
2.43.0


From 60425d2f4f9be1cecdf892e3f8ccdf671df511a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:25 +0000
Subject: [PATCH 46/59] fix: the local planner could sleep for seconds through
 the arrival of a cloud, a transformed cloud or its shutdown

---
 .../src/nodes/local_planner_nodelet.cpp       | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/local_planner/src/nodes/local_planner_nodelet.cpp b/local_planner/src/nodes/local_planner_nodelet.cpp
index 97d2cbb..966fff2 100644
--- a/local_planner/src/nodes/local_planner_nodelet.cpp
+++ b/local_planner/src/nodes/local_planner_nodelet.cpp
@@ -493,7 +493,9 @@ void LocalPlannerNodelet::threadFunction() {
 
     while ((cameras_.size() == 0 || cameras_.size() != numTransformedClouds()) && !should_exit_) {
       std::unique_lock<std::mutex> lock(transformed_cloud_mutex_);
-      transformed_cloud_cv_.wait_for(lock, std::chrono::milliseconds(5000));
+      transformed_cloud_cv_.wait_for(lock, std::chrono::milliseconds(5000), [this] {
+        return should_exit_ || (cameras_.size() != 0 && cameras_.size() == numTransformedClouds());
+      });
     }
 
     if (should_exit_) break;
@@ -540,6 +542,7 @@ void LocalPlannerNodelet::pointCloudTransformThread(int index) {
   while (!should_exit_) {
     bool waiting_on_transform = false;
     bool waiting_on_cloud = false;
+    bool transformed = false;
     {
       std::lock_guard<std::mutex> camera_lock(*(cameras_[index].camera_mutex_));
 
@@ -569,8 +572,7 @@ void LocalPlannerNodelet::pointCloudTransformThread(int index) {
           cameras_[index].transformed_ = true;
           cameras_[index].received_ = false;
           waiting_on_cloud = true;
-          std::lock_guard<std::mutex> lock(transformed_cloud_mutex_);
-          transformed_cloud_cv_.notify_all();
+          transformed = true;
         } else {
           waiting_on_transform = true;
         }
@@ -579,16 +581,19 @@ void LocalPlannerNodelet::pointCloudTransformThread(int index) {
       }
     }
 
-    if (should_exit_) {
-      break;
+    if (transformed) {
+      // the planner checks all cameras while it holds this mutex: camera_mutex_ must not be held here
+      std::lock_guard<std::mutex> lock(transformed_cloud_mutex_);
+      transformed_cloud_cv_.notify_all();
     }
 
     if (waiting_on_transform) {
       std::unique_lock<std::mutex> lck(buffered_transforms_mutex_);
-      tf_buffer_cv_.wait_for(lck, std::chrono::milliseconds(5000));
+      if (!should_exit_) tf_buffer_cv_.wait_for(lck, std::chrono::milliseconds(5000));
     } else if (waiting_on_cloud) {
       std::unique_lock<std::mutex> lck(*(cameras_[index].camera_mutex_));
-      cameras_[index].camera_cv_->wait_for(lck, std::chrono::milliseconds(5000));
+      cameras_[index].camera_cv_->wait_for(lck, std::chrono::milliseconds(5000),
+                                           [&] { return should_exit_ || cameras_[index].received_; });
     }
   }
 }
-- 
2.43.0


From caccb0c60a8ebaf5ba5eb78fad58d378a8923fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:25 +0000
Subject: [PATCH 47/59] fix: clicking a point in rviz could convert NaN to an
 integer in the local planner

---
 local_planner/src/nodes/local_planner_nodelet.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/local_planner/src/nodes/local_planner_nodelet.cpp b/local_planner/src/nodes/local_planner_nodelet.cpp
index 966fff2..19862bc 100644
--- a/local_planner/src/nodes/local_planner_nodelet.cpp
+++ b/local_planner/src/nodes/local_planner_nodelet.cpp
@@ -415,8 +415,9 @@ void LocalPlannerNodelet::printPointInfo(double x, double y, double z) {
   std::unique_lock<std::mutex> guard(running_mutex_);
   Eigen::Vector3f drone_pos = local_planner_->getPosition();
   guard.unlock();
+  if (!std::isfinite(x) || !std::isfinite(y) || !std::isfinite(z)) return;
   int beta_z = floor((atan2(x - drone_pos.x(), y - drone_pos.y()) * 180.0 / M_PI));  //(-180. +180]
-  int beta_e = floor((atan((z - drone_pos.z()) / (Eigen::Vector2f(x, y) - drone_pos.topRows<2>()).norm()) * 180.0 /
+  int beta_e = floor((atan2(z - drone_pos.z(), (Eigen::Vector2f(x, y) - drone_pos.topRows<2>()).norm()) * 180.0 /
                       M_PI));  //(-90.+90)
 
   beta_z = beta_z + (ALPHA_RES - beta_z % ALPHA_RES);  //[-170,+190]
-- 
2.43.0


From 6e3be4ee035d3e282e449720676dad1d02e9c0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:25 +0000
Subject: [PATCH 48/59] fix: the local planner's command loop ran on while the
 node was destroyed

---
 local_planner/src/nodes/local_planner_nodelet.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/local_planner/src/nodes/local_planner_nodelet.cpp b/local_planner/src/nodes/local_planner_nodelet.cpp
index 19862bc..536c53b 100644
--- a/local_planner/src/nodes/local_planner_nodelet.cpp
+++ b/local_planner/src/nodes/local_planner_nodelet.cpp
@@ -19,6 +19,9 @@ LocalPlannerNodelet::LocalPlannerNodelet() : tf_buffer_(5.f), spin_dt_(0.1) {}
 
 LocalPlannerNodelet::~LocalPlannerNodelet() {
   should_exit_ = true;
+  // the command loop uses members that are destroyed before the spinner
+  cmdloop_timer_.stop();
+  if (cmdloop_spinner_) cmdloop_spinner_->stop();
   {
     std::lock_guard<std::mutex> guard(buffered_transforms_mutex_);
     tf_buffer_cv_.notify_all();
@@ -246,7 +249,7 @@ void LocalPlannerNodelet::cmdLoopCallback(const ros::TimerEvent& event) {
   // Process callbacks & wait for a position update
   ros::Time start_query_position = ros::Time::now();
 
-  while (!position_received_ && ros::ok()) {
+  while (!position_received_ && ros::ok() && !should_exit_) {
     ros::getGlobalCallbackQueue()->callAvailable(ros::WallDuration(0.1));
     ros::Duration since_query = ros::Time::now() - start_query_position;
     if (since_query > ros::Duration(local_planner_->timeout_termination_)) {
@@ -268,6 +271,8 @@ void LocalPlannerNodelet::cmdLoopCallback(const ros::TimerEvent& event) {
     }
   }
 
+  if (should_exit_) return;
+
   // The planner needs this mutex too, and callbacks processed while waiting above may wait for the planner
   std::lock_guard<std::mutex> lock(waypoints_mutex_);
 
-- 
2.43.0


From 4f8a2465248607cd6fdc25aaa947271e6572a0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:25 +0000
Subject: [PATCH 49/59] fix: before the first plan the waypoint generator flew
 at an uninitialised cruise speed

---
 local_planner/include/local_planner/avoidance_output.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/local_planner/include/local_planner/avoidance_output.h b/local_planner/include/local_planner/avoidance_output.h
index 372faa8..53eaa2f 100644
--- a/local_planner/include/local_planner/avoidance_output.h
+++ b/local_planner/include/local_planner/avoidance_output.h
@@ -3,6 +3,7 @@
 #include <ros/time.h>
 #include <Eigen/Dense>
 
+#include <cmath>
 #include <vector>
 
 namespace avoidance {
@@ -10,8 +11,8 @@ namespace avoidance {
 enum waypoint_choice { hover, tryPath, direct, reachHeight };
 
 struct avoidanceOutput {
-  float cruise_velocity;     // mission cruise velocity
-  ros::Time last_path_time;  // finish built time for the VFH+* tree
+  float cruise_velocity = NAN;     // mission cruise velocity
+  ros::Time last_path_time;        // finish built time for the VFH+* tree
 
   std::vector<Eigen::Vector3f> path_node_positions;  // array of tree nodes
                                                      // position, each node
-- 
2.43.0


From 089cc207b3923fe029de49864c985018c61cd45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:58 +0000
Subject: [PATCH 50/59] fix: directions to positions with unknown coordinates
 were converted from NaN to histogram indices

---
 avoidance/src/common.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/avoidance/src/common.cpp b/avoidance/src/common.cpp
index 4375e87..b0e6b27 100644
--- a/avoidance/src/common.cpp
+++ b/avoidance/src/common.cpp
@@ -177,6 +177,9 @@ Eigen::Vector2i polarToHistogramIndex(const PolarPoint& p_pol, int res) {
   Eigen::Vector2i ev2(0, 0);
   PolarPoint p_wrapped = p_pol;
   wrapPolar(p_wrapped);
+  // an angle that is not known (the goal may have no position) has no index: it gets the first one
+  if (std::isnan(p_wrapped.e)) p_wrapped.e = -90.f;
+  if (std::isnan(p_wrapped.z)) p_wrapped.z = -180.f;
   // elevation angle to y-axis histogram index
   // maps elevation -90° to bin 0 and +90° to the highest bin (N-1)
   ev2.y() = static_cast<int>(floor(p_wrapped.e / res + 90.0f / res));
-- 
2.43.0


From b96e271ad63cea93958f832c8df3f037d26b8074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:51 +0000
Subject: [PATCH 51/59] fix: the global planner's loops ran before its
 constructor and after its destructor had finished

---
 global_planner/src/nodes/global_planner_node.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index f8e070d..9629bf9 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -50,7 +50,6 @@ GlobalPlannerNode::GlobalPlannerNode(const ros::NodeHandle& nh, const ros::NodeH
   cmdloop_timer_ = nh_.createTimer(cmdlooptimer_options);
 
   cmdloop_spinner_.reset(new ros::AsyncSpinner(1, &cmdloop_queue_));
-  cmdloop_spinner_->start();
 
   ros::TimerOptions plannerlooptimer_options(ros::Duration(plannerloop_dt_),
                                              boost::bind(&GlobalPlannerNode::plannerLoopCallback, this, _1),
@@ -58,7 +57,6 @@ GlobalPlannerNode::GlobalPlannerNode(const ros::NodeHandle& nh, const ros::NodeH
   plannerloop_timer_ = nh_.createTimer(plannerlooptimer_options);
 
   plannerloop_spinner_.reset(new ros::AsyncSpinner(1, &plannerloop_queue_));
-  plannerloop_spinner_->start();
 
   current_goal_.header.frame_id = frame_id_;
   current_goal_.pose.position = start_pos_;
@@ -67,9 +65,19 @@ GlobalPlannerNode::GlobalPlannerNode(const ros::NodeHandle& nh, const ros::NodeH
 
   speed_ = global_planner_.default_speed_;
   start_time_ = ros::Time::now();
+
+  // Everything is set up: from here on the loops run in threads of their own
+  cmdloop_spinner_->start();
+  plannerloop_spinner_->start();
 }
 
-GlobalPlannerNode::~GlobalPlannerNode() {}
+GlobalPlannerNode::~GlobalPlannerNode() {
+  // The loops use members that are destroyed before the spinners
+  cmdloop_timer_.stop();
+  plannerloop_timer_.stop();
+  cmdloop_spinner_->stop();
+  plannerloop_spinner_->stop();
+}
 
 // Read Ros parameters
 void GlobalPlannerNode::readParams() {
-- 
2.43.0


From 1c12e19372190523aacbc2b3ad4b7a32dcf013dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:51 +0000
Subject: [PATCH 52/59] fix: the global planner's loops and callbacks shared
 the planner, its goals and the path without a lock

---
 .../global_planner/global_planner_node.h      |  5 +-
 .../src/nodes/global_planner_node.cpp         | 49 +++++++++++++++----
 2 files changed, 44 insertions(+), 10 deletions(-)

diff --git a/global_planner/include/global_planner/global_planner_node.h b/global_planner/include/global_planner/global_planner_node.h
index cf47b10..bc465d5 100644
--- a/global_planner/include/global_planner/global_planner_node.h
+++ b/global_planner/include/global_planner/global_planner_node.h
@@ -51,7 +51,9 @@ class GlobalPlannerNode {
   ~GlobalPlannerNode();
 
  private:
-  std::mutex mutex_;
+  // The callbacks and the two loops run in different threads. Lock order: mutex_, state_mutex_.
+  std::mutex mutex_;        // guards the planner and the goals, held while planning
+  std::mutex state_mutex_;  // guards what the command loop needs: vehicle state and the current path, held briefly
 
   ros::NodeHandle nh_;
   ros::NodeHandle nh_private_;
@@ -96,6 +98,7 @@ class GlobalPlannerNode {
   geometry_msgs::PoseStamped current_goal_;
   geometry_msgs::PoseStamped last_goal_;
   geometry_msgs::PoseStamped last_pos_;
+  geometry_msgs::Vector3 last_vel_;
 
   std::vector<geometry_msgs::PoseStamped> last_clicked_points;
   std::vector<geometry_msgs::PoseStamped> path_;
diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index 9629bf9..598940f 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -162,6 +162,9 @@ void GlobalPlannerNode::setIntermediateGoal() {
 }
 
 void GlobalPlannerNode::dynamicReconfigureCallback(global_planner::GlobalPlannerNodeConfig& config, uint32_t level) {
+  std::lock_guard<std::mutex> lock(mutex_);
+  std::lock_guard<std::mutex> state_lock(state_mutex_);
+
   // global_planner_
   global_planner_.min_altitude_ = config.min_altitude_;
   global_planner_.max_altitude_ = config.max_altitude_;
@@ -216,14 +219,16 @@ void GlobalPlannerNode::dynamicReconfigureCallback(global_planner::GlobalPlanner
 }
 
 void GlobalPlannerNode::velocityCallback(const geometry_msgs::TwistStamped& msg) {
-  global_planner_.curr_vel_ = msg.twist.linear;
+  std::lock_guard<std::mutex> state_lock(state_mutex_);
+  last_vel_ = msg.twist.linear;
 }
 
 // Sets the current position and checks if the current goal has been reached
 void GlobalPlannerNode::positionCallback(const geometry_msgs::PoseStamped& msg) {
+  std::lock_guard<std::mutex> state_lock(state_mutex_);
+
   // Update position
   last_pos_ = msg;
-  global_planner_.setPose(last_pos_);
 
   // Check if a new goal is needed
   if (num_pos_msg_++ % 10 == 0) {
@@ -257,21 +262,27 @@ void GlobalPlannerNode::positionCallback(const geometry_msgs::PoseStamped& msg)
 }
 
 void GlobalPlannerNode::clickedPointCallback(const geometry_msgs::PointStamped& msg) {
-  printPointInfo(msg.point.x, msg.point.y, msg.point.z);
+  {
+    std::lock_guard<std::mutex> lock(mutex_);
+    printPointInfo(msg.point.x, msg.point.y, msg.point.z);
+  }
 
+  std::lock_guard<std::mutex> state_lock(state_mutex_);
   geometry_msgs::PoseStamped pose;
   pose.header = msg.header;
   pose.pose.position = msg.point;
-  pose.pose.position.z = global_planner_.curr_pos_.z;
+  pose.pose.position.z = last_pos_.pose.position.z;
   last_clicked_points.push_back(pose);
 }
 
 void GlobalPlannerNode::moveBaseSimpleCallback(const geometry_msgs::PoseStamped& msg) {
+  std::lock_guard<std::mutex> lock(mutex_);
   waypoints_.clear();  // Only leads to the goal being replaced
   setNewGoal(GoalCell(msg.pose.position.x, msg.pose.position.y, clicked_goal_alt_, clicked_goal_radius_));
 }
 
 void GlobalPlannerNode::fcuInputGoalCallback(const mavros_msgs::Trajectory& msg) {
+  std::lock_guard<std::mutex> lock(mutex_);
   const GoalCell new_goal = GoalCell(msg.point_2.position.x, msg.point_2.position.y, msg.point_2.position.z, 1.0);
   // The goal may be waiting behind an intermediate goal
   const GoalCell& final_goal = waypoints_.empty() ? global_planner_.goal_pos_ : waypoints_.back();
@@ -289,10 +300,13 @@ void GlobalPlannerNode::octomapFullCallback(const octomap_msgs::Octomap& msg) {
 
   ros::Time current = ros::Time::now();
   // Update map at a fixed rate. This is useful on setting replanning rates for the planner.
-  if ((current - last_wp_time_).toSec() < mapupdate_dt_) {
-    return;
+  {
+    std::lock_guard<std::mutex> state_lock(state_mutex_);
+    if ((current - last_wp_time_).toSec() < mapupdate_dt_) {
+      return;
+    }
+    last_wp_time_ = ros::Time::now();
   }
-  last_wp_time_ = ros::Time::now();
 
   octomap::AbstractOcTree* tree = octomap_msgs::msgToMap(msg);
 
@@ -313,6 +327,7 @@ void GlobalPlannerNode::depthCameraCallback(const sensor_msgs::PointCloud2& msg)
     pcl::fromROSMsg(transformed_msg, cloud);
 
     // Store the obstacle points
+    std::lock_guard<std::mutex> lock(mutex_);
     for (const auto& p : cloud) {
       if (std::isfinite(p.x) && std::isfinite(p.y) && std::isfinite(p.z)) {
         // TODO: Not all points end up here
@@ -328,6 +343,7 @@ void GlobalPlannerNode::depthCameraCallback(const sensor_msgs::PointCloud2& msg)
 }
 
 void GlobalPlannerNode::setCurrentPath(const std::vector<geometry_msgs::PoseStamped>& poses) {
+  std::lock_guard<std::mutex> state_lock(state_mutex_);
   path_.clear();
 
   if (poses.empty()) {
@@ -354,7 +370,9 @@ void GlobalPlannerNode::cmdLoopCallback(const ros::TimerEvent& event) {
   // Check if all information was received
   ros::Time now = ros::Time::now();
 
+  std::unique_lock<std::mutex> state_lock(state_mutex_);
   ros::Duration since_last_cloud = now - last_wp_time_;
+  state_lock.unlock();
   ros::Duration since_start = now - start_time_;
 
   avoidance_node_.checkFailsafe(since_last_cloud, since_start, hover_);
@@ -363,6 +381,13 @@ void GlobalPlannerNode::cmdLoopCallback(const ros::TimerEvent& event) {
 
 void GlobalPlannerNode::plannerLoopCallback(const ros::TimerEvent& event) {
   std::lock_guard<std::mutex> lock(mutex_);
+  {
+    std::lock_guard<std::mutex> state_lock(state_mutex_);
+    if (position_received_) {
+      global_planner_.setPose(last_pos_);
+    }
+    global_planner_.curr_vel_ = last_vel_;
+  }
   bool is_in_goal = global_planner_.goal_pos_.withinPositionRadius(global_planner_.curr_pos_);
   if (is_in_goal || global_planner_.goal_is_blocked_) {
     popNextGoal();
@@ -372,6 +397,7 @@ void GlobalPlannerNode::plannerLoopCallback(const ros::TimerEvent& event) {
 
   // Print and publish info
   if (is_in_goal && !waypoints_.empty()) {
+    std::lock_guard<std::mutex> state_lock(state_mutex_);
     ROS_INFO("Reached current goal %s, %d goals left\n\n", global_planner_.goal_pos_.asString().c_str(),
              (int)waypoints_.size());
     ROS_INFO("Actual travel distance: %2.2f \t Actual energy usage: %2.2f", pathLength(actual_path_),
@@ -417,9 +443,13 @@ void GlobalPlannerNode::printPointInfo(double x, double y, double z) {
 }
 
 void GlobalPlannerNode::publishSetpoint() {
+  // The risk can only be asked for while no plan is being made, otherwise the vehicle keeps its speed
+  std::unique_lock<std::mutex> lock(mutex_, std::try_to_lock);
+  std::lock_guard<std::mutex> state_lock(state_mutex_);
+
   // Vector pointing from current position to the current goal
   tf::Vector3 vec = toTfVector3(subtractPoints(current_goal_.pose.position, last_pos_.pose.position));
-  if (global_planner_.use_risk_based_speedup_) {
+  if (global_planner_.use_risk_based_speedup_ && lock.owns_lock()) {
     Cell cur_cell =
         global_planner::Cell(last_pos_.pose.position.x, last_pos_.pose.position.y, last_pos_.pose.position.z);
     double cur_risk = std::sqrt(global_planner_.getRisk(cur_cell));
@@ -431,7 +461,8 @@ void GlobalPlannerNode::publishSetpoint() {
       speed_ = global_planner_.default_speed_ +
                (global_planner_.max_speed_ - global_planner_.default_speed_) * (1 - cur_risk);
     }
-  } else {  // If risk based speed up is not activated, use default_speed_.
+  } else if (!global_planner_.use_risk_based_speedup_) {
+    // If risk based speed up is not activated, use default_speed_.
     speed_ = global_planner_.default_speed_;
   }
 
-- 
2.43.0


From 5aa5a929a38724ef660953dd26eb46d1ae60c0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:49 +0000
Subject: [PATCH 53/59] fix: the landing nodes slept through clouds, evaluated
 some twice, and did not end when told to

---
 .../safe_landing_planner_node.hpp                  |  1 +
 .../waypoint_generator_node.hpp                    |  4 +++-
 .../src/nodes/safe_landing_planner_node.cpp        | 14 ++++++++++----
 .../src/nodes/safe_landing_planner_node_main.cpp   |  4 +++-
 .../src/nodes/waypoint_generator_node.cpp          |  9 ++++++++-
 5 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/safe_landing_planner/include/safe_landing_planner/safe_landing_planner_node.hpp b/safe_landing_planner/include/safe_landing_planner/safe_landing_planner_node.hpp
index cc85f58..d9a30d2 100644
--- a/safe_landing_planner/include/safe_landing_planner/safe_landing_planner_node.hpp
+++ b/safe_landing_planner/include/safe_landing_planner/safe_landing_planner_node.hpp
@@ -84,6 +84,7 @@ class SafeLandingPlannerNode {
   SafeLandingPlannerVisualization visualizer_;
 
   bool position_received_ = false;
+  bool cloud_received_ = false;  // guarded by cloud_msg_mutex_
   std::atomic<bool> cloud_transformed_{false};
   double spin_dt_ = 0.1;
 
diff --git a/safe_landing_planner/include/safe_landing_planner/waypoint_generator_node.hpp b/safe_landing_planner/include/safe_landing_planner/waypoint_generator_node.hpp
index 2d5a2c1..16f3321 100644
--- a/safe_landing_planner/include/safe_landing_planner/waypoint_generator_node.hpp
+++ b/safe_landing_planner/include/safe_landing_planner/waypoint_generator_node.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include <ros/ros.h>
 #include <ros/time.h>
+#include <atomic>
 
 #include <geometry_msgs/PoseStamped.h>
 #include <mavros_msgs/State.h>
@@ -22,7 +23,7 @@ namespace avoidance {
 class WaypointGeneratorNode final {
  public:
   WaypointGeneratorNode(const ros::NodeHandle& nh);
-  ~WaypointGeneratorNode() = default;
+  ~WaypointGeneratorNode();
 
   /**
   * @brief spins node
@@ -50,6 +51,7 @@ class WaypointGeneratorNode final {
   ros::Publisher land_hysteresis_pub_;
   ros::Publisher marker_goal_pub_;
 
+  std::atomic<bool> should_exit_{false};
   bool grid_received_ = false;
   double spin_dt_ = 0.1;
   Eigen::Vector3f goal_visualization_ = Eigen::Vector3f::Zero();
diff --git a/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp b/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
index c3c6855..a67756d 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
@@ -47,6 +47,8 @@ SafeLandingPlannerNode::~SafeLandingPlannerNode() {
   }
   cloud_ready_cv_->notify_all();
   if (worker_.joinable()) worker_.join();
+  // the command loop uses members that are destroyed before the spinner
+  if (cmdloop_spinner_) cmdloop_spinner_->stop();
 }
 
 void SafeLandingPlannerNode::dynamicReconfigureCallback(safe_landing_planner::SafeLandingPlannerNodeConfig &config,
@@ -65,6 +67,7 @@ void SafeLandingPlannerNode::pointCloudCallback(const sensor_msgs::PointCloud2 &
   {
     std::lock_guard<std::mutex> lck(*(cloud_msg_mutex_));
     newest_cloud_msg_ = msg;  // FIXME: avoid a copy
+    cloud_received_ = true;
   }
 
   cloud_ready_cv_->notify_one();
@@ -91,7 +94,7 @@ void SafeLandingPlannerNode::cmdLoopCallback(const ros::TimerEvent &event) {
   status_msg_.state = static_cast<int>(avoidance::MAV_STATE::MAV_STATE_ACTIVE);
 
   ros::Time start_query_position = ros::Time::now();
-  while (!cloud_transformed_ && ros::ok()) {
+  while (!cloud_transformed_ && !should_exit_ && ros::ok()) {
     ros::getGlobalCallbackQueue()->callAvailable(ros::WallDuration(0.1));
     ros::Duration since_query = ros::Time::now() - start_query_position;
     if (since_query > ros::Duration(safe_landing_planner_->timeout_termination_)) {
@@ -99,6 +102,7 @@ void SafeLandingPlannerNode::cmdLoopCallback(const ros::TimerEvent &event) {
       publishSystemStatus();
     }
   }
+  if (should_exit_ || !ros::ok()) return;
 
   // Check if all information was received
   ros::Time now = ros::Time::now();
@@ -218,10 +222,10 @@ void SafeLandingPlannerNode::pointCloudTransformThread() {
   while (!should_exit_) {
     {
       std::unique_lock<std::mutex> cloud_msg_lock(*(cloud_msg_mutex_));
-      if (should_exit_) break;
-      cloud_ready_cv_->wait(cloud_msg_lock);
+      cloud_ready_cv_->wait(cloud_msg_lock, [this] { return cloud_received_ || should_exit_; });
     }
-    while (cloud_transformed_ == false) {
+    bool transformed = false;
+    while (!transformed) {
       if (should_exit_) break;
 
       std::unique_ptr<std::lock_guard<std::mutex>> cloud_msg_lock(new std::lock_guard<std::mutex>(*(cloud_msg_mutex_)));
@@ -231,6 +235,7 @@ void SafeLandingPlannerNode::pointCloudTransformThread() {
           pcl::PointCloud<pcl::PointXYZ> pcl_cloud;
           // transform message to pcl type
           pcl::fromROSMsg(newest_cloud_msg_, pcl_cloud);
+          cloud_received_ = false;
           cloud_msg_lock.reset();
           // remove nan padding
           std::vector<int> dummy_index;
@@ -242,6 +247,7 @@ void SafeLandingPlannerNode::pointCloudTransformThread() {
 
           std::lock_guard<std::mutex> transformed_cloud_guard(*(transformed_cloud_mutex_));
           cloud_transformed_ = true;
+          transformed = true;
           safe_landing_planner_->cloud_ = std::move(pcl_cloud);
         } catch (tf::TransformException &ex) {
           ROS_ERROR("Received an exception trying to transform a pointcloud: %s", ex.what());
diff --git a/safe_landing_planner/src/nodes/safe_landing_planner_node_main.cpp b/safe_landing_planner/src/nodes/safe_landing_planner_node_main.cpp
index 0e6de8c..9084975 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner_node_main.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner_node_main.cpp
@@ -7,7 +7,9 @@ int main(int argc, char **argv) {
   SafeLandingPlannerNode NodeSLP(nh);
   NodeSLP.startNode();
 
-  NodeSLP.worker_.join();
+  while (ros::ok()) {
+    ros::Duration(1.0).sleep();
+  }
 
   return 0;
 }
diff --git a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
index aafe714..cdf5466 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
@@ -27,6 +27,12 @@ WaypointGeneratorNode::WaypointGeneratorNode(const ros::NodeHandle &nh) : nh_(nh
   };
 }
 
+WaypointGeneratorNode::~WaypointGeneratorNode() {
+  // the command loop uses members that are destroyed before the spinner
+  should_exit_ = true;
+  if (cmdloop_spinner_) cmdloop_spinner_->stop();
+}
+
 void WaypointGeneratorNode::startNode() {
   ros::TimerOptions timer_options(ros::Duration(spin_dt_),
                                   boost::bind(&WaypointGeneratorNode::cmdLoopCallback, this, _1), &cmdloop_queue_);
@@ -36,9 +42,10 @@ void WaypointGeneratorNode::startNode() {
 }
 
 void WaypointGeneratorNode::cmdLoopCallback(const ros::TimerEvent &event) {
-  while (!grid_received_ && ros::ok()) {
+  while (!grid_received_ && !should_exit_ && ros::ok()) {
     ros::getGlobalCallbackQueue()->callAvailable(ros::WallDuration(0.1));
   }
+  if (should_exit_ || !ros::ok()) return;
 
   waypointGenerator_.calculateWaypoint();
   landingAreaVisualization();
-- 
2.43.0


From 96dd2def232dc03d19bb2b5ac03ef5dfde66d0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:49 +0000
Subject: [PATCH 54/59] fix: a cloud whose transform was gone when needed was
 evaluated in the camera's frame

---
 safe_landing_planner/src/nodes/safe_landing_planner_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp b/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
index a67756d..ce231c1 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
@@ -243,7 +243,7 @@ void SafeLandingPlannerNode::pointCloudTransformThread() {
           pcl::removeNaNFromPointCloud(pcl_cloud, pcl_cloud, dummy_index);
 
           // transform cloud to local_origin frame
-          pcl_ros::transformPointCloud("local_origin", pcl_cloud, pcl_cloud, tf_listener_);
+          if (!pcl_ros::transformPointCloud("local_origin", pcl_cloud, pcl_cloud, tf_listener_)) continue;
 
           std::lock_guard<std::mutex> transformed_cloud_guard(*(transformed_cloud_mutex_));
           cloud_transformed_ = true;
-- 
2.43.0


From dc8460ee3a8d3742aab541703faa90128a67f0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:48 +0000
Subject: [PATCH 55/59] fix: world visualizer crashed without GAZEBO_MODEL_PATH
 and found no models without HOME

---
 avoidance/src/rviz_world_loader.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/avoidance/src/rviz_world_loader.cpp b/avoidance/src/rviz_world_loader.cpp
index 943bc82..8f1d0d4 100644
--- a/avoidance/src/rviz_world_loader.cpp
+++ b/avoidance/src/rviz_world_loader.cpp
@@ -34,8 +34,9 @@ int WorldVisualizer::resolveUri(std::string& uri) {
   char* gazebo_model_path = getenv("GAZEBO_MODEL_PATH");
   char* home = getenv("HOME");
   uri = uri.substr(7, std::string::npos);
-  std::stringstream all_locations(gazebo_model_path, std::ios_base::app | std::ios_base::out | std::ios_base::in);
-  all_locations << ":" << home << "/.gazebo/models";
+  std::stringstream all_locations(gazebo_model_path ? gazebo_model_path : "",
+                                  std::ios_base::app | std::ios_base::out | std::ios_base::in);
+  if (home) all_locations << ":" << home << "/.gazebo/models";
   std::string current_location;
   while (getline(all_locations, current_location, ':')) {
     struct stat s;
-- 
2.43.0


From a30d0c11375e772f9bbce97fc88371e51ff0f4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:21 +0000
Subject: [PATCH 56/59] fix: a malformed world file ended the node that
 visualizes it

---
 avoidance/src/rviz_world_loader.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/avoidance/src/rviz_world_loader.cpp b/avoidance/src/rviz_world_loader.cpp
index 8f1d0d4..a936bba 100644
--- a/avoidance/src/rviz_world_loader.cpp
+++ b/avoidance/src/rviz_world_loader.cpp
@@ -25,7 +25,11 @@ WorldVisualizer::WorldVisualizer(const ros::NodeHandle& nh, const std::string& n
 void WorldVisualizer::loopCallback(const ros::TimerEvent& event) {
   // visualize world in RVIZ
   if (!world_path_.empty()) {
-    if (visualizeRVIZWorld(world_path_)) ROS_WARN("[WorldVisualizer] Failed to visualize Rviz world");
+    try {
+      if (visualizeRVIZWorld(world_path_)) ROS_WARN("[WorldVisualizer] Failed to visualize Rviz world");
+    } catch (const YAML::Exception& e) {
+      ROS_WARN("[WorldVisualizer] Failed to visualize Rviz world: %s", e.what());
+    }
   }
 }
 
-- 
2.43.0


From 3a71d401f3f0caef6d33c3e9079bdfa1047508e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:08 +0000
Subject: [PATCH 57/59] fix: the heading was drawn at a wrong place in the cost
 image, degrees being converted to degrees again

---
 local_planner/src/nodes/local_planner_visualization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/local_planner/src/nodes/local_planner_visualization.cpp b/local_planner/src/nodes/local_planner_visualization.cpp
index 553d929..b46dae8 100644
--- a/local_planner/src/nodes/local_planner_visualization.cpp
+++ b/local_planner/src/nodes/local_planner_visualization.cpp
@@ -279,7 +279,7 @@ void LocalPlannerVisualization::publishDataImages(const std::vector<uint8_t>& hi
 
   // current orientation
   float curr_yaw_fcu_frame = getYawFromQuaternion(newest_orientation);
-  float yaw_angle_histogram_frame = -static_cast<float>(curr_yaw_fcu_frame) * 180.0f / M_PI_F + 90.0f;
+  float yaw_angle_histogram_frame = -curr_yaw_fcu_frame + 90.0f;
   PolarPoint heading_pol(0, yaw_angle_histogram_frame, 1.0);
   Eigen::Vector2i heading_index = polarToHistogramIndex(heading_pol, ALPHA_RES);
 
-- 
2.43.0


From 8b1515c6b488a8b830cafbec3b7b3b76b2b2bc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:08 +0000
Subject: [PATCH 58/59] fix: the histogram image claimed rows of 255 bytes
 although they have 60

---
 local_planner/src/nodes/local_planner_visualization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/local_planner/src/nodes/local_planner_visualization.cpp b/local_planner/src/nodes/local_planner_visualization.cpp
index b46dae8..b114bca 100644
--- a/local_planner/src/nodes/local_planner_visualization.cpp
+++ b/local_planner/src/nodes/local_planner_visualization.cpp
@@ -311,7 +311,7 @@ void LocalPlannerVisualization::publishDataImages(const std::vector<uint8_t>& hi
   hist_img.width = GRID_LENGTH_Z;
   hist_img.encoding = sensor_msgs::image_encodings::MONO8;
   hist_img.is_bigendian = 0;
-  hist_img.step = 255;
+  hist_img.step = hist_img.width;
   hist_img.data = histogram_image_data;
 
   histogram_image_pub_.publish(hist_img);
-- 
2.43.0


From e0d3d84db5079f54c0a47da68cd4c74d1ca79a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:02 +0000
Subject: [PATCH 59/59] fix: the landing area was drawn half a cell away from
 the grid it belongs to

---
 safe_landing_planner/src/nodes/waypoint_generator_node.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
index cdf5466..114fe5c 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
@@ -223,8 +223,8 @@ void WaypointGeneratorNode::landingAreaVisualization() {
 
   for (size_t k = offset - slc; k <= offset + slc; k++) {
     for (size_t l = offset - slc; l <= offset + slc; l++) {
-      cell.pose.position.x = grid_min.x() + (cell_size * k);
-      cell.pose.position.y = grid_min.y() + (cell_size * l);
+      cell.pose.position.x = grid_min.x() + (cell_size * k) + (cell_size / 2.f);
+      cell.pose.position.y = grid_min.y() + (cell_size * l) + (cell_size / 2.f);
       cell.pose.position.z = 1;
       if (result(k, l)) {
         cell.color.r = 0.0;
-- 
2.43.0

