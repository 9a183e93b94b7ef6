#!/usr/bin/env python3
"""Applies behaviour-preserving edits to a scratch clone of the repository, so that the checks can be shown to stay
quiet on them:  tools/refactor.py CLONE [A|B|C ...]
  A: the same operations written differently   B: the same mathematics, rounded differently
  C: the order of things nobody relies on (neighbours, log lines, publishers)"""
import sys, os

A, B, C = [], [], []
PF = "local_planner/src/nodes/planner_functions.cpp"
SP = "local_planner/src/nodes/star_planner.cpp"
TS = "local_planner/src/utils/trajectory_simulator.cpp"
WG = "local_planner/src/nodes/waypoint_generator.cpp"
LP = "local_planner/src/nodes/local_planner.cpp"
SL = "safe_landing_planner/src/nodes/safe_landing_planner.cpp"
SW = "safe_landing_planner/src/nodes/waypoint_generator.cpp"
GR = "safe_landing_planner/include/safe_landing_planner/grid.hpp"
CO = "avoidance/src/common.cpp"
HI = "avoidance/src/histogram.cpp"
HH = "avoidance/include/avoidance/histogram.h"
US = "avoidance/include/avoidance/usm.h"
AN = "avoidance/src/avoidance_node.cpp"
TB = "avoidance/src/transform_buffer.cpp"
GP = "global_planner/src/library/global_planner.cpp"
CE = "global_planner/src/library/cell.cpp"
NO = "global_planner/src/library/node.cpp"
ST = "global_planner/include/global_planner/search_tools.h"

# ---------------------------------------------------------------- A
A += [
 (PF, "      if (!std::isnan(xyz.x) && !std::isnan(xyz.y) && !std::isnan(xyz.z)) {\n        float distanceSq",
      "      const bool valid = !(std::isnan(xyz.x) || std::isnan(xyz.y) || std::isnan(xyz.z));\n      if (valid) {\n        float distanceSq"),
 (PF, "          histogram_points_counter(p_ind.y(), p_ind.x())++;\n          if (histogram_points_counter(p_ind.y(), p_ind.x()) == min_num_points_per_cell) {",
      "          int& count = histogram_points_counter(p_ind.y(), p_ind.x());\n          count += 1;\n          if (count == min_num_points_per_cell) {"),
 (PF, "        is_obstacle_facing_goal = (is_obstacle_facing_goal || true);", "        is_obstacle_facing_goal = true;"),
 (PF, "      PolarPoint tmp;\n      tmp.z = goal_polar.z;\n      tmp.e = goal_polar.e;\n      Eigen::Vector2i tmp_index = goal_index;\n\n      tmp.z += (float)i * ALPHA_RES;\n      tmp.e += (float)j * ALPHA_RES;\n      tmp_index = polarToHistogramIndex(tmp, ALPHA_RES);\n",
      "      PolarPoint tmp;\n      tmp.z = goal_polar.z + (float)i * ALPHA_RES;\n      tmp.e = goal_polar.e + (float)j * ALPHA_RES;\n      const Eigen::Vector2i tmp_index = polarToHistogramIndex(tmp, ALPHA_RES);\n"),
 (PF, "      if (counter(e, z) > 0) {\n        polar_histogram.set_dist(e, z, polar_histogram.get_dist(e, z) / counter(e, z));\n      } else {\n        polar_histogram.set_dist(e, z, 0.f);\n      }",
      "      const int n = counter(e, z);\n      polar_histogram.set_dist(e, z, n > 0 ? polar_histogram.get_dist(e, z) / n : 0.f);"),
 (PF, "  // copy queue to vector and change order such that lowest cost is at the\n  // front\n  candidate_vector.clear();\n  candidate_vector.reserve(queue.size());\n  while (!queue.empty()) {\n    candidate_vector.push_back(queue.top());\n    queue.pop();\n  }\n  std::reverse(candidate_vector.begin(), candidate_vector.end());",
      "  candidate_vector.assign(queue.size(), candidateDirection(0.f, 0.f, 0.f));\n  for (auto it = candidate_vector.rbegin(); it != candidate_vector.rend(); ++it) {\n    *it = queue.top();\n    queue.pop();\n  }"),
 (PF, "  // path contains nothing meaningful\n  if (i < 2) {\n    return false;\n  }\n", "  if (path.size() <= 1) return false;\n"),
 (PF, "  float weight = 0.f;  // yaw cost partition between back to line previous-current goal and goal\n  if (!is_obstacle_facing_goal) {\n    weight = 0.5f;\n  }\n",
      "  const float weight = is_obstacle_facing_goal ? 0.f : 0.5f;\n"),
 (SP, "        // check if another close node has been added\n        int close_nodes = 0;\n        for (size_t i = 0; i < tree_.size(); i++) {\n          float dist = (tree_[i].getPosition() - node_location).norm();\n          if (dist < 0.2f) {\n            close_nodes++;\n            break;\n          }\n        }\n\n        if (children < children_per_node_ && close_nodes == 0) {",
      "        const bool taken = std::any_of(tree_.begin(), tree_.end(), [&](const TreeNode& n) {\n          return (n.getPosition() - node_location).norm() < 0.2f;\n        });\n\n        if (!taken && children < children_per_node_) {"),
 (SP, "  for (size_t i = 0; i < tree_.size(); i++) {\n    if (!(tree_[i].closed_)) {\n      if (tree_[i].depth_ > max_depth) {\n        max_depth = tree_[i].depth_;\n        max_depth_index = i;\n      }\n    }\n  }",
      "  for (size_t i = 0; i < tree_.size(); i++) {\n    const TreeNode& node = tree_[i];\n    if (node.closed_ || node.depth_ <= max_depth) continue;\n    max_depth = node.depth_;\n    max_depth_index = i;\n  }"),
 (SP, "  int tree_end = max_depth_index;\n  path_node_positions_.clear();\n  while (tree_end > 0) {\n    path_node_positions_.push_back(tree_[tree_end].getPosition());\n    tree_end = tree_[tree_end].origin_;\n  }\n",
      "  path_node_positions_.clear();\n  for (int tree_end = max_depth_index; tree_end > 0; tree_end = tree_[tree_end].origin_) {\n    path_node_positions_.push_back(tree_[tree_end].getPosition());\n  }\n"),
 (TS, "  simulation_state run_state = start_;\n  for (int i = 0; i < num_steps; i++) {", "  simulation_state run_state = start_;\n  while (static_cast<int>(timepoints.size()) < num_steps) {"),
 (TS, "  const Eigen::Vector3f damped_jerk = norm_clamp<3>(p + d, max_jerk_norm);\n  return damped_jerk;", "  return norm_clamp<3>(p + d, max_jerk_norm);"),
 (WG, "  if (loiter_) {\n    return usm::Transition::NEXT3;  // LOITER\n  } else if (isAltitudeChange()) {\n    return usm::Transition::NEXT1;  // ALTITUDE_CHANGE\n  } else if (tree_available) {\n    ROS_DEBUG(\"[WG] Using calculated tree\\n\");\n    return usm::Transition::REPEAT;\n  } else {\n    return usm::Transition::NEXT2;  // DIRECT\n  }",
      "  if (loiter_) return usm::Transition::NEXT3;\n  if (isAltitudeChange()) return usm::Transition::NEXT1;\n  return tree_available ? usm::Transition::REPEAT : usm::Transition::NEXT2;"),
 (WG, "  if (goto_position.hasNaN()) {\n    output_.goto_position = position_;\n  } else {\n    output_.goto_position = goto_position;\n  }",
      "  const bool known = !goto_position.hasNaN();\n  output_.goto_position = known ? goto_position : position_;"),
 (WG, "      if (position_.z() <= goal_.z()) {\n        output_.goto_position.z() += 1.0f;\n      } else {\n        output_.goto_position.z() -= 1.0f;\n      }",
      "      output_.goto_position.z() += position_.z() <= goal_.z() ? 1.0f : -1.0f;"),
 (WG, "  Eigen::Vector3f pose_to_wp = output_.goto_position - position_;\n  if (pose_to_wp.norm() > 0.1f) pose_to_wp.normalize();\n  pose_to_wp *= speed_;\n\n  output_.adapted_goto_position = position_ + pose_to_wp;",
      "  const Eigen::Vector3f way = output_.goto_position - position_;\n  const Eigen::Vector3f dir = way.norm() > 0.1f ? way.normalized() : way;\n  output_.adapted_goto_position = position_ + dir * speed_;"),
 (WG, "  if (i >= fov_fcu_frame_.size()) {\n    fov_fcu_frame_.resize(i + 1);\n  }", "  while (fov_fcu_frame_.size() <= static_cast<size_t>(i)) fov_fcu_frame_.push_back(FOV());"),
 (LP, "  if (!polar_histogram_.isEmpty()) {\n    getCostMatrix", "  if (polar_histogram_.isEmpty()) return;\n  {\n    getCostMatrix"),
 (LP, "    star_planner_->setParams(cost_params_);\n    star_planner_->setPointcloud(final_cloud_);\n    star_planner_->setClosestPointOnLine(closest_pt_);\n",
      "    star_planner_->setClosestPointOnLine(closest_pt_);\n    star_planner_->setPointcloud(final_cloud_);\n    star_planner_->setParams(cost_params_);\n"),
 (SL, "      if (grid_.getCounter(idx) < n_points_thr_ || sqrtf(grid_.getVariance(idx)) > std_dev_thr_) {\n        grid_.land_(i, j) = 0;\n      } else {\n        grid_.land_(i, j) = 1;\n      }",
      "      const bool enough_points = !(grid_.getCounter(idx) < n_points_thr_);\n      const bool flat = !(sqrtf(grid_.getVariance(idx)) > std_dev_thr_);\n      grid_.land_(i, j) = enough_points && flat;"),
 (SL, "    for (int i = n_lines_padding_; i < land_padded.rows() - n_lines_padding_; i++) {\n      for (int j = n_lines_padding_; j < land_padded.cols() - n_lines_padding_; j++) {\n        for (int k",
      "    for (int j = n_lines_padding_; j < land_padded.cols() - n_lines_padding_; j++) {\n      for (int i = n_lines_padding_; i < land_padded.rows() - n_lines_padding_; i++) {\n        for (int k"),
 (SW, "  if (abs(grid_slp_seq_ - start_seq_landing_decision_) <= 20) {\n    for (int i = 0; i < grid_slp_.land_.rows(); i++) {\n      for (int j = 0; j < grid_slp_.land_.cols(); j++) {\n        float cell_land_value = static_cast<float>(grid_slp_.land_(i, j));\n        float can_land_hysteresis_matrix_prev = can_land_hysteresis_matrix_(i, j);\n        can_land_hysteresis_matrix_(i, j) = (beta_ * can_land_hysteresis_matrix_prev) + (1.f - beta_) * cell_land_value;\n      }\n    }\n  } else {",
      "  if (abs(grid_slp_seq_ - start_seq_landing_decision_) < 21) {\n    can_land_hysteresis_matrix_ =\n        (beta_ * can_land_hysteresis_matrix_ + (1.f - beta_) * grid_slp_.land_.template cast<float>()).eval();\n  } else {"),
 (SW, "    can_land_hysteresis_matrix_ =\n        (can_land_hysteresis_matrix_.array() <= can_land_thr_).select(0, can_land_hysteresis_matrix_);\n    can_land_hysteresis_matrix_ =\n        (can_land_hysteresis_matrix_.array() > can_land_thr_).select(1, can_land_hysteresis_matrix_);\n    can_land_hysteresis_result_ = can_land_hysteresis_matrix_.template cast<int>();",
      "    for (int i = 0; i < can_land_hysteresis_matrix_.rows(); i++)\n      for (int j = 0; j < can_land_hysteresis_matrix_.cols(); j++) {\n        const bool ok = can_land_hysteresis_matrix_(i, j) > can_land_thr_;\n        can_land_hysteresis_matrix_(i, j) = ok;\n        can_land_hysteresis_result_(i, j) = ok;\n      }"),
 (SW, "  std::sort(altitude_landing_area.begin(), altitude_landing_area.end());\n  int index = static_cast<int>(std::round(percentile / 100.f * altitude_landing_area.size()));\n  index = std::min(index, static_cast<int>(altitude_landing_area.size()) - 1);\n",
      "  int index = static_cast<int>(std::round(percentile / 100.f * altitude_landing_area.size()));\n  index = std::min(index, static_cast<int>(altitude_landing_area.size()) - 1);\n  std::nth_element(altitude_landing_area.begin(), altitude_landing_area.begin() + index, altitude_landing_area.end());\n"),
 (GR, "    corner_min_.x() = pos.x() - grid_size_ / 2.f;\n    corner_min_.y() = pos.y() - grid_size_ / 2.f;\n    corner_max_.x() = pos.x() + grid_size_ / 2.f;\n    corner_max_.y() = pos.y() + grid_size_ / 2.f;",
      "    const float half = grid_size_ / 2.f;\n    for (int k = 0; k < 2; k++) {\n      corner_min_[k] = pos[k] - half;\n      corner_max_[k] = pos[k] + half;\n    }"),
 (GR, "    mean_.fill(0.f);\n    variance_.fill(0.f);\n    counter_.fill(0);\n    land_.fill(0);", "    land_.setZero();\n    counter_.setZero();\n    variance_.setZero();\n    mean_.setZero();"),
 (CO, "  for (auto fov : fov_vec) {\n    if (pointInsideFOV(fov, p_pol)) {\n      return true;\n    }\n  }\n  return false;",
      "  return std::any_of(fov_vec.begin(), fov_vec.end(), [&](const FOV& fov) { return pointInsideFOV(fov, p_pol); });"),
 (CO, "  bool retval = false;\n  idx = -1;\n  for (int i = 0; i < fov_vec.size(); ++i) {\n    if (pointInsideYawFOV(fov_vec[i], p_pol)) {\n      if (retval) {  // if it's been found before, return false!\n        idx = -1;\n        return false;\n      }\n      idx = i;\n      retval = true;\n    }\n  }\n  return retval;",
      "  idx = -1;\n  int found = 0;\n  for (int i = static_cast<int>(fov_vec.size()) - 1; i >= 0; --i) {\n    if (pointInsideYawFOV(fov_vec[i], p_pol)) {\n      found++;\n      idx = i;\n    }\n  }\n  if (found != 1) idx = -1;\n  return found == 1;"),
 (CO, "  if (ev2.x() >= 360 / res) ev2.x() = 360 / res - 1;\n  if (ev2.x() < 0) ev2.x() = 0;\n  if (ev2.y() >= 180 / res) ev2.y() = 180 / res - 1;\n  if (ev2.y() < 0) ev2.y() = 0;\n",
      "  ev2.x() = std::max(0, std::min(ev2.x(), 360 / res - 1));\n  ev2.y() = std::max(0, std::min(ev2.y(), 180 / res - 1));\n"),
 (CO, "  bool wrapped = false;\n  if (p_pol.e > 90.0f) {\n    p_pol.e = 180.0f - p_pol.e;\n    wrapped = true;\n  } else if (p_pol.e < -90.0f) {\n    p_pol.e = -(180.0f + p_pol.e);\n    wrapped = true;\n  }\n  if (wrapped) {",
      "  const bool wrapped = p_pol.e > 90.0f || p_pol.e < -90.0f;\n  if (wrapped) {\n    p_pol.e = p_pol.e > 0.f ? 180.0f - p_pol.e : -(180.0f + p_pol.e);"),
 (CO, "  return angle >= 0.f ? (angle < 180.f) ? angle : angle - 360.f : (angle >= -180.f) ? angle : angle + 360.f;",
      "  if (angle >= 180.f) return angle - 360.f;\n  if (angle < -180.f) return angle + 360.f;\n  return angle;"),
 (CO, "  float yaw_vel2;\n  // finds the yaw vel for the other yaw direction\n  if (yaw_vel1 > 0.0f) {\n    yaw_vel2 = -(2.0f * M_PI_F - yaw_vel1);\n  } else {\n    yaw_vel2 = 2.0f * M_PI_F + yaw_vel1;\n  }\n",
      "  const float yaw_vel2 = yaw_vel1 > 0.0f ? -(2.0f * M_PI_F - yaw_vel1) : 2.0f * M_PI_F + yaw_vel1;\n"),
 (HI, "  for (int i = 0; i < e_dim_; ++i) {\n    for (int j = 0; j < z_dim_; ++j) {\n      int i_lowres = floor(i / 2);\n      int j_lowres = floor(j / 2);\n      temp_dist(i, j) = dist_(i_lowres, j_lowres);\n    }\n  }",
      "  for (int i = 0; i < dist_.rows(); ++i) {\n    for (int j = 0; j < dist_.cols(); ++j) {\n      temp_dist.block<2, 2>(2 * i, 2 * j).setConstant(dist_(i, j));\n    }\n  }"),
 (HI, "  int counter = 0;\n  for (int e = 0; (e < e_dim_) && (0 == counter); e++) {\n    for (int z = 0; (z < z_dim_) && (0 == counter); z++) {\n      if (dist_(e, z) > FLT_MIN) {\n        counter++;\n      }\n    }\n  }\n  return counter == 0;",
      "  for (int z = 0; z < z_dim_; z++) {\n    for (int e = 0; e < e_dim_; e++) {\n      if (dist_(e, z) > FLT_MIN) return false;\n    }\n  }\n  return true;"),
 (HH, "    x = x % e_dim_;\n    if (x < 0) x += e_dim_;\n    y = y % z_dim_;\n    if (y < 0) y += z_dim_;", "    x = ((x % e_dim_) + e_dim_) % e_dim_;\n    y = ((y % z_dim_) + z_dim_) % z_dim_;"),
 (US, "  Transition t = runCurrentState();\n  if (t != Transition::REPEAT) m_currentState = chooseNextState(m_currentState, t);",
      "  const Transition t = runCurrentState();\n  if (t == Transition::REPEAT) return;\n  m_currentState = chooseNextState(m_currentState, t);"),
 (AN, "  if (since_last_cloud > timeout_termination && since_start > timeout_termination) {", "  const bool gone = std::min(since_last_cloud, since_start) > timeout_termination;\n  if (gone) {"),
 (AN, "  for (int index = 0; index < msg.waypoints.size(); index++) {\n    if (msg.waypoints[index].is_current) {\n      for",
      "  const int n_waypoints = msg.waypoints.size();\n  for (int index = 0; index < n_waypoints; ++index) {\n    if (!msg.waypoints[index].is_current) continue;\n    {\n      for"),
 (TB, "  if (iterator == buffer_.end()) {\n    std::deque<tf::StampedTransform> empty_deque;\n    buffer_[getKey(source_frame, target_frame)] = empty_deque;\n    iterator = buffer_.find(getKey(source_frame, target_frame));\n  }\n",
      "  if (iterator == buffer_.end()) {\n    iterator = buffer_.emplace(getKey(source_frame, target_frame), std::deque<tf::StampedTransform>()).first;\n  }\n"),
 (GP, "  if (risk_cache_.find(cell) != risk_cache_.end()) {\n    return risk_cache_[cell];\n  }\n", "  const auto cached = risk_cache_.find(cell);\n  if (cached != risk_cache_.end()) return cached->second;\n"),
 (GP, "  if (index > static_cast<int>(alt_prior_.size()) - 1) {\n    return alt_prior_.back();\n  } else if (index < 0) {\n    return alt_prior_.front();\n  } else {\n    return alt_prior_.at(index);\n  }",
      "  index = std::max(0, std::min(index, static_cast<int>(alt_prior_.size()) - 1));\n  return alt_prior_[index];"),
 (GP, "  double dist_cost = getEdgeDist(u.cell_, v.cell_);\n", "  const double dist_cost = getEdgeDist(u.cell_, v.cell_);\n  (void)0;\n"),
 (NO, "  if ((this_z_diff == 0) ^ (other_z_diff == 0)) {\n    // TODO: use vert_to_hor_cost_\n    alt_diff = 0.5;", "  if ((this_z_diff == 0) != (other_z_diff == 0)) {\n    alt_diff = 0.5;"),
 (NO, "  for (const Cell& neighborCell : cell_.getNeighbors()) {\n    neighbors.push_back(nextNode(neighborCell));\n  }\n", "  const std::vector<Cell> around = cell_.getNeighbors();\n  for (size_t i = 0; i < around.size(); i++) neighbors.push_back(nextNode(around[i]));\n"),
]
# ---------------------------------------------------------------- B
B += [
 (PF, "        float distanceSq = (position - toEigen(xyz)).squaredNorm();\n        if (sqr(min_sensor_range) < distanceSq && distanceSq < sqr(max_sensor_range)) {",
      "        float distance = (position - toEigen(xyz)).norm();\n        if (min_sensor_range < distance && distance < max_sensor_range) {"),
 (PF, "  for (auto xyz : cropped_cloud) {\n", "  for (auto it = cropped_cloud.points.rbegin(); it != cropped_cloud.points.rend(); ++it) {\n    const pcl::PointXYZI& xyz = *it;\n"),
 (PF, "  const float velocity_cost =\n      cost_params.velocity_cost_param * (velocity.norm() - candidate_velocity_cartesian.normalized().dot(velocity));",
      "  const float velocity_cost =\n      cost_params.velocity_cost_param * velocity.norm() -\n      cost_params.velocity_cost_param * candidate_velocity_cartesian.dot(velocity) / candidate_velocity_cartesian.norm();"),
 (PF, "    pitch_cost = pitch_cost / ((0.2 * goal_distance) * (0.2 * goal_distance));", "    pitch_cost = 25.f * pitch_cost / (goal_distance * goal_distance);"),
 (PF, "  const float yaw_cost = (1.f - weight) * cost_params.yaw_cost_param * angle_diff * angle_diff;", "  const float yaw_cost = angle_diff * angle_diff * cost_params.yaw_cost_param * (1.f - weight);"),
 (PF, "5000.0f * (1 + d / sqrt(1 + d * d))", "(5000.0f + 5000.0f * d / std::hypot(1.f, d))"),
 (PF, "          cost_matrix(e_index, last_index + i) = cost_matrix(e_index, last_index) + other_costs_gradient * i;\n          distance_matrix(e_index, last_index + i) = distance_matrix(e_index, last_index) + distance_cost_gradient * i;\n        }\n        last_index",
      "          cost_matrix(e_index, last_index + i) = cost_matrix(e_index, last_index + i - 1) + other_costs_gradient;\n          distance_matrix(e_index, last_index + i) =\n              distance_matrix(e_index, last_index + i - 1) + distance_cost_gradient;\n        }\n        last_index"),
 (PF, "      float smooth_val = (temp_row.segment(col_index, 2 * smoothing_radius + 1) * kernel1d).sum();\n      matrix(row_index, col_index) = smooth_val;",
      "      float smooth_val = 0.f;\n      for (unsigned int k = 0; k < 2 * smoothing_radius + 1; k++) smooth_val += temp_row(col_index + k) * kernel1d(k);\n      matrix(row_index, col_index) = smooth_val;"),
 (PF, "    kernel(row) = std::max(0.f, 1.f + radius - std::abs(row - radius));\n  }\n\n  kernel *= 1.f / kernel.maxCoeff();", "    kernel(row) = std::max(0.f, 1.f - std::abs(row - radius) / (1.f + radius));\n  }\n"),
 (PF, "  cost_matrix = cost_matrix + distance_matrix;", "  cost_matrix += distance_matrix;"),
 (PF, "  setpoint = path[i - 2] + (distance_left / path_segment.norm()) * path_segment;\n", "  setpoint = path[i - 2] + distance_left * path_segment.normalized();\n"),
 (SP, "tree_[origin].total_cost_ - tree_[origin].heuristic_ + candidate.cost + h;", "(tree_[origin].total_cost_ - tree_[origin].heuristic_) + (candidate.cost + h);"),
 (TS, "  next_state.position = state.position + step_time * state.velocity + 0.5f * sqr(step_time) * state.acceleration +\n                        (1.f / 6.f) * cube(step_time) * jerk;",
      "  next_state.position =\n      state.position + step_time * (state.velocity + step_time * (0.5f * state.acceleration + step_time / 6.f * jerk));"),
 (TS, "  next_state.velocity = state.velocity + state.acceleration * step_time + 0.5f * sqr(step_time) * jerk;", "  next_state.velocity = state.velocity + step_time * (state.acceleration + 0.5f * step_time * jerk);"),
 (WG, "  const Eigen::Vector3f p = location_diff.array() * P_constant;\n  const Eigen::Vector3f d = velocity_diff.array() * D_constant;\n\n  smoothed_goto_location_velocity_ += (p + d) * dt;",
      "  const Eigen::Vector3f p = location_diff.array() * P_constant * dt;\n  const Eigen::Vector3f d = velocity_diff.array() * D_constant * dt;\n\n  smoothed_goto_location_velocity_ += d + p;"),
 (WG, "  speed_ = alpha * speed_ + (1.f - alpha) * last_speed;", "  speed_ = last_speed + alpha * (speed_ - last_speed);"),
 (LP, "  closest_pt_.head<2>() = prev_goal_.head<2>() + (u_prev_to_goal * u_prev_to_goal.dot(prev_to_pos));", "  const float along = u_prev_to_goal.x() * prev_to_pos.x() + u_prev_to_goal.y() * prev_to_pos.y();\n  closest_pt_.head<2>() = prev_goal_.head<2>() + along * u_prev_to_goal;"),
 (LP, "  float limited_speed = (-b + std::sqrt(b * b - 4 * a * c)) / (2 * a);", "  float limited_speed = (std::sqrt(b * b - 4 * a * c) - b) * 0.5f;"),
 (SL, "  pair.first = (prev_mean * (seq - 1) + new_value) / (seq);", "  pair.first = prev_mean + (new_value - prev_mean) / seq;"),
 (SL, "  return x < grid_max.x() && x > grid_min.x() && y < grid_max.y() && y > grid_min.y();", "  return grid_min.x() < x && x < grid_max.x() && grid_min.y() < y && y < grid_max.y();"),
 (GR, "    mean_ = alpha * prev_grid.mean_ + (1.f - alpha) * mean_;\n    variance_ = alpha * prev_grid.variance_ + (1.f - alpha) * variance_;",
      "    mean_ = mean_ + alpha * (prev_grid.mean_ - mean_);\n    variance_ = variance_ + alpha * (prev_grid.variance_ - variance_);"),
 (HI, "dist_.block(i_high_res, j_high_res, 2, 2).mean();", "0.25f * (dist_(i_high_res, j_high_res) + dist_(i_high_res + 1, j_high_res) + dist_(i_high_res, j_high_res + 1) +\n                                 dist_(i_high_res + 1, j_high_res + 1));"),
 (CO, "  p_pol.r = sqrt((x - pos.x()) * (x - pos.x()) + (y - pos.y()) * (y - pos.y()) + (z - pos.z()) * (z - pos.z()));", "  p_pol.r = std::hypot(den, z - pos.z());"),
 (CO, "  ev2.y() = static_cast<int>(floor(p_wrapped.e / res + 90.0f / res));", "  ev2.y() = static_cast<int>(floor((p_wrapped.e + 90.0f) / res));"),
 (CO, "  ev2.x() = static_cast<int>(floor(p_wrapped.z / res + 180.0f / res));", "  ev2.x() = static_cast<int>(floor((p_wrapped.z + 180.0f) / res));"),
 (CO, "std::sin((90.0f - p_pol.e) * DEG_TO_RAD) * std::cos(p_pol.z * DEG_TO_RAD);", "std::cos(p_pol.e * DEG_TO_RAD) * std::cos(p_pol.z * DEG_TO_RAD);"),
 (CO, "std::sin((90.0f - p_pol.e) * DEG_TO_RAD) * std::sin(p_pol.z * DEG_TO_RAD);", "std::cos(p_pol.e * DEG_TO_RAD) * std::sin(p_pol.z * DEG_TO_RAD);"),
 (CO, "std::cos((90.0f - p_pol.e) * DEG_TO_RAD);  // positive pitch points down", "std::sin(p_pol.e * DEG_TO_RAD);  // positive pitch points down"),
 (CO, "float wrapAngleToPlusMinus180(float angle) { return angle - 360.f * std::floor(angle / 360.f + 0.5f); }", "float wrapAngleToPlusMinus180(float angle) { return angle - 360.f * std::floor((angle + 180.f) / 360.f); }"),
 (CO, "  return sqrt((p1.e - p2.e) * (p1.e - p2.e) + (p1.z - p2.z) * (p1.z - p2.z));", "  return std::hypot(p1.e - p2.e, p1.z - p2.z);"),
 (CO, "  out_q = Eigen::AngleAxisf(roll, Eigen::Vector3f::UnitX()) * Eigen::AngleAxisf(pitch, Eigen::Vector3f::UnitY()) *\n          Eigen::AngleAxisf(yaw, Eigen::Vector3f::UnitZ());",
      "  (void)roll;\n  (void)pitch;\n  out_q = Eigen::Quaternionf(std::cos(yaw / 2.f), 0.f, 0.f, std::sin(yaw / 2.f));"),
 (CO, "  float siny_cosp = 2.f * (q.w() * q.z() + q.x() * q.y());\n  float cosy_cosp = 1.f - 2.f * (q.y() * q.y() + q.z() * q.z());", "  float siny_cosp = 2.f * q.w() * q.z() + 2.f * q.x() * q.y();\n  float cosy_cosp = 1.f - 2.f * q.y() * q.y() - 2.f * q.z() * q.z();"),
 (TB, "  tf::Vector3 translation = tf_earlier.getOrigin() * (1.f - tau) + tf_later.getOrigin() * tau;", "  tf::Vector3 translation = tf_earlier.getOrigin() + (tf_later.getOrigin() - tf_earlier.getOrigin()) * tau;"),
 (TB, "  float tau = static_cast<float>(timeAfterEarlier.toNSec()) / timeBetween.toNSec();", "  double tau = timeAfterEarlier.toSec() / timeBetween.toSec();"),
 (CE, "  return sqrt(squared(xPos() - b.xPos()) + squared(yPos() - b.yPos()) + squared(zPos() - b.zPos()));", "  return std::hypot(distance2D(b), zPos() - b.zPos());"),
 (CE, "  return (dx + dy) + (diag_cost - 2) * std::min(dx, dy);", "  return std::max(dx, dy) - std::min(dx, dy) + diag_cost * std::min(dx, dy);"),
 (GP, "  return dist_cost + risk_cost + smooth_cost;", "  return dist_cost + (risk_cost + smooth_cost);"),
 (GP, "  return xy_diff + up_diff + down_diff;", "  return xy_diff + (up_diff + down_diff);"),
 (GP, "  return risk / nodeCells.size() * node.getLength();", "  return risk * node.getLength() / nodeCells.size();"),
 (NO, "  double x_step = (cell_.xPos() - parent_.xPos()) / steps;\n  double y_step = (cell_.yPos() - parent_.yPos()) / steps;\n  double z_step = (cell_.zPos() - parent_.zPos()) / steps;\n",
      "  double x_step = CELL_SCALE * dx / steps;\n  double y_step = CELL_SCALE * dy / steps;\n  double z_step = CELL_SCALE * dz / steps;\n"),
]
# ---------------------------------------------------------------- C
C += [
 (CE, "Cell(std::tuple<int, int, int>(xIndex() + 1, yIndex(), zIndex())),\n                           Cell(std::tuple<int, int, int>(xIndex() - 1, yIndex(), zIndex())),\n                           Cell(std::tuple<int, int, int>(xIndex(), yIndex() + 1, zIndex())),",
      "Cell(std::tuple<int, int, int>(xIndex(), yIndex() + 1, zIndex())),\n                           Cell(std::tuple<int, int, int>(xIndex() - 1, yIndex(), zIndex())),\n                           Cell(std::tuple<int, int, int>(xIndex() + 1, yIndex(), zIndex())),"),
 (CE, "  for (int x = -radius; x <= radius; x++) {\n", "  for (int x = radius; x >= -radius; x--) {\n"),
 (GP, "  neighbors.push_back(std::make_pair(forw, 1.0));\n  neighbors.push_back(std::make_pair(forw_left, 1.41));\n", "  neighbors.push_back(std::make_pair(forw_left, 1.41));\n  neighbors.push_back(std::make_pair(forw, 1.0));\n"),
 (PF, "  for (int row_index = 0; row_index < matrix.rows(); row_index++) {\n    for (int col_index = 0; col_index < matrix.cols(); col_index++) {\n      PolarPoint p_pol", "  for (int row_index = matrix.rows() - 1; row_index >= 0; row_index--) {\n    for (int col_index = matrix.cols() - 1; col_index >= 0; col_index--) {\n      PolarPoint p_pol"),
]
SETS = {"A": A, "B": B, "C": C}
try:
    import refactor_more
    for k, v in refactor_more.SETS.items(): SETS[k] = SETS.get(k, []) + v
except ImportError:
    pass

if __name__ == "__main__":
    clone, sets = sys.argv[1], sys.argv[2:] or ["A", "B", "C"]
    assert os.path.realpath(clone) != "/repo"
    bad = 0
    for s in sets:
        for f, old, new in SETS[s]:
            p = os.path.join(clone, f)
            t = open(p).read()
            n = t.count(old)
            if n < 1:
                print("NOT FOUND", s, f, repr(old[:80])); bad += 1; continue
            if n > 1: print("note: %d places %s %r" % (n, f, old[:60]))
            open(p, "w").write(t.replace(old, new))
    print("applied", sum(len(SETS[s]) for s in sets) - bad, "edits;", bad, "not found")
