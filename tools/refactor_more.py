"""More behaviour-preserving edits, of the nodes (D) and the searches (E); see refactor.py"""
LN = "local_planner/src/nodes/local_planner_nodelet.cpp"
LH = "local_planner/include/local_planner/local_planner_nodelet.h"
GN = "global_planner/src/nodes/global_planner_node.cpp"
SN = "safe_landing_planner/src/nodes/safe_landing_planner_node.cpp"
WN = "safe_landing_planner/src/nodes/waypoint_generator_node.cpp"
AN = "avoidance/src/avoidance_node.cpp"
GP = "global_planner/src/library/global_planner.cpp"
ST = "global_planner/include/global_planner/search_tools.h"
CO = "avoidance/src/common.cpp"
TB = "avoidance/src/transform_buffer.cpp"
LP = "local_planner/src/nodes/local_planner.cpp"
D = [
 (LN, "  size_t num_transformed_clouds = 0;\n  for (size_t i = 0; i < cameras_.size(); i++) {\n    std::lock_guard<std::mutex> transformed_cloud_guard(*(cameras_[i].camera_mutex_));\n    if (cameras_[i].transformed_) num_transformed_clouds++;\n  }\n  return num_transformed_clouds;",
      "  return std::count_if(cameras_.begin(), cameras_.end(), [](const cameraData& camera) {\n    std::lock_guard<std::mutex> guard(*camera.camera_mutex_);\n    return camera.transformed_;\n  });"),
 (LN, "    std::lock_guard<std::mutex> transformed_cloud_guard(*(cameras_[i].camera_mutex_));\n    try {\n      std::swap(local_planner_->original_cloud_vector_[i], cameras_[i].transformed_cloud_);\n      cameras_[i].transformed_cloud_.clear();\n      cameras_[i].transformed_ = false;\n      fov[i] = cameras_[i].fov_fcu_frame_;\n    } catch (tf::TransformException& ex) {\n      ROS_ERROR(\"Received an exception trying to transform a pointcloud: %s\", ex.what());\n    }",
      "    auto& camera = cameras_[i];\n    std::lock_guard<std::mutex> transformed_cloud_guard(*camera.camera_mutex_);\n    fov[i] = camera.fov_fcu_frame_;\n    camera.transformed_ = false;\n    std::swap(local_planner_->original_cloud_vector_[i], camera.transformed_cloud_);\n    camera.transformed_cloud_.clear();"),
 (LN, "  if (msg.mode == \"AUTO.MISSION\") {\n    nav_state_ = NavigationState::mission;\n  } else if (msg.mode == \"AUTO.TAKEOFF\") {\n    nav_state_ = NavigationState::auto_takeoff;\n  } else if (msg.mode == \"AUTO.LAND\") {\n    nav_state_ = NavigationState::auto_land;\n  } else if (msg.mode == \"AUTO.RTL\") {\n    nav_state_ = NavigationState::auto_rtl;\n  } else if (msg.mode == \"AUTO.RTGS\") {\n    nav_state_ = NavigationState::auto_rtgs;\n  } else if (msg.mode == \"AUTO.LOITER\") {\n    nav_state_ = NavigationState::auto_loiter;\n  } else if (msg.mode == \"OFFBOARD\") {\n    nav_state_ = NavigationState::offboard;\n  } else {\n    nav_state_ = NavigationState::none;\n  }",
      "  static const std::pair<const char*, NavigationState> modes[] = {\n      {\"OFFBOARD\", NavigationState::offboard},         {\"AUTO.MISSION\", NavigationState::mission},\n      {\"AUTO.TAKEOFF\", NavigationState::auto_takeoff}, {\"AUTO.LAND\", NavigationState::auto_land},\n      {\"AUTO.RTL\", NavigationState::auto_rtl},         {\"AUTO.RTGS\", NavigationState::auto_rtgs},\n      {\"AUTO.LOITER\", NavigationState::auto_loiter}};\n  NavigationState state = NavigationState::none;\n  for (const auto& mode : modes) {\n    if (msg.mode == mode.first) state = mode.second;\n  }\n  nav_state_ = state;"),
 (LN, "  last_position_ = newest_position_;\n  newest_position_ = toEigen(msg.pose.position);\n  newest_orientation_ = toEigen(msg.pose.orientation);\n", "  newest_orientation_ = toEigen(msg.pose.orientation);\n  last_position_ = newest_position_;\n  newest_position_ = toEigen(msg.pose.position);\n"),
 (LN, "  if (accept_goal_input_topic_ && msg.markers.size() > 0) {\n    prev_goal_position_ = goal_position_;\n    goal_position_ = toEigen(msg.markers[0].pose.position);\n    new_goal_ = true;\n  }",
      "  if (!accept_goal_input_topic_ || msg.markers.empty()) return;\n  new_goal_ = true;\n  prev_goal_position_ = goal_position_;\n  goal_position_ = toEigen(msg.markers.front().pose.position);"),
 (LN, "  // Check if all information was received\n  ros::Time now = ros::Time::now();\n  ros::Duration since_last_cloud = now - last_wp_time_;\n  ros::Duration since_start = now - start_time_;\n\n  checkFailsafe(since_last_cloud, since_start, hover_);\n",
      "  const ros::Time now = ros::Time::now();\n  checkFailsafe(now - last_wp_time_, now - start_time_, hover_);\n"),
 (LN, "  mavros_pos_setpoint_pub_.publish(toPoseStamped(result.position_wp, result.orientation_wp));\n\n  mavros_obstacle_free_path_pub_.publish(obst_free_path);", "  mavros_obstacle_free_path_pub_.publish(obst_free_path);\n  mavros_pos_setpoint_pub_.publish(toPoseStamped(result.position_wp, result.orientation_wp));"),
 (LN, "    while ((cameras_.size() == 0 || cameras_.size() != numTransformedClouds()) && !should_exit_) {\n      std::unique_lock<std::mutex> lock(transformed_cloud_mutex_);\n      transformed_cloud_cv_.wait_for(lock, std::chrono::milliseconds(5000), [this] {\n        return should_exit_ || (cameras_.size() != 0 && cameras_.size() == numTransformedClouds());\n      });\n    }",
      "    {\n      std::unique_lock<std::mutex> lock(transformed_cloud_mutex_);\n      const auto ready = [this] { return should_exit_ || (!cameras_.empty() && cameras_.size() == numTransformedClouds()); };\n      while (!ready()) transformed_cloud_cv_.wait_for(lock, std::chrono::milliseconds(1000));\n    }"),
 (LN, "          pcl_ros::transformPointCloud(maxima, maxima, fcu_transform);\n          updateFOVFromMaxima(cameras_[index].fov_fcu_frame_, maxima);\n\n          // transform cloud to local_origin frame\n          pcl_ros::transformPointCloud(cameras_[index].untransformed_cloud_, cameras_[index].transformed_cloud_,\n                                       cloud_transform);\n",
      "          pcl_ros::transformPointCloud(cameras_[index].untransformed_cloud_, cameras_[index].transformed_cloud_,\n                                       cloud_transform);\n          pcl_ros::transformPointCloud(maxima, maxima, fcu_transform);\n          updateFOVFromMaxima(cameras_[index].fov_fcu_frame_, maxima);\n"),
 (LN, "    ros::Duration loop_time = last_wp_time_ - start_time;\n    ros::Duration required_delay = ros::Duration(spin_dt_) - loop_time;\n    if (required_delay > ros::Duration(0)) {\n      required_delay.sleep();\n    }",
      "    const ros::Duration rest = start_time + ros::Duration(spin_dt_) - last_wp_time_;\n    if (rest > ros::Duration(0)) rest.sleep();"),
 (LN, "    std::this_thread::sleep_for(std::chrono::milliseconds(5));", "    std::this_thread::sleep_for(std::chrono::milliseconds(4));"),
 (LN, "  if (cameras_[index].received_ && timeSinceLast() < ros::Duration(0.3)) {\n    return;\n  }\n", "  const bool busy = cameras_[index].received_;\n  if (busy && timeSinceLast() < ros::Duration(0.3)) return;\n"),
 (GN, "  if (!waypoints_.empty()) {\n    // Set the first goal in waypoints_ as the new goal\n    GoalCell new_goal = waypoints_.front();\n    waypoints_.erase(waypoints_.begin());\n    setNewGoal(new_goal);\n  } else if", "  if (waypoints_.size() > 0) {\n    const GoalCell next = waypoints_[0];\n    waypoints_.erase(waypoints_.begin());\n    setNewGoal(next);\n  } else if"),
 (GN, "  for (int i = 2; i < poses.size(); ++i) {\n    path_.push_back(poses[i]);\n  }", "  path_.assign(poses.begin() + 2, poses.end());"),
 (GN, "  publishGoal(goal);\n}\n\n// Sets the next", "  const GoalCell copy = goal;\n  publishGoal(copy);\n}\n\n// Sets the next"),
 (GN, "    if (yaw_diff < max_yaw_diff || yaw_diff > 2 * M_PI - max_yaw_diff) {", "    if (!(yaw_diff >= max_yaw_diff && yaw_diff <= 2 * M_PI - max_yaw_diff)) {"),
 (GN, "  double len = vec.length();\n  double new_len = len < 1.0 ? len : std::min(speed_, len);\n  if (len > 0.0) {\n    vec *= new_len / len;\n  }\n", "  const double len = vec.length();\n  if (len > 0.0) {\n    const double new_len = len < 1.0 ? len : std::min(speed_, len);\n    vec = vec / len * new_len;\n  }\n"),
 (GN, "    global_planner_.goal_pos_.tpl_ = Cell(goal).tpl_;\n    for (size_t i = 0; i < waypoints_.size(); ++i) {\n      waypoints_[i].tpl_ = Cell(waypoints[i]).tpl_;\n    }\n    global_planner_.resetCells();", "    global_planner_.resetCells();\n    for (size_t i = waypoints_.size(); i-- > 0;) waypoints_[i].tpl_ = Cell(waypoints[i]).tpl_;\n    global_planner_.goal_pos_.tpl_ = Cell(goal).tpl_;"),
 (GN, "  // Publish setpoint for vizualization\n  current_waypoint_publisher_.publish(setpoint);\n\n  // Publish setpoint to Mavros\n  mavros_waypoint_publisher_.publish(setpoint);\n", "  mavros_waypoint_publisher_.publish(setpoint);\n  current_waypoint_publisher_.publish(setpoint);\n"),
 (SN, "  ros::Duration since_last_algo = now - last_algo_time_;\n  ros::Duration since_start = now - start_time_;\n  checkFailsafe(since_last_algo, since_start);\n\n  safe_landing_planner_->setPose(avoidance::toEigen(current_pose_.pose.position),\n                                 avoidance::toEigen(current_pose_.pose.orientation));\n",
      "  safe_landing_planner_->setPose(avoidance::toEigen(current_pose_.pose.position),\n                                 avoidance::toEigen(current_pose_.pose.orientation));\n  checkFailsafe(now - last_algo_time_, now - start_time_);\n"),
 (SN, "  if (since_last_algo > timeout_termination && since_start > timeout_termination) {\n    status_msg_.state = static_cast<int>(avoidance::MAV_STATE::MAV_STATE_FLIGHT_TERMINATION);\n  } else if (since_last_algo > timeout_critical && since_start > timeout_critical) {\n    status_msg_.state = static_cast<int>(avoidance::MAV_STATE::MAV_STATE_CRITICAL);\n  }",
      "  const auto both = [&](const ros::Duration& limit) { return since_last_algo > limit && since_start > limit; };\n  if (both(timeout_termination)) {\n    status_msg_.state = static_cast<int>(avoidance::MAV_STATE::MAV_STATE_FLIGHT_TERMINATION);\n    return;\n  }\n  if (both(timeout_critical)) status_msg_.state = static_cast<int>(avoidance::MAV_STATE::MAV_STATE_CRITICAL);"),
 (SN, "        cloud_msg_lock.reset();\n        ros::Duration(0.001).sleep();", "        cloud_msg_lock.reset();\n        ros::Duration(0.0005).sleep();"),
 (WN, "  landingAreaVisualization();\n  goalVisualization();\n  grid_received_ = false;", "  goalVisualization();\n  landingAreaVisualization();\n  grid_received_ = false;"),
 (WN, "  if (msg.mode == \"AUTO.LAND\") {\n    waypointGenerator_.is_land_waypoint_ = true;\n  } else if (msg.mode == \"AUTO.MISSION\") {\n    // is_land_waypoint_ is set trought the mission item type\n  } else {\n    waypointGenerator_.is_land_waypoint_ = false;\n    waypointGenerator_.trigger_reset_ = true;\n  }\n\n  if (msg.armed == false) {\n    waypointGenerator_.is_land_waypoint_ = false;\n    waypointGenerator_.trigger_reset_ = true;\n  }",
      "  const bool landing = msg.mode == \"AUTO.LAND\";\n  const bool mission = msg.mode == \"AUTO.MISSION\";\n  if (!msg.armed || !(landing || mission)) {\n    waypointGenerator_.is_land_waypoint_ = false;\n    waypointGenerator_.trigger_reset_ = true;\n  } else if (landing) {\n    waypointGenerator_.is_land_waypoint_ = true;\n  }"),
 (AN, "  parse_param_f(\"MPC_ACC_DOWN_MAX\", px4_.param_mpc_acc_down_max) ||\n  parse_param_f(\"MPC_ACC_HOR\", px4_.param_mpc_acc_hor) ||\n", "  parse_param_f(\"MPC_ACC_HOR\", px4_.param_mpc_acc_hor) ||\n  parse_param_f(\"MPC_ACC_DOWN_MAX\", px4_.param_mpc_acc_down_max) ||\n"),
 (AN, "      request_param(\"MPC_ACC_HOR\", px4_.param_mpc_acc_hor);\n      request_param(\"MPC_ACC_DOWN_MAX\", px4_.param_mpc_acc_down_max);\n", "      request_param(\"MPC_ACC_DOWN_MAX\", px4_.param_mpc_acc_down_max);\n      request_param(\"MPC_ACC_HOR\", px4_.param_mpc_acc_hor);\n"),
 (AN, "  ModelParameters px4 = px4_;\n  return px4;", "  return px4_;"),
 (LP, "    int j = (i + GRID_LENGTH_Z / 2) % GRID_LENGTH_Z;", "    int j = i < GRID_LENGTH_Z / 2 ? i + GRID_LENGTH_Z / 2 : i - GRID_LENGTH_Z / 2;"),
 (LP, "      msg.ranges.push_back(dist > min_sensor_range_ ? dist : max_sensor_range_ + 0.01f);\n    } else {\n      msg.ranges.push_back(NAN);\n    }", "      const bool obstacle = dist > min_sensor_range_;\n      msg.ranges.push_back(obstacle ? dist : max_sensor_range_ + 0.01f);\n    } else\n      msg.ranges.push_back(NAN);"),
]
E = [
 (ST, "  while (!pq.empty() && num_iter < max_iterations) {\n    PointerNodeDistancePair u_node_dist = pq.top();\n    pq.pop();\n    NodePtr u = u_node_dist.first;\n    if (seen_nodes.find(u) != seen_nodes.end()) {\n      continue;\n    }\n    seen_nodes.insert(u);\n    visitor.popNode(u);\n",
      "  while (!pq.empty() && num_iter < max_iterations) {\n    const NodePtr u = pq.top().first;\n    pq.pop();\n    if (!seen_nodes.insert(u).second) continue;\n    visitor.popNode(u);\n"),
 (ST, "  path.push_back(s->cell_);\n  path.push_back(s->parent_);\n  std::reverse(path.begin(), path.end());\n\n  // printPathStats(this", "  std::reverse(path.begin(), path.end());\n  path.insert(path.begin(), {s->parent_, s->cell_});\n\n  // printPathStats(this"),
 (ST, "  if (found_up_path && found_vert_path && found_down_path) {\n    path = up_path;\n    for (const Cell& c : vert_path) {\n      path.push_back(c);\n    }\n    for (const Cell& c : down_path) {\n      path.push_back(c);\n    }\n    return true;\n  }\n  return false;",
      "  if (!(found_up_path && found_vert_path && found_down_path)) return false;\n  path = up_path;\n  path.insert(path.end(), vert_path.begin(), vert_path.end());\n  path.insert(path.end(), down_path.begin(), down_path.end());\n  return true;"),
 (ST, "  bool found_up_path = findPathOld(global_planner, up_path, s, above_s, s, true);\n  std::vector<Cell> down_path;\n  bool found_down_path = findPathOld(global_planner, down_path, above_t, t, above_t, true);\n  std::vector<Cell> vert_path;\n  bool found_vert_path = findPathOld(global_planner, vert_path, above_s, above_t, above_s, false);\n",
      "  std::vector<Cell> vert_path;\n  bool found_vert_path = findPathOld(global_planner, vert_path, above_s, above_t, above_s, false);\n  bool found_up_path = findPathOld(global_planner, up_path, s, above_s, s, true);\n  std::vector<Cell> down_path;\n  bool found_down_path = findPathOld(global_planner, down_path, above_t, t, above_t, true);\n"),
 (GP, "  for (int i = 2; i < path.size(); ++i) {\n    Node node(path[i], path[i - 1]);\n    for (const Cell& cell : node.getCells()) {\n      path_cells_.insert(cell);\n    }\n  }", "  for (size_t i = 1; i + 1 < path.size(); ++i) {\n    const std::unordered_set<Cell> cells = Node(path[i + 1], path[i]).getCells();\n    path_cells_.insert(cells.begin(), cells.end());\n  }"),
 (GP, "  for (const Cell& neighbor : cell.getDiagonalNeighbors()) {\n    if (isOccupied(neighbor)) {\n      return true;\n    }\n  }\n  return false;", "  const std::vector<Cell> around = cell.getDiagonalNeighbors();\n  return std::any_of(around.begin(), around.end(), [this](const Cell& c) { return isOccupied(c); });"),
 (GP, "  return node.cell_.zPos() < max_altitude_ && getRisk(node) < max_cell_risk_;", "  if (!(node.cell_.zPos() < max_altitude_)) return false;\n  return getRisk(node) < max_cell_risk_;"),
 (GP, "  double cost = (diff > 0) ? (up_cost_ * std::abs(diff)) : (down_cost_ * std::abs(diff));\n  return cost;", "  return diff > 0 ? up_cost_ * diff : -down_cost_ * diff;"),
 (GP, "  double turn = u.getRotation(v);\n  return turn * turn;  // Squaring makes large turns more costly", "  return std::pow(u.getRotation(v), 2);"),
 (GP, "  int altitude_change = (u.cell_.zIndex() == goal.zIndex()) ? 0 : 1;\n", "  const int altitude_change = u.cell_.zIndex() != goal.zIndex();\n"),
]
SETS = {"D": D, "E": E}
