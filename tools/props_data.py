TRUST = "Randomised exploration, no proof. Trusts the in-process stand-ins for ROS/PCL/tf/octomap/mavros in /verif/rosmock and the harness's own double-precision reference model."
NOROS = "Randomised exploration, no proof. The code runs without ROS; trusts the harness's own reference model."

prop("C01", "Angle, bearing and coordinate conversions agree with geometry",
     "Every conversion between Cartesian points, polar points (flight-controller and histogram conventions), histogram bins, wrapped angles, quaternions, yaw/pitch and NED/ENU or pose/twist messages yields the geometrically correct value in the documented convention and range, and converting there and back returns the original. The yaw rate commanded between two headings always turns the short way round.",
     "inputs", "All finite points, directions on the whole sphere including poles and the +-180 degree seam, all angles however many turns away, all bin indices and resolutions.",
     "The tests check a handful of axis-aligned points; conventions break at seams, poles and with signs the samples do not have.",
     "avoidance/src/common.cpp avoidance/include/avoidance/common.h",
     [("conversion functions", "avoidance/src/common.cpp: polarHistogramToCartesian, polarFCUToCartesian, cartesianToPolarHistogram, cartesianToPolarFCU, polarToHistogramIndex, histogramIndexToPolar, wrapPolar"),
      ("attitude and message conversions", "avoidance/src/common.cpp: getYawFromQuaternion, getPitchFromQuaternion, nextYaw, getAngularVelocity, toNED/toENU, createPoseMsg")],
     ["return values"], "differential runtime oracle in double precision over random inputs, ASan/UBSan, twin runs with different heap fill", TRUST)

prop("C02", "Field-of-view predicates decide membership and edges correctly",
     "A direction is reported inside a camera's field of view exactly when its azimuth and elevation lie within the camera's horizontal and vertical opening angles around its pointing direction, whichever way the camera looks (also across +-180 degrees) and for any number of cameras. The reported camera, nearest-edge membership, the speed scale with distance from the field of view (1 inside, falling to 0) and the set of histogram columns seen agree with that.",
     "inputs configurations", "All pointing directions, opening angles, camera counts and query directions except those within rounding of a boundary.",
     "Tests use two or three forward-facing cameras; the property is about every orientation and about the wrap-around.",
     "avoidance/src/common.cpp avoidance/include/avoidance/common.h",
     [("FOV predicates", "avoidance/src/common.cpp: pointInsideFOV, isOnEdgeOfFOV, isInWhichFOV, scaleToFOV, histogramIndexYawInsideFOV")],
     ["return values"], "differential runtime oracle (model on the circle, tri-state at boundaries), ASan/UBSan", TRUST)

prop("C03", "Cloud cleaning keeps every valid point; the estimated FOV covers them",
     "Cleaning a sensor cloud removes exactly the points with a NaN coordinate, keeps all others, and yields the extreme points of what it kept. The field of view estimated from a cleaned cloud is a valid field of view that never shrinks below what was already seen and grows to include the directions of the new extreme points, for every camera orientation.",
     "inputs histories", "All clouds (empty, all-NaN, infinite values, any layout) and sequences of clouds from one camera in any orientation.",
     "Tests use one synthetic forward-looking cloud.",
     "avoidance/src/common.cpp",
     [("cleaning and extremes", "avoidance/src/common.cpp: removeNaNAndGetMaxima"), ("estimate", "avoidance/src/common.cpp: updateFOVFromMaxima")],
     ["returned cloud", "returned extremes", "FOV values"], "model-based runtime monitor over random clouds, ASan/UBSan", TRUST)

prop("C04", "Trajectory messages carry exactly the requested setpoint",
     "The trajectory message built from a waypoint carries the requested position, velocity, yaw and yaw rate in its first point, marks that point and only that point valid, and leaves every field that was not requested explicitly unset (NaN). The Bezier variant carries all five requested control points and yaws (given in NED, sent in ENU), marks all five valid, and gives the requested duration as the time horizon of the last.",
     "inputs", "All setpoints, including ones with NaN components and any yaw.",
     "Tests read back one example; nothing checks the unused points or fields.",
     "avoidance/src/common.cpp",
     [("message construction", "avoidance/src/common.cpp: transformToTrajectory, transformToBezier, fillUnusedTrajectoryPoint, fillUnusedTrajectorySetpoints")],
     ["mavros_msgs/Trajectory fields"], "field-by-field runtime oracle over random setpoints, ASan/UBSan", TRUST)

prop("C05", "The polar histogram is a cyclic array that loses nothing",
     "A polar histogram behaves as an array of distances, cyclic in both indices: reading any integer index, however far outside and of either sign, returns the value last written to the corresponding cell, zero if never written. Halving the resolution averages and doubling it replicates the cells, each only from the one resolution it is defined for and otherwise refused with an error; it is empty exactly when no cell holds a positive distance; copies are independent.",
     "inputs histories", "All integer indices, resolutions and operation histories.",
     "Tests read a few wrapped indices and resample one filled histogram.",
     "avoidance/src/histogram.cpp avoidance/include/avoidance/histogram.h",
     [("wrapping and storage", "avoidance/src/histogram.cpp: wrapIndex, get_dist, set_dist"), ("resampling", "avoidance/src/histogram.cpp: upsample, downsample"), ("emptiness", "avoidance/src/histogram.cpp: isEmpty, setZero")],
     ["get_dist", "isEmpty", "exceptions"], "model-based runtime monitor over random histories, ASan/UBSan", NOROS)

prop("C06", "Obstacle memory: nothing seen is lost, nothing stale or absent is kept",
     "After every processed set of camera clouds the planner's cloud contains every new measurement within sensor range from a direction cell that collected the required number of points, and every remembered point that is in range, younger than the age limit, outside all fields of view and not covered by newer measurements, with its age advanced by the elapsed time. It contains nothing else: in particular no point outside the range, no invalid point, no stale point and nothing a camera now looks through.",
     "inputs histories configurations", "All flights (positions, attitudes, camera rigs), cloud sequences including NaN/Inf points and parameter values; points within rounding of a cell, range or view boundary are not judged.",
     "Tests process two or three hand-made clouds; the guarantee is about what happens to any point over any flight.",
     "local_planner/src/nodes/planner_functions.cpp local_planner/src/nodes/local_planner.cpp",
     [("filter and memory", "local_planner/src/nodes/planner_functions.cpp: processPointcloud"), ("elapsed time and inputs", "local_planner/src/nodes/local_planner.cpp: runPlanner")],
     ["processed cloud after every step"], "model-based runtime monitor (ledger of every measurement) over random flights, ASan/UBSan", TRUST)

prop("C07", "Histogram, obstacle scan and image report the distances that were measured",
     "The polar histogram built from a cloud holds in every bin the average distance of the points in that bin and zero elsewhere; the scan sent to the flight controller reports in every direction the closest obstacle around the horizon, the maximum range plus a centimetre where the direction is seen and free, and NaN where no camera looks; the logged image shows the histogram. Nothing of an earlier cloud remains in them.",
     "inputs histories configurations", "All clouds, poses and camera rigs; sequences of planning iterations.",
     "Tests place single obstacles on axes; the property covers every bin and successive iterations.",
     "local_planner/src/nodes/planner_functions.cpp local_planner/src/nodes/local_planner.cpp",
     [("histogram", "local_planner/src/nodes/planner_functions.cpp: generateNewHistogram, compressHistogramElevation"), ("scan and image", "local_planner/src/nodes/local_planner.cpp: updateObstacleDistanceMsg, generateHistogramImage, create2DObstacleRepresentation")],
     ["Histogram", "sensor_msgs/LaserScan", "image data"], "differential runtime oracle over random clouds and iterations, ASan/UBSan, twin runs", TRUST)

prop("C08", "Direction costs match the documented model; candidates are the cheapest",
     "The cost of every direction equals the documented sum of yaw, pitch, velocity and obstacle terms; the cost matrix interpolates the sampled directions and spreads obstacle cost by the smoothing margin continuously over the azimuth seam and the poles. The candidates selected are exactly the requested number of cheapest directions, cheapest first, without duplicates; a closer obstacle never makes a direction cheaper, and in free space the cheapest direction is the goal's.",
     "inputs configurations", "All goals, positions, velocities, histograms and parameter values in their documented ranges (including zero candidates).",
     "Tests compare a few directions relative to each other.",
     "local_planner/src/nodes/planner_functions.cpp",
     [("cost", "local_planner/src/nodes/planner_functions.cpp: costFunction, getCostMatrix"), ("smoothing", "local_planner/src/nodes/planner_functions.cpp: smoothPolarMatrix, padPolarMatrix, getConicKernel"), ("candidates", "local_planner/src/nodes/planner_functions.cpp: getBestCandidatesFromCostMatrix")],
     ["cost matrix", "candidate list", "cost image"], "differential runtime oracle in double precision, ASan/UBSan, twin runs", TRUST)

prop("C14", "State machines follow the documented transition diagrams",
     "From every state and for every transition each planner's state machine goes to exactly the state its committed diagram shows; an undocumented transition keeps the state or goes to the diagram's error state as the table semantics say, and every machine starts in the documented state. The engine runs the current state once per iteration, asks for the next state only when the state did not ask to repeat, and does not swallow errors.",
     "inputs histories programs", "All states and transitions of the three machines; random machines and iteration histories for the engine.",
     "Tests compare rendered diagrams of the source text, not what the machine does when run.",
     "avoidance/include/avoidance/usm.h local_planner/src/nodes/waypoint_generator.cpp safe_landing_planner/src/nodes/waypoint_generator.cpp",
     [("engine and table macros", "avoidance/include/avoidance/usm.h: StateMachine::iterateOnce, USM_TABLE, USM_STATE, USM_MAP"), ("tables", "chooseNextState in local_planner and safe_landing_planner waypoint_generator.cpp")],
     ["state after each iteration"], "trace-specification monitor over exhaustive tables and random machines, ASan/UBSan", TRUST)

prop("C15", "Simulated trajectories are physical, within limits, and reach the velocity",
     "A simulated trajectory has the states its duration and step ask for, is finite and repeatable, consecutive states are joined by a constant jerk, and jerk and acceleration never exceed their limits; from a steady start within limits, horizontal and vertical speed stay within theirs. Given enough time it settles at the velocity asked for: along the goal direction at the speed the limits allow.",
     "inputs configurations", "All limits, start states within limits, goal directions (including zero), durations and steps short against the controller's time constant.",
     "Tests check a few goals from rest with default limits.",
     "local_planner/src/utils/trajectory_simulator.cpp local_planner/include/local_planner/trajectory_simulator.h",
     [("simulation", "local_planner/src/utils/trajectory_simulator.cpp: generate_trajectory, simulate_step_constant_jerk, jerk_for_velocity_setpoint")],
     ["returned states"], "physics-invariant runtime monitor over random limits and goals, ASan/UBSan", NOROS)

prop("C16", "The transform buffer answers with the transform of the asked time",
     "A lookup succeeds exactly when the asked time lies within the stored, sufficiently recent transforms of that frame pair, and returns the stored transform at that time or the interpolation of the two around it, stamped and named as asked. Insertion accepts only newer transforms of each pair and drops what is older than the buffer's span; concurrent readers and writers never see torn data.",
     "inputs histories schedules", "All histories of inserts (including out of order and repeated stamps) and lookups for several frame pairs; all interleavings of one writer per pair and several readers.",
     "Tests insert two transforms from one thread.",
     "avoidance/include/avoidance/transform_buffer.h avoidance/src/transform_buffer.cpp",
     [("buffer", "avoidance/src/transform_buffer.cpp: insertTransform, getTransform, interpolateTransform"), ("locking", "avoidance/include/avoidance/transform_buffer.h: mutex")],
     ["return values", "tf transform"], "model-based runtime monitor over random histories; ThreadSanitizer stress with an interpolation oracle", TRUST)

prop("C17", "Health reported to the flight controller follows the timeout ladder",
     "With no processed cloud for longer than the termination timeout, and as long after start-up, the companion reports flight termination; with none for longer than the critical timeout, after the start-up timeout, it reports critical and asks for a hover; otherwise it reports active unless a hover is already being asked for. Until then it reports booting, and exactly one status message, with the current state and time, goes out per status period.",
     "inputs histories fault_sequences", "All durations since the last cloud and since start to the nanosecond around each limit, all previous states, sequences of outages.",
     "Tests cover four durations.",
     "avoidance/src/avoidance_node.cpp avoidance/include/avoidance/avoidance_node.h",
     [("ladder", "avoidance/src/avoidance_node.cpp: checkFailsafe"), ("heartbeat", "avoidance/src/avoidance_node.cpp: statusLoopCallback, publishSystemStatus")],
     ["mavros/companion_process/status", "getSystemStatus", "hover flag"], "trace-specification monitor over random fault sequences on a simulated clock, ASan/UBSan", TRUST)

prop("C18", "Flight-controller parameters and mission speed are mirrored faithfully",
     "After any sequence of parameter updates, polls and refusals, the locally held flight-controller parameters equal the last value the flight controller sent for each known name, unknown names change nothing, and missing parameters are asked for again until all are known. The mission speed is the one of the last ground-speed command at or before the current mission item; access from several threads is free of data races and shutting the node down terminates its thread.",
     "inputs histories schedules fault_sequences", "All update sequences, service failures and mission lists; all interleavings of callbacks, poller and getters.",
     "Tests cover single updates, one mission and no concurrency.",
     "avoidance/src/avoidance_node.cpp avoidance/include/avoidance/avoidance_node.h",
     [("mirror", "avoidance/src/avoidance_node.cpp: px4ParamsCallback, checkPx4Parameters"), ("mission speed", "avoidance/src/avoidance_node.cpp: missionCallback"), ("locking", "avoidance/src/avoidance_node.cpp: param_cb_mutex_")],
     ["getPX4Parameters", "getMissionItemSpeed", "service requests"], "model-based runtime monitor, fault injection on the parameter service, ThreadSanitizer stress", TRUST)

prop("C19", "The landing grid container reports exactly what was stored in it",
     "Every quantity stored in a landing-grid cell reads back unchanged from that cell and no other, resetting returns all cells to empty, resizing and limits describe the documented area around the vehicle, and a point inside those limits is inside exactly when its coordinates are. Combining with the previous grid yields per cell the documented blend, leaves the source untouched, and copies are independent.",
     "inputs histories configurations", "All grid sizes, cell sizes, positions and operation histories.",
     "Tests use one size and a few cells.",
     "safe_landing_planner/include/safe_landing_planner/grid.hpp",
     [("container", "safe_landing_planner/include/safe_landing_planner/grid.hpp: Grid")],
     ["getters after every operation"], "model-based runtime monitor over random histories, ASan/UBSan, twin runs", NOROS)

prop("C09", "The look-ahead tree is a valid best-first search; the path follows it",
     "Every planning iteration builds a tree rooted at the vehicle from the planner's current obstacle cloud, state and goal: each expansion takes the cheapest open node within range, its children lie exactly one node distance away along the cheapest candidate directions, none closer than 0.2 m to another node, each with the documented accumulated cost, and never more than configured. The path is the chain of parents from the first deepest open node back to the vehicle, and nothing of an earlier tree remains.",
     "inputs histories configurations", "All clouds, poses, velocities, goals, parameters; sequences of planning iterations.",
     "Tests build three trees and look at a few coordinates; nothing relates the tree to the search rule.",
     "local_planner/src/nodes/star_planner.cpp local_planner/src/nodes/local_planner.cpp local_planner/src/nodes/tree_node.cpp",
     [("search", "local_planner/src/nodes/star_planner.cpp: buildLookAheadTree, treeHeuristicFunction"), ("its inputs", "local_planner/src/nodes/local_planner.cpp: determineStrategy, runPlanner"), ("nodes", "local_planner/src/nodes/tree_node.cpp: TreeNode")],
     ["tree_", "closed_set_", "path_node_positions"], "offline checker replaying the recorded search step by step, ASan/UBSan, twin runs", TRUST)

prop("C10", "The setpoint taken from a path is the point reached by travelling along it",
     "Following a planned path, the setpoint is the point reached after travelling at cruise speed along the path's segments, from its second node outwards, for the time since it was planned. It moves continuously, is reported unavailable exactly when the path is used up or has fewer than two nodes, and a used-up path never becomes available again; a path of a single segment yields its end.",
     "inputs histories", "All paths (any length and segment lengths), speeds (including zero) and times.",
     "Tests follow one straight three-node path.",
     "local_planner/src/nodes/planner_functions.cpp local_planner/src/nodes/waypoint_generator.cpp",
     [("interpolation", "local_planner/src/nodes/planner_functions.cpp: getSetpointFromPath")],
     ["setpoint", "availability"], "differential runtime oracle in double precision plus continuity monitor over time, ASan/UBSan", TRUST)

prop("C11", "The cruise speed never outruns what the sensor can see",
     "The cruise speed handed on with every plan is the smaller of the speed told (the mission item's if there is one, else the flight controller's cruise speed) and the speed from which the vehicle, at its maximum acceleration and jerk, can stop within the sensor range. It is never negative or non-finite, and follows every change of those parameters.",
     "inputs configurations", "All positive accelerations, jerks, speeds and sensor ranges, and sequences of changes.",
     "No test looks at the cruise speed's relation to the braking distance.",
     "local_planner/src/nodes/local_planner.cpp",
     [("cruise velocity", "local_planner/src/nodes/local_planner.cpp: getAvoidanceOutput, dynamicReconfigureSetParams")],
     ["avoidanceOutput.cruise_velocity"], "invariant runtime monitor with a braking-distance oracle, ASan/UBSan", TRUST)

prop("C12", "Setpoints sent are finite, smooth, within speed and never beyond the goal",
     "Whatever the flight does, every position setpoint sent is finite and level, is the smoothed version of the target point whose distance follows the low-pass filtered cruise speed (slowed outside the field of view, never beyond the goal), and its heading turns smoothly the short way towards the target, is kept at the goal, and starts from the vehicle's own. A vehicle that follows the setpoints in free space turns towards its goal, reaches it and stays there.",
     "inputs histories", "All flights (states, modes, goals, headings, parameter changes) with update periods short against the smoothing constants.",
     "Tests look at single calls with one geometry; smoothness and arrival are properties of whole flights.",
     "local_planner/src/nodes/waypoint_generator.cpp",
     [("speed", "local_planner/src/nodes/waypoint_generator.cpp: adaptSpeed"), ("smoothing", "local_planner/src/nodes/waypoint_generator.cpp: smoothWaypoint, nextSmoothYaw, getPathMsg"), ("initialisation", "local_planner/src/nodes/waypoint_generator.cpp: updateState, calculateWaypoint")],
     ["waypointResult fields"], "model-based runtime monitor over random flights and closed-loop arrival monitor, ASan/UBSan, twin runs", TRUST)

prop("C13", "Flight modes: altitude first, path, direct, and hold when told",
     "In every call the waypoint generator is in the mode the documented rules give for the history so far and heads for that mode's target: along the planned path, straight to the goal when there is none, vertically when taking off, landing, returning or below the offboard goal, and otherwise holding. Told to stay, it soon holds one fixed position, from whatever mode, and keeps it until released, even during a landing.",
     "inputs histories", "All histories of navigation states, mission items, stay requests, goals and plans.",
     "Tests drive each mode once from a fresh object.",
     "local_planner/src/nodes/waypoint_generator.cpp",
     [("modes", "local_planner/src/nodes/waypoint_generator.cpp: chooseNextState, runTryPath, runAltitudeChange, runLoiter, runDirect, isAltitudeChange")],
     ["waypoint_type", "goto_position", "linear_velocity_wp"], "trace-specification monitor over random flights, ASan/UBSan, twin runs", TRUST)

prop("C20", "The landing grid holds the statistics of the points and judges each cell by them",
     "After every cloud each grid cell around the vehicle holds the number of points that fell into it and their mean height and variance, low-pass filtered with the previous grid's; points outside, or not numbers, count nowhere, and a change of grid size starts afresh. A cell is landable exactly when it has enough points, is flat enough and, if smoothing is on, more than the required number of cells around it (cells outside count as unlandable, at height zero) are landable and at most the allowed number differ in height. Recorded grids give the same.",
     "inputs histories configurations", "All clouds, poses, parameter values and sequences of them; points within rounding of a cell border and statistics within rounding of a threshold are not judged for that cell, but may never corrupt memory.",
     "Tests bin a few hand-placed points into one grid size.",
     "safe_landing_planner/src/nodes/safe_landing_planner.cpp safe_landing_planner/include/safe_landing_planner/grid.hpp",
     [("binning and filter", "safe_landing_planner/src/nodes/safe_landing_planner.cpp: processPointcloud, processRawGrid, computeOnlineMeanVariance"), ("landability", "safe_landing_planner/src/nodes/safe_landing_planner.cpp: isLandingPossible"), ("reconfiguration", "safe_landing_planner/src/nodes/safe_landing_planner.cpp: dynamicReconfigureSetParams, runSafeLandingPlanner")],
     ["getGrid", "getPreviousGrid", "getPositionIndex"], "model-based runtime monitor in double precision with error bounds over random terrain and histories, ASan/UBSan, twin runs", TRUST)

prop("C21", "A landing is decided by what was seen, and only descends onto landable ground",
     "At a landing item the vehicle, once above it, goes to the loiter height above the ground, holds position while twenty grids are averaged, and heads for the nearest patch, searched ring by ring, whose every cell within the landing radius stayed landable; there it descends. If there is none it moves on along the spiral and tries again. Leaving mission or landing mode or disarming starts over. Every setpoint is the one its phase calls for, and is marked valid exactly when it has a horizontal and a vertical component.",
     "inputs histories configurations", "All terrains, grids of any size and cell size, landing radii larger than the grid or of one cell, parameters, mission items, mode changes and resets; flights end where rounding would decide.",
     "Tests drive each phase once on a 40x40 grid.",
     "safe_landing_planner/src/nodes/waypoint_generator.cpp safe_landing_planner/src/nodes/waypoint_generator_node.cpp",
     [("phases", "safe_landing_planner/src/nodes/waypoint_generator.cpp: runGoTo, runAltitudeChange, runLoiter, runEvaluateGrid, runGoToLand, runLand, updateSLPState"), ("messages", "safe_landing_planner/src/nodes/waypoint_generator_node.cpp: trajectoryCallback, stateCallback, gridCallback, publishTrajectorySetpoints, landingAreaVisualization")],
     ["mavros/trajectory/generated", "land_hysteresis"], "trace-specification monitor over random flights plus outcome monitor against the true terrain, ASan/UBSan, twin runs", TRUST)

prop("C22", "The landing planner node publishes its grid intact and reports its health",
     "Every iteration of the landing planner node publishes exactly one grid message, consecutively numbered, whose contents are those the previous iteration computed, cell for cell; it evaluates a cloud that was received, transformed completely into the local frame, never one older than the one before. It reports critical and terminating health by the documented timeouts, also while no data arrives, at least every 0.2 s of activity, and can be stopped at any time. Its threads share no data unguarded.",
     "histories schedules", "All interleavings of clouds, transforms becoming available late, pose updates, reconfiguration and shutdown that the two threads produce under load.",
     "No test runs the node or its worker thread.",
     "safe_landing_planner/src/nodes/safe_landing_planner_node.cpp safe_landing_planner/include/safe_landing_planner/safe_landing_planner_node.hpp",
     [("grid message", "safe_landing_planner/src/nodes/safe_landing_planner_node.cpp: publishSerialGrid"), ("worker", "safe_landing_planner/src/nodes/safe_landing_planner_node.cpp: pointCloudTransformThread, startNode"), ("health", "safe_landing_planner/src/nodes/safe_landing_planner_node.cpp: cmdLoopCallback, checkFailsafe, publishSystemStatus")],
     ["grid_slp", "mavros/companion_process/status"], "online monitors over the running node (message equality, health ladder), ThreadSanitizer, ASan/UBSan", TRUST)

prop("C23", "The global planner's cells, neighbourhoods and edges are geometrically exact",
     "For every cell size, a point belongs to exactly one cell, whose centre is at most half a cell away in each axis, and the centre belongs to the same cell; distances are symmetric and the geometric ones. The ten neighbours, the diagonal neighbours and the neighbourhood of a given radius contain exactly the cells they should, each once. An edge crosses every cell its straight line passes through, ends in the cell it leads to, and never names a cell it does not touch; its length and the number of 45 degree turns to the next edge are the geometric ones. Successors of a search node start where it ends, each once, and a speed node's successors stay within the configured radius. A goal is reached exactly inside its radius.",
     "inputs", "All cells, positions, cell sizes from 0.5 to 2 m, radii and directions; negative indices included.",
     "Tests try a handful of small positive cells with the default cell size.",
     "global_planner/src/library/cell.cpp global_planner/include/global_planner/cell.h global_planner/src/library/node.cpp global_planner/include/global_planner/node.h",
     [("cells", "global_planner/src/library/cell.cpp: Cell, getFlowNeighbors, getNeighbors"), ("edges", "global_planner/src/library/node.cpp: getCells, getRotation, getXYRotation"), ("speed nodes", "global_planner/include/global_planner/node.h: SpeedNode::getNeighbors")],
     ["return values"], "online geometric oracles (supersampled lines, brute-force balls) over random cells and edges, ASan/UBSan", TRUST)

prop("C24", "The global planner's risk, costs and legality follow the map it was given",
     "After every map update, the risk of each cell is that of its map voxel combined with the altitude prior (unexplored and free space weighted by the exploration penalty, space seen occupied in full) plus the configured share of the risk of the cells within the robot's radius; without a map, and below ground, everything is risky. An edge is legal exactly if it stays below the maximum altitude and the risk along it is below the limit; its cost is its length with the up and down costs, its risk times the risk factor and the squared turn times the smoothness factor. Heuristics and the totals of a path are consistent with these. A map message that is no occupancy map changes nothing.",
     "inputs histories", "All maps, parameter settings within their ranges, robot radii and cells, over sequences of map updates.",
     "No test computes a risk from a map; the packages' tests have no map at all.",
     "global_planner/src/library/global_planner.cpp global_planner/include/global_planner/global_planner.h global_planner/include/global_planner/common.h",
     [("risk", "global_planner/src/library/global_planner.cpp: getSingleCellRisk, getRisk, getAltPrior"), ("cost", "global_planner/src/library/global_planner.cpp: getEdgeCost, getEdgeDist, getTurnSmoothness, isLegal, getPathInfo"), ("heuristics", "global_planner/src/library/global_planner.cpp: getHeuristic, riskHeuristic, smoothnessHeuristic, altitudeHeuristic"), ("map", "global_planner/src/library/global_planner.cpp: updateFullOctomap")],
     ["getRisk", "isLegal", "getEdgeCost", "path message with risks"], "online comparison with an independent double-precision model of the map over random worlds and update histories, ASan/UBSan", TRUST)

prop("C25", "A global path leads legally from the vehicle to the goal, or there is none",
     "The path search always ends within its iteration limit. A path it returns starts with the direction and cell it was asked to start from, ends within the goal's planning radius, moves by one allowed step at a time, and consists only of legal edges; with an admissible heuristic it is the cheapest one, and with an overestimating heuristic no dearer than by that factor. If the goal can be reached and the limit suffices it finds a path; to an unreachable or occupied goal, or out of an occupied cell, it returns none, leaves the current path alone and marks the goal blocked. The last-resort path climbs to just below the maximum altitude, crosses there and descends, avoiding risky cells. A search leaves the configured parameters unchanged.",
     "inputs histories", "All maps, starts, goals, node types and parameter settings, over sequences of searches with one planner.",
     "Whether a search result is legal and cheapest can only be decided against another search over the same map; no test does it.",
     "global_planner/include/global_planner/search_tools.h global_planner/src/library/global_planner.cpp global_planner/src/library/node.cpp",
     [("search", "global_planner/include/global_planner/search_tools.h: findSmoothPath, find2DPath, findPathOld"), ("outcome", "global_planner/src/library/global_planner.cpp: getGlobalPath, findPath, setPath, setGoal, stop")],
     ["paths returned", "goal_is_blocked_", "iterations"], "oracle search (Dijkstra over the same successors) and path monitors over random graphs and worlds, watchdog for termination, ASan/UBSan", TRUST)

prop("C26", "Simplifying and smoothing a global path keeps its ends, order and cost bounds",
     "A simplified path is a subsequence of the path with the same start, first direction and end, no vertex is removed at a cost increase beyond the configured margin, no more rounds are done than configured, and the original is untouched. A smoothed path starts and ends where the path does and every other point lies on a curve between the middles of consecutive edges, running through each corner's curve. A path message has one pose per cell, at the cell's centre, heading to the next one, in the planner's frame. Angles wrap into one turn, and probabilities combine to a probability.",
     "inputs", "All paths, including standing still, vertical parts, repeated cells and paths of zero to three cells; all margins and iteration counts.",
     "The tests smooth no path and simplify none.",
     "global_planner/include/global_planner/search_tools.h global_planner/include/global_planner/bezier.h global_planner/include/global_planner/common_ros.h global_planner/src/library/global_planner.cpp global_planner/include/global_planner/common.h",
     [("simplification", "global_planner/include/global_planner/search_tools.h: simplifyPath"), ("smoothing", "global_planner/include/global_planner/bezier.h: smoothPath, threePointBezier"), ("messages", "global_planner/src/library/global_planner.cpp: getPathMsg")],
     ["returned paths", "path messages"], "trace monitors (subsequence, cost bound, distance to curve) over random paths, ASan/UBSan", TRUST)

prop("C27", "The global planner node flies its path to the goal and never loses a goal",
     "In every control cycle the node sends exactly one setpoint, always finite: on the straight line from the vehicle to the current path point, at most the current speed away and never beyond it, with the point's heading; the speed is the default one unless risk-based speed is on and the risk where the vehicle is lies below the threshold. The next path point is taken exactly when the vehicle comes within the current speed of this one; each planning cycle publishes the path found and its simplification, and flies the latter; stopping leads to the current position. A goal given by the operator or the flight controller is announced and kept until it is reached, replaced, or blocked with none left; intermediate goals lie on the path, return to the goal afterwards and are never announced as final. Maps arriving faster than the update rate are skipped, missing maps degrade the reported health, what depth cameras see becomes known space, and reconfiguration keeps all goals in place. A vehicle that follows the setpoints in a known static world never enters an occupied cell nor exceeds the maximum altitude.",
     "inputs histories", "All sequences of poses, velocities, maps (also unusable ones), goals, clicks, parameter changes and time steps; all worlds for the flights.",
     "No test runs the node; a single wrong transition shows only after a particular sequence of goals, plans and poses.",
     "global_planner/src/nodes/global_planner_node.cpp global_planner/include/global_planner/global_planner_node.h global_planner/src/library/global_planner.cpp",
     [("setpoints", "global_planner/src/nodes/global_planner_node.cpp: publishSetpoint, positionCallback, setCurrentPath"), ("goals", "global_planner/src/nodes/global_planner_node.cpp: setNewGoal, popNextGoal, setIntermediateGoal, fcuInputGoalCallback, moveBaseSimpleCallback"), ("maps and cameras", "global_planner/src/nodes/global_planner_node.cpp: octomapFullCallback, depthCameraCallback"), ("planning", "global_planner/src/nodes/global_planner_node.cpp: plannerLoopCallback, publishPath")],
     ["mavros/setpoint_position/local", "mavros/trajectory/generated", "global_temp_path", "smooth_path", "global_goal", "global_temp_goal", "actual_path", "cloud_in", "mavros/companion_process/status"],
     "online monitors with a model of the node over random message histories, closed-loop flights against the ground-truth world, ASan/UBSan", TRUST)

prop("C28", "The local planner node plans with, and flies by, exactly what it was told",
     "The planner runs exactly when every camera has delivered a cloud whose transforms are known, once per set of clouds, and never sleeps through one; it then has every finite point of each cloud at its true place in the local frame, the cameras' fields of view, and the newest position, velocity, armed state, goal, mission speed, flight controller parameters and sent waypoint; the obstacle scan sent is the one it planned with, if collision prevention wants one. Goals come from the operator, a topic when accepted, or the flight controller's mission, and neither a parameter change nor a repeated message moves them unasked. Each command cycle with a position sends one setpoint, computed from the newest plan and state, as a position and as a trajectory, and none while the planner is unhealthy; health follows the configured timeouts from the last plan and the start, also without a position.",
     "histories configurations", "All sequences of clouds (empty, partly invalid, early, repeated, from up to three cameras), transforms becoming available late, poses, goals from all sources, modes, parameters, reconfigurations and gaps.",
     "No test runs the node; its tests cover only planner and waypoint generator in isolation.",
     "local_planner/src/nodes/local_planner_nodelet.cpp local_planner/include/local_planner/local_planner_nodelet.h avoidance/src/avoidance_node.cpp",
     [("clouds and transforms", "local_planner/src/nodes/local_planner_nodelet.cpp: pointCloudCallback, pointCloudTransformThread, threadFunction, updatePlannerInfo"), ("goals", "local_planner/src/nodes/local_planner_nodelet.cpp: clickedGoalCallback, updateGoalCallback, fcuInputGoalCallback, dynamicReconfigureCallback"), ("commands and health", "local_planner/src/nodes/local_planner_nodelet.cpp: cmdLoopCallback, calculateWaypoints, checkFailsafe, publishLaserScan")],
     ["mavros/setpoint_position/local", "mavros/trajectory/generated", "mavros/obstacle/send", "mavros/companion_process/status", "the planner's inputs and outputs"],
     "online monitors comparing the running node with planner and waypoint generator instances fed from the harness's record of what was sent, ASan/UBSan", TRUST)

prop("C29", "The planner nodes' threads race nowhere, never deadlock, and end when told",
     "Under every interleaving of message callbacks, command loop, planner, transformers, parameter changes and shutdown, no two threads of the local planner, global planner or landing nodes touch the same memory without synchronisation, no thread waits for one that waits for it, nobody sleeps through the arrival of what it waits for, no cloud is evaluated twice by the landing planner, setpoints keep going out and poses are taken in while a plan is being made, and destroying the node at any moment ends all its threads within seconds and before what they use is gone.",
     "schedules", "All interleavings that random message storms with random delays around locks and waits produce; all moments of destruction.",
     "Tests are single-threaded.",
     "local_planner/src/nodes/local_planner_nodelet.cpp local_planner/include/local_planner/local_planner_nodelet.h safe_landing_planner/src/nodes/safe_landing_planner_node.cpp safe_landing_planner/src/nodes/waypoint_generator_node.cpp safe_landing_planner/src/nodes/safe_landing_planner_node_main.cpp global_planner/src/nodes/global_planner_node.cpp global_planner/include/global_planner/global_planner_node.h avoidance/src/avoidance_node.cpp avoidance/include/avoidance/avoidance_node.h",
     [("landing nodes", "safe_landing_planner/src/nodes: pointCloudTransformThread, cmdLoopCallback, destructors, main"), ("global planner", "global_planner/src/nodes/global_planner_node.cpp: plannerLoopCallback, cmdLoopCallback, setpoint and message callbacks, ~GlobalPlannerNode"), ("threads", "local_planner/src/nodes/local_planner_nodelet.cpp: startNode, threadFunction, pointCloudTransformThread, transformBufferThread, cmdLoopCallback, ~LocalPlannerNodelet"), ("shared state", "local_planner/include/local_planner/local_planner_nodelet.h")],
     ["memory accesses", "lock order", "planner iterations", "time to unload"], "ThreadSanitizer under message storms (the stand-ins' own locks hidden from it), lost-wakeup and shutdown monitors with delays injected around locks and waits", TRUST)

prop("C30", "Flights with the local planner keep clear of obstacles and reach the goal",
     "A vehicle that follows the setpoints of the local planner, with default tuning, at 2 to 4 m/s, sensing with one or three depth cameras what is in their view, comes no closer than 0.6 m to any pillar, wall or group of pillars on its way, over level ground or without, in offboard or mission mode, wherever the goal lies and whichever way it first looks. When nothing, a single pillar or a wall of up to 8 m is in the way, it reaches the goal and stays there. Every setpoint is finite.",
     "inputs histories", "All worlds of upright obstacles with gaps of 3.5 m and more between pillars, all start headings, goals 15 to 30 m away.",
     "No test closes the loop; the distance kept results from point memory, histogram, cost, look-ahead tree, path following, speed and smoothing together.",
     "local_planner/src/nodes/local_planner.cpp local_planner/src/nodes/star_planner.cpp local_planner/src/nodes/planner_functions.cpp local_planner/src/nodes/waypoint_generator.cpp local_planner/src/utils/trajectory_simulator.cpp avoidance/src/histogram.cpp avoidance/src/common.cpp",
     [("planning", "local_planner/src/nodes/local_planner.cpp: runPlanner, determineStrategy, getAvoidanceOutput"), ("look-ahead", "local_planner/src/nodes/star_planner.cpp: buildLookAheadTree"), ("following", "local_planner/src/nodes/waypoint_generator.cpp: runTryPath, adaptSpeed, smoothWaypoint, nextSmoothYaw")],
     ["setpoints", "the vehicle's distance to every obstacle"], "closed-loop simulation with a ray-casting camera and a vehicle model; a monitor of the true distance to the obstacles and of arrival", TRUST + " The vehicle follows setpoints as a velocity- and acceleration-limited point with a drifting position estimate.")

prop("C31", "World and vehicle are drawn as described, and bad world files end nothing",
     "For every well-formed world file the world visualizer publishes exactly one marker per object, all with different ids, with the object's shape, frame, position, orientation and scale, models being taken from the first directory of the model path, then of the home directory, that has them; if an object is broken, of unknown type or its model is nowhere, nothing is published. Every pose of the vehicle is shown with the vehicle's model there. No world file, however malformed, no missing file and no missing environment variable ends the node.",
     "inputs configurations", "All world files (sound, with broken objects, with damaged bytes, missing), model paths and environments.",
     "No test touches the visualizer.",
     "avoidance/src/rviz_world_loader.cpp avoidance/include/avoidance/rviz_world_loader.h avoidance/sim/worlds",
     [("worlds", "avoidance/src/rviz_world_loader.cpp: loopCallback, visualizeRVIZWorld, operator>>"), ("models", "avoidance/src/rviz_world_loader.cpp: resolveUri, visualizeDrone")],
     ["world", "drone"], "online monitor comparing the published markers with the generated file and directories, byte-level damage of the files, ASan/UBSan with the real YAML library", TRUST)

prop("C32", "The operator is shown what the planners really see, plan and command",
     "What the local planner and the landing nodes publish for display is what they work with, at its place, in the right frame, nothing hidden by a reused id: the local planner's points, expanded look-ahead tree, path, goal, the cameras' fields of view, the obstacle scan with its lengths and colours, well-formed histogram and cost images in which the heading and the waypoints are marked, the three waypoints, the commanded velocity in the colour of the mode, the off-track points and gapless paths; the landing planner's points, every cell of its grid with its place, size, height, landability, roughness and counter colours, the landing area aligned with it, and goal and path.",
     "inputs histories", "All clouds, poses, attitudes, goals, camera rigs, waypoints, grids and configurations, over sequences of iterations.",
     "No test looks at any of these topics.",
     "local_planner/src/nodes/local_planner_visualization.cpp local_planner/src/nodes/local_planner.cpp local_planner/src/nodes/planner_functions.cpp safe_landing_planner/src/nodes/safe_landing_planner_visualization.cpp safe_landing_planner/src/nodes/waypoint_generator_node.cpp",
     [("local planner", "local_planner/src/nodes/local_planner_visualization.cpp: visualizePlannerData, publishTree, publishDataImages, publishRangeScan, publishFOV, visualizeWaypoints, publishPaths, publishCurrentSetpoint"), ("images", "local_planner/src/nodes/local_planner.cpp: generateHistogramImage; local_planner/src/nodes/planner_functions.cpp: generateCostImage, colorImageIndex"), ("landing", "safe_landing_planner/src/nodes/safe_landing_planner_visualization.cpp: publishGrid, publishMeanStdDev, publishCounter, publishPaths; safe_landing_planner/src/nodes/waypoint_generator_node.cpp: landingAreaVisualization, goalVisualization")],
     ["local_pointcloud", "complete_tree", "tree_path", "goal_position", "fov", "range_scan", "histogram_image", "cost_image", "original_waypoint", "current_setpoint", "path_actual", "grid", "grid_mean_std_dev", "grid_counter", "land_hysteresis"],
     "online monitors comparing every published marker and image with the planners' state and the setpoints sent, ASan/UBSan", TRUST)
