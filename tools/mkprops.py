#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept as Python so that long strings stay readable)."""
import json, os

P = []

def prop(id, title, statement, over, qtext, why, files, mech):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech]},
    })

prop("P01", "Grid path search finds a valid, cheapest path whenever one exists",
     "For every search space, start set, goal and consistent cost model, the grid path search reports success exactly when "
     "the goal is reachable, and the returned path starts at a start, ends at the goal and uses only moves the model allows. "
     "With one search task and an admissible, consistent estimate the returned path is as cheap as the cheapest path to the "
     "goal; with several search tasks it is still valid and found whenever one exists. "
     "Partial paths handed to the progress callback or returned by a cancelled search are themselves made of allowed moves.",
     ["inputs", "configurations"],
     "All 2- and 3-dimensional grids, obstacle layouts, start sets with start costs, goals, move sets, task counts and thread counts.",
     "The unit tests run a handful of hand-drawn grids; whether the open list, reopening, task batching and path backtracking are right depends on the whole space of costs and layouts.",
     ["planner_cspace/include/planner_cspace/grid_astar.h", "planner_cspace/include/planner_cspace/grid_astar_model.h",
      "planner_cspace/include/planner_cspace/reservable_priority_queue.h"],
     [("GridAstar::search", "planner_cspace/include/planner_cspace/grid_astar.h"),
      ("GridAstar::findPath", "planner_cspace/include/planner_cspace/grid_astar.h")])

prop("P02", "Parallel path search and cost map expansion are free of data races",
     "Running the grid path search and the cost-to-go map construction with any number of worker threads never makes two "
     "threads access the same memory without ordering, and every thread count and schedule gives a valid result: the same reachability "
     "verdict, and the same cost-to-go values, as a single thread.",
     ["schedules", "inputs"],
     "All thread counts, task counts and interleavings of the parallel sections, over all grids.",
     "Tests run each search once under whatever schedule happens; a race shows only under rare interleavings and is invisible to result assertions.",
     ["planner_cspace/include/planner_cspace/grid_astar.h", "planner_cspace/src/distance_map.cpp"],
     [("parallel node expansion", "planner_cspace/include/planner_cspace/grid_astar.h"),
      ("parallel cost map fill", "planner_cspace/src/distance_map.cpp")])

prop("P03", "Block-ordered grid map storage behaves like a plain multi-dimensional array",
     "For every size and element type, each in-range cell of a grid map holds exactly the value last written to it by cell "
     "writes, whole or partial clears and copies, and no operation on one cell changes another. Range checks accept exactly the cells inside "
     "the size the map was last given, through any sequence of resizes, and no in-range access leaves the allocation.",
     ["histories", "inputs"],
     "All operation sequences (reset, write, clear, partial clears, copy, compare against range) over all 2-D and 3-D sizes, block widths and element types.",
     "Tests write and read back fixed patterns on few sizes; address collisions or short allocations appear only for particular combinations of size and block width.",
     ["planner_cspace/include/planner_cspace/blockmem_gridmap.h"],
     [("BlockMemGridmap", "planner_cspace/include/planner_cspace/blockmem_gridmap.h")])

prop("P04", "Cyclic grid vector arithmetic obeys modular and vector algebra",
     "For every vector and cycle length, wrapping the cyclic axes yields the congruent value inside the documented half-open range "
     "(signed or unsigned) and leaves other axes untouched. Addition, subtraction, negation, equality, squared length, dot, cross, grid "
     "distance and rotation of vectors agree with the mathematical definitions component by component, for integer and floating vectors alike.",
     ["inputs"],
     "All integer and floating 2-D and 3-D vectors and all positive cycle lengths.",
     "Tests use a few literal vectors; wrap-around mistakes appear at multiples of the cycle and for negative values.",
     ["planner_cspace/include/planner_cspace/cyclic_vec.h"],
     [("CyclicVecBase::cycle/cycleUnsigned", "planner_cspace/include/planner_cspace/cyclic_vec.h")])

prop("P05", "Planned 3-DOF motions are never allowed through occupied cells",
     "For every cost map and every pair of neighbouring poses the 3-DOF motion model either forbids the motion or returns a finite non-negative "
     "cost, and it forbids every motion whose straight, curved or in-place-turn sweep crosses a cell and heading at lethal cost, also across the "
     "heading wrap-around and at the map edge. The cost of an allowed motion grows with the cell costs along its sweep and never falls below the cost of the bare displacement and turn.",
     ["inputs", "configurations"],
     "All cost maps, resolutions, turning limits, cost weights and pose pairs the motion primitives can produce.",
     "Tests compare a few fixed motions on synthetic maps; collisions missed at particular headings, curve radii or map edges stay unseen.",
     ["planner_cspace/src/grid_astar_model_3dof.cpp", "planner_cspace/src/motion_cache.cpp", "planner_cspace/src/rotation_cache.cpp",
      "planner_cspace/src/motion_primitive_builder.cpp"],
     [("GridAstarModel3D::cost", "planner_cspace/src/grid_astar_model_3dof.cpp"),
      ("MotionCache::reset", "planner_cspace/src/motion_cache.cpp"),
      ("MotionPrimitiveBuilder::build", "planner_cspace/src/motion_primitive_builder.cpp")])

prop("P06", "Cost-to-go map equals the shortest distance and survives incremental updates",
     "After construction, the cost-to-go map holds for every cell within its range the cheapest cost of travelling from that cell to the goal through "
     "free cells, and marks unreachable cells as such. After any sequence of partial map changes and goal changes, the incrementally "
     "updated values used for planning are those a construction from scratch on the current map would give.",
     ["histories", "inputs", "configurations"],
     "All maps, goals, ranges, queue orders and sequences of localized cost changes.",
     "Tests replay a few fixed obstacle insertions; stale costs after a particular order of insertions and removals need long random histories.",
     ["planner_cspace/src/distance_map.cpp", "planner_cspace/include/planner_cspace/planner_3d/distance_map.h"],
     [("DistanceMap::create/update", "planner_cspace/src/distance_map.cpp")])

prop("P07", "Remembered obstacles follow a bounded binary Bayes update",
     "Every remembered-obstacle probability stays within the fixed clamp bounds and each observation changes it by exactly the configured hit or "
     "miss odds, only for cells inside the remembered range and with known observations. Remembering never lowers a cell cost of the resulting planning map, "
     "raises it to lethal only for cells believed occupied, and clearing or shifting forgets exactly the cells asked for.",
     ["histories", "inputs"],
     "All sequences of observations, ranges, positions, clears and shifts on all map sizes.",
     "Tests apply one or two updates on one fixed map; drift and index errors appear over long histories and at the map border.",
     ["planner_cspace/src/costmap_bbf.cpp", "planner_cspace/include/planner_cspace/bbf.h", "planner_cspace/include/planner_cspace/planner_3d/costmap_bbf.h"],
     [("CostmapBBFImpl::remember/updateCostmap", "planner_cspace/src/costmap_bbf.cpp"), ("BinaryBayesFilter", "planner_cspace/include/planner_cspace/bbf.h")])

prop("P08", "Published navigation paths are continuous, collision-free and lead to the goal",
     "For every map, robot pose and goal, each path the navigation planner publishes starts at the robot, advances in steps no longer than the grid allows, and never "
     "enters a lethal cell of the map and map update it was planned on. For a goal reachable through free cells the planner reports that it is going well, a path within its detailed search range ends exactly at the "
     "requested goal, and a robot which follows the paths arrives. When the goal cannot be reached, the planner publishes no path and reports the path-not-found error. "
     "A temporary goal to escape is free and around the robot. The plan service returns continuous plans between the requested cells through cells which are not lethal, and fails exactly if there is no way. "
     "The path first planned for a map, pose and goal does not depend on the maps, goals and parameters the planner has seen before.",
     ["inputs", "configurations", "histories"],
     "All maps, overlays, start and goal poses, tolerances, planner parameters and replanning sequences.",
     "Integration tests drive one demo map with a few goals and cannot run without a ROS graph; paths on arbitrary maps are never examined.",
     ["planner_cspace/src/planner_3d.cpp", "planner_cspace/src/grid_astar_model_3dof.cpp", "planner_cspace/src/distance_map.cpp"],
     [("Planner3dNode::makePlan", "planner_cspace/src/planner_3d.cpp")])

prop("P09", "Every navigation goal gets exactly one outcome, and success only at the goal",
     "Each accepted navigation goal is concluded exactly once as succeeded, aborted or preempted, also when goals, cancellations, map updates and pose losses interleave arbitrarily. "
     "Success is reported only for a robot that has come within the linear tolerance of the goal and is then turned to the goal direction within the finish tolerance "
     "(in the continuous movement mode: that is within the goal tolerances), and a robot standing at its goal is told so. A concluded or cancelled goal produces no further path to follow "
     "(a goal of the continuous movement mode keeps being approached). The published planner status agrees with whether a goal is in progress.",
     ["histories", "fault_sequences"],
     "All interleavings of goals, preemptions, new maps, robot motion and transform failures.",
     "Integration tests check one preemption and one abort scenario; arbitrary orders of goal, cancel and map events are not sampled.",
     ["planner_cspace/src/planner_3d.cpp"],
     [("action handling in Planner3dNode::spin", "planner_cspace/src/planner_3d.cpp")])

prop("P10", "Navigation planner is memory-safe for any well-formed message history",
     "No sequence of map, map update, goal, service, parameter change and robot pose inputs makes the navigation planner read or write outside its data, "
     "hit undefined behaviour, or terminate. In particular maps that change size, origin or resolution, robots and goals outside the map, and updates "
     "that overlap the map border are handled by reporting errors.",
     ["histories", "inputs", "configurations"],
     "All sequences of well-formed messages and services, including degenerate map sizes and poses far outside the map.",
     "Tests use valid in-range data; out-of-range accesses are silent without instrumentation.",
     ["planner_cspace/src/planner_3d.cpp", "planner_cspace/src/start_pose_predictor.cpp", "planner_cspace/src/distance_map.cpp"],
     [("Planner3dNode callbacks", "planner_cspace/src/planner_3d.cpp")])

prop("P11", "Predicted replanning start lies on the path the robot is following",
     "When replanning starts ahead of the robot, the predicted start pose and the preserved path lie on the previously published path ahead of the robot, and both are free of obstacles. "
     "The start is the first grid-centred switch-back reached after the planning period but within the switch-back horizon, else the first grid-centred pose the robot reaches only after the planning period, else the end of the path. "
     "When the robot is too far from the path or the preserved part or the predicted start is blocked, the prediction reports failure and preserves nothing.",
     ["inputs", "histories"],
     "All previous paths, robot poses on and off the path, cost maps and prediction settings.",
     "Tests check four fixed paths.",
     ["planner_cspace/src/start_pose_predictor.cpp"],
     [("StartPosePredictor::process", "planner_cspace/src/start_pose_predictor.cpp")])

prop("P12", "Joint planner outputs only collision-free trajectories, survives bad input",
     "For every pair of joint targets, the two-link planner publishes either a trajectory from the current joint angles to the requested ones (up to full turns) whose consecutive "
     "waypoints are connected by collision-free joint motions with timestamps increasing and joint speeds within limits, or a hold command at the current joint angles. "
     "Messages with missing joints or points are rejected without crashing.",
     ["inputs", "configurations"],
     "All link geometries, joint limits, start and target angles, and message shapes.",
     "The only test drives one fixed geometry with a few targets.",
     ["planner_cspace/src/planner_2dof_serial_joints.cpp", "planner_cspace/src/grid_astar_model_2dof_joints.cpp"],
     [("Planner2dofSerialJointsNode::makePlan", "planner_cspace/src/planner_2dof_serial_joints.cpp"),
      ("GridAstarModel2DoFSerialJoint::cost", "planner_cspace/src/grid_astar_model_2dof_joints.cpp")])

prop("C01", "Configuration-space cost covers every footprint collision",
     "For every obstacle map, footprint and heading, a known robot cell and heading is lethal in the configuration-space cost map whenever the footprint placed there covers the "
     "centre of an occupied cell, and within the expansion distances its cost is no lower than the linear falloff prescribed for the distance to the nearest such collision. "
     "Cells further than footprint plus expansion and spread from any obstacle stay free.",
     ["inputs", "configurations"],
     "All occupancy maps, footprint polygons, expansion and spread distances and heading resolutions.",
     "Tests check one square footprint and one-cell obstacles at a few headings.",
     ["costmap_cspace/include/costmap_cspace/costmap_3d_layer/footprint.h", "costmap_cspace/include/costmap_cspace/polygon.h",
      "costmap_cspace/include/costmap_cspace/cspace3_cache.h"],
     [("Costmap3dLayerFootprint::generateCSpace", "costmap_cspace/include/costmap_cspace/costmap_3d_layer/footprint.h")])

prop("C02", "Incremental cost map updates equal full recomputation",
     "After any sequence of base maps and partial overlays, the layered cost map equals the one obtained by giving the same latest base map and latest overlay of each layer to freshly built "
     "layers. While the overlays overlap the map, applying every published partial update to the last published full map reproduces that same cost map, so obstacles that left an overlay disappear and none is lost.",
     ["histories", "configurations"],
     "All layer stacks, overlay positions (also partly or wholly outside the map), sizes, resolutions and update orders.",
     "Tests apply two or three overlays at fixed positions.",
     ["costmap_cspace/include/costmap_cspace/costmap_3d_layer/base.h", "costmap_cspace/include/costmap_cspace/costmap_3d_layer/output.h",
      "costmap_cspace/include/costmap_cspace/costmap_3d.h"],
     [("CostmapLayerBase::processMapOverlay/updateChainEntry", "costmap_cspace/include/costmap_cspace/costmap_3d_layer/base.h"),
      ("Costmap3dUpdateLayerOutput::generateUpdateMsg", "costmap_cspace/include/costmap_cspace/costmap_3d_layer/output.h")])

prop("C03", "Obstacle maps from sensors mark exactly the observed obstacle cells",
     "Every sensor point whose height lies in the configured range and which falls in the local map area is marked occupied in the published map, every other cell is free, "
     "and points outside the height range or area mark nothing. Frames older than the newest one of their input by more than the accumulation time, and frames that could not be transformed, do not contribute; younger ones always do.",
     ["inputs", "histories"],
     "All clouds and scans, sensor poses, height ranges, map sizes, accumulation times and arrival orders.",
     "Only the accumulation container has a unit test, on one sequence; the map nodes have none.",
     ["costmap_cspace/src/pointcloud2_to_map.cpp", "costmap_cspace/src/laserscan_to_map.cpp",
      "costmap_cspace/include/costmap_cspace/pointcloud_accumulator.h"],
     [("PointcloudAccumulator::push", "costmap_cspace/include/costmap_cspace/pointcloud_accumulator.h"),
      ("Pointcloud2ToMapNode::cbSingle/cbCloud", "costmap_cspace/src/pointcloud2_to_map.cpp"),
      ("LaserscanToMapNode::cbScan", "costmap_cspace/src/laserscan_to_map.cpp")])

prop("C04", "Local map cut-outs copy the global map faithfully",
     "The local map cut out of a large map has the requested size and resolution, is centred on the robot to within a cell, and each of its cells equals the large map cell nearest to the same world position, with cells "
     "outside the large map unknown. With the round option cells outside the circle are unknown, with the surrounding option a ring of obstacles is added, and with the occlusion option all cells hidden from the robot behind an obstacle, and no others, are unknown.",
     ["inputs", "histories"],
     "All large maps (without rotation), robot poses, local map sizes and options.",
     "The cut-out node has no unit test.",
     ["costmap_cspace/src/largemap_to_map.cpp"],
     [("LargeMapToMapNode::publishMap", "costmap_cspace/src/largemap_to_map.cpp")])

prop("T01", "Tracker velocity commands respect speed and acceleration limits",
     "Every velocity command of the path tracker is finite, its linear and angular parts never exceed the larger of the configured or path-given limit and what deceleration from the previous command allows, and consecutive commands while "
     "tracking differ by no more than the configured acceleration permits for the elapsed control period. This holds for all paths, odometry histories (including stamps that repeat or go backwards), speed overrides and parameter changes.",
     ["histories", "inputs", "configurations"],
     "All path, odometry, transform, speed-override and reconfiguration sequences.",
     "Tests follow a few smooth paths and check only arrival at the goal.",
     ["trajectory_tracker/src/trajectory_tracker.cpp", "trajectory_tracker/include/trajectory_tracker/basic_control.h"],
     [("TrackerNode::control", "trajectory_tracker/src/trajectory_tracker.cpp"),
      ("VelAccLimitter::set", "trajectory_tracker/include/trajectory_tracker/basic_control.h")])

prop("T02", "Tracker stops whenever it has no trustworthy path",
     "When there is no path, the path is empty or invalid, a needed transform is missing, or odometry has timed out, the tracker commands zero velocity and reports the no-path status. While the robot is farther from the path than the stop "
     "distance it never drives: it commands zero with the far-from-path status, or only turns on the spot. It reports the goal status only while the distance remaining along the path and the remaining angle are within the goal tolerances.",
     ["histories", "fault_sequences"],
     "All sequences of paths, robot displacements, transform outages and odometry outages.",
     "Tests exercise one timeout and one short path.",
     ["trajectory_tracker/src/trajectory_tracker.cpp"],
     [("TrackerNode::getTrackingResult", "trajectory_tracker/src/trajectory_tracker.cpp"),
      ("TrackerNode::cbOdomTimeout", "trajectory_tracker/src/trajectory_tracker.cpp")])

prop("T03", "Tracker drives a robot along any feasible path to its end",
     "A robot that obeys the commands and starts near a feasible path - straight, curved, switching back, or turning in place, at any point spacing - stays near the path, visits its segments in order, and within bounded time stands "
     "within the goal tolerance of the final pose with the goal status reported.",
     ["inputs", "configurations"],
     "All feasible paths, initial offsets, control rates and delays within the tuning range.",
     "Tests drive about a dozen fixed paths with one point spacing.",
     ["trajectory_tracker/src/trajectory_tracker.cpp", "trajectory_tracker/include/trajectory_tracker/path2d.h"],
     [("TrackerNode::control", "trajectory_tracker/src/trajectory_tracker.cpp"),
      ("Path2D::findLocalGoal/findNearest", "trajectory_tracker/include/trajectory_tracker/path2d.h")])

prop("T04", "Path geometry queries agree with their geometric definitions",
     "For every path and query point, the nearest-segment search, distances to line strips, remaining distance, local goal (switch-back and in-place turn) detection, curvature and arrival time estimates equal the values given by their "
     "geometric definitions. Converting a path from and to messages keeps every pose except collapsed in-place turns, whose first position and final heading are kept.",
     ["inputs"],
     "All finite paths, query points and search options.",
     "Tests check a few hand-made paths.",
     ["trajectory_tracker/include/trajectory_tracker/path2d.h", "trajectory_tracker/include/trajectory_tracker/eigen_line.h"],
     [("Path2D", "trajectory_tracker/include/trajectory_tracker/path2d.h"),
      ("eigen_line functions", "trajectory_tracker/include/trajectory_tracker/eigen_line.h")])

prop("T05", "Recorded paths survive saving, loading and editing",
     "The recorder adds a pose exactly when the robot moved by more than the recording interval since the last stored pose, and a path saved to file and loaded again is published with identical poses. "
     "Loading a missing, empty, truncated or corrupt file, and any order of path editing actions, reports failure or is ignored without crashing or publishing poses that were never given.",
     ["inputs", "histories", "fault_sequences"],
     "All recorded motions, path contents, file corruptions and edit sequences.",
     "Only one recording run is tested; files and editing are not.",
     ["trajectory_tracker/src/trajectory_recorder.cpp", "trajectory_tracker/src/trajectory_saver.cpp", "trajectory_tracker/src/trajectory_server.cpp"],
     [("RecorderNode::spin", "trajectory_tracker/src/trajectory_recorder.cpp"),
      ("ServerNode::change/processFeedback", "trajectory_tracker/src/trajectory_server.cpp")])

prop("T06", "Signal filters, limiters and estimators are stable and exact at steady state",
     "For every time constant of at least half a sample and every finite input sequence, the low-pass filter output stays within the range of initial value and inputs and converges to a constant input, the high-pass output converges to zero, and angle filtering is invariant "
     "to full turns. The speed limiter never exceeds its velocity and acceleration bounds from any prior state, angle normalisation returns the congruent angle in range, and the one-dimensional Kalman filter estimate always lies between prior and measurement with non-increasing deviation.",
     ["inputs", "histories"],
     "All time constants, limits, initial values and input sequences.",
     "Tests use one time constant and step input; the limiter and the estimator have no tests.",
     ["trajectory_tracker/include/trajectory_tracker/filter.h", "trajectory_tracker/include/trajectory_tracker/basic_control.h",
      "track_odometry/include/track_odometry/kalman_filter1.h"],
     [("Filter::in", "trajectory_tracker/include/trajectory_tracker/filter.h"),
      ("VelAccLimitter::set", "trajectory_tracker/include/trajectory_tracker/basic_control.h"),
      ("KalmanFilter1", "track_odometry/include/track_odometry/kalman_filter1.h")])

prop("S01", "Safety limiter only ever slows the robot down, along the commanded direction",
     "Every velocity the safety limiter publishes is the latest commanded velocity scaled by a single factor between zero and one and then by the maximum speed limits, so it never speeds up, reverses or turns a command, and never exceeds the "
     "configured maximum linear and angular speed, also while the safety function is disabled.",
     ["histories", "configurations"],
     "All command, cloud, disable, watchdog and reconfiguration sequences.",
     "Tests check a few constant velocities.",
     ["safety_limiter/src/safety_limiter.cpp"],
     [("SafetyLimiterNode::limit/limitMaxVelocities", "safety_limiter/src/safety_limiter.cpp")])

prop("S02", "Safety limiter fails safe on missing, stale or untransformable sensor data",
     "Unless explicitly disabled within the disable timeout, the limiter outputs zero velocity whenever no obstacle cloud has been received, the last one is older than the timeout, the cloud is empty where empty clouds are not allowed, "
     "its transform is unavailable, or the watchdog has not been reset within its interval; it reports this in its status. It resumes only after fresh data arrived.",
     ["histories", "fault_sequences"],
     "All outage patterns of clouds, transforms, watchdog resets and disable commands.",
     "Tests check each timeout once in isolation.",
     ["safety_limiter/src/safety_limiter.cpp"],
     [("SafetyLimiterNode::cbPredictTimer/cbTwist/cbWatchdogTimer", "safety_limiter/src/safety_limiter.cpp")])

prop("S03", "A robot obeying the safety limiter does not run into observed obstacles",
     "For every footprint, obstacle layout and sequence of velocity commands within the configured speed and acceleration, a robot that starts clear of obstacles and follows the limited commands within its "
     "acceleration never brings an observed obstacle point inside its footprint (beyond the resolution of the downsampling and of the prediction steps), however often the prediction runs between two clouds and "
     "however far the robot moves between them; when it approaches an obstacle straight or by turning at the configured speed it stops at least the configured margin away. "
     "Where the predicted motion is free of obstacles the command is not limited.",
     ["inputs", "histories", "configurations"],
     "All footprints, obstacle sets, velocity commands, cloud and prediction rates and robot poses in the fixed frame.",
     "Tests place one obstacle in front of one footprint with the cloud frame at the robot.",
     ["safety_limiter/src/safety_limiter.cpp"],
     [("SafetyLimiterNode::predict", "safety_limiter/src/safety_limiter.cpp")])

prop("S04", "A robot already in collision may only escape",
     "When an observed obstacle point of the allowed height range is already inside the footprint, a command whose predicted motion brings all obstacles out of the footprint within the configured escape distance and "
     "angle is let through unlimited, and one which still is in collision beyond either of them is stopped completely, until the footprint is clear again. The status tells since when the robot has been stuck, and zero "
     "while it is clear. Collision points are reported exactly while contact is predicted, and each of them is an observed obstacle point inside the height range. This holds for one and for several cloud inputs.",
     ["inputs", "histories", "configurations"],
     "All footprints, obstacle sets, velocity commands, escape distances and angles, and numbers of cloud inputs.",
     "Tests hold one obstacle inside one footprint and drive straight in two directions.",
     ["safety_limiter/src/safety_limiter.cpp"],
     [("SafetyLimiterNode::predict", "safety_limiter/src/safety_limiter.cpp"), ("SafetyLimiterNode::cbPredictTimer", "safety_limiter/src/safety_limiter.cpp")])

prop("J01", "Joystick interrupt gives the operator exclusive control while held",
     "While the interrupt button is held and joystick messages are fresh, only joystick commands, equal to the configured scaling of the stick values, reach the robot; otherwise every input command is forwarded unchanged exactly once; "
     "on release the latest input command takes over again, and the published interrupt status tells which applies. Joystick messages with too few axes or buttons never crash the node or move the robot.",
     ["histories", "inputs", "configurations"],
     "All interleavings of joystick and command messages, message shapes, timeouts and axis settings.",
     "Tests replay a few timed sequences with well-formed messages.",
     ["joystick_interrupt/src/joystick_interrupt.cpp"],
     [("JoystickInterrupt::cbJoy/cbTwist", "joystick_interrupt/src/joystick_interrupt.cpp")])

prop("J02", "Joystick multiplexer forwards exactly the selected input",
     "At every moment exactly one of the two inputs is forwarded, unchanged and in order, and nothing of the other; the alternative input is selected only while the button is pressed and joystick messages are fresh, with the timeout honoured within one polling period.",
     ["histories"],
     "All interleavings of inputs, joystick messages and silences.",
     "The multiplexer has no tests.",
     ["joystick_interrupt/src/joystick_mux.cpp"],
     [("JoystickMux::cbTopic/cbTimer", "joystick_interrupt/src/joystick_mux.cpp")])

prop("O01", "Odometry fusion preserves travelled distance and follows the inertial heading",
     "For every synchronized odometry and inertial history, the published orientation equals the inertial orientation expressed in the robot frame, and each published displacement equals the measured displacement turned to that orientation and scaled by the estimated slip "
     "only. Published values stay finite, and the broadcast transform equals the published pose.",
     ["histories", "configurations"],
     "All odometry and inertial sequences, frame mountings, slip settings, height filters and height resets.",
     "Tests check three fixed manoeuvres.",
     ["track_odometry/src/track_odometry.cpp", "track_odometry/include/track_odometry/kalman_filter1.h"],
     [("TrackOdometryNode::cbOdom", "track_odometry/src/track_odometry.cpp")])

prop("O02", "Projected frames lie on the projection surface below the source frame",
     "For every source, surface and parent frame pose, the published projected frame lies on the surface plane directly below the source along the surface normal, keeps the source heading, is level when requested, and is stamped ahead by the configured tolerance, or published as static for static sources.",
     ["inputs", "configurations"],
     "All frame poses and option combinations.",
     "Tests check a handful of poses.",
     ["track_odometry/src/tf_projection.cpp", "track_odometry/src/tf_projection_node.cpp"],
     [("projectTranslation", "track_odometry/src/tf_projection.cpp"), ("TfProjectionNode::process", "track_odometry/src/tf_projection_node.cpp")])

prop("M01", "Floor maps extracted from a point cloud are consistent with the cloud",
     "For every point cloud, each published floor map marks a cell occupied only if the cloud has points in the robot-height band above that floor there, marks free only cells with floor points nearby, covers all points with its extent and resolution, and stands at a height "
     "where the cloud has many points. Floors with enough runnable area are never dropped, and every cloud, also empty or degenerate, is handled without crashing.",
     ["inputs", "configurations"],
     "All finite point clouds and extraction parameters.",
     "Tests use one synthetic two-floor cloud.",
     ["map_organizer/src/pointcloud_to_maps.cpp"],
     [("PointcloudToMapsNode::cbPoints", "map_organizer/src/pointcloud_to_maps.cpp")])

prop("M02", "Multi-floor maps survive saving, loading and selection",
     "A set of floor maps saved to files and loaded again yields the same floors in the same order with the same size, resolution, origin, height and free, occupied and unknown cells; floors whose file names no height stand at ground level. Selecting a floor publishes that floor of the latest map set at ground level together with a transform "
     "at that floor's height, and out-of-range selections change nothing.",
     ["inputs", "histories"],
     "All map sets, selection sequences and map set replacements.",
     "Tests load one fixed pair of maps and select one floor.",
     ["map_organizer/src/save_maps.cpp", "map_organizer/src/tie_maps.cpp", "map_organizer/src/select_map.cpp"],
     [("MapGeneratorNode::mapCallback", "map_organizer/src/save_maps.cpp"), ("TieMapNode", "map_organizer/src/tie_maps.cpp"),
      ("select_map main loop", "map_organizer/src/select_map.cpp")])

prop("M03", "Pose and mesh conversion nodes output what the transform or mesh prescribes",
     "Every pose given to the pose conversion node is published exactly once, expressed in the target frame with its covariance kept, or dropped when no transform exists. Every point generated from a mesh lies on one of its triangles after scale and offset, in proportion to "
     "triangle area, within one downsampling cell.",
     ["inputs"],
     "All poses, transforms, meshes, scales, offsets and densities.",
     "The pose conversion node is untested; the mesh test uses one box.",
     ["map_organizer/src/pose_transform.cpp", "obj_to_pointcloud/src/obj_to_pointcloud.cpp"],
     [("PoseTransformNode::cbPose", "map_organizer/src/pose_transform.cpp"),
      ("ObjToPointcloudNode::convertObj", "obj_to_pointcloud/src/obj_to_pointcloud.cpp")])

prop("R01", "Patrol sends each waypoint once, in order, and restarts on a new path",
     "For every sequence of patrol paths and goal outcomes, the waypoints of the current path are requested in order, each exactly once and only after the previous one concluded, with the configured tolerances; a new path cancels the outstanding goal and starts from its first waypoint.",
     ["histories"],
     "All paths, goal outcomes (success, abort) and path replacement times.",
     "The patrol node has no unit test of its own.",
     ["planner_cspace/src/patrol.cpp"],
     [("PatrolActionNode::spin", "planner_cspace/src/patrol.cpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
