"""What each check builds and runs. Sources starting with repo: come from the tree under test."""
INCLUDES = ["planner_cspace/include", "costmap_cspace/include", "trajectory_tracker/include", "track_odometry/include",
            "neonavigation_common/include"]
EXTRA_HASH = ""
PL3SRC = ["repo:planner_cspace/src/%s.cpp" % n for n in ("costmap_bbf", "grid_astar_model_3dof", "motion_cache", "motion_primitive_builder",
                                                         "distance_map", "rotation_cache", "start_pose_predictor")]
BOOST = ["-lboost_chrono", "-lboost_thread", "-lboost_system"]

CHECKS = {
    "P01": {
        "units": [{"srcs": ["harness/p01.cpp"], "omp": True, "shim": False, "libs": ["-lboost_chrono"], 
                   "cases": (3000, 100000)}],
        "rule": "random grids (2-D, 3-D with a cyclic axis, fully cyclic) with random move sets, weights, walls, one or several starts, task and thread numbers; non-trivial: the path found has more than 3 cells",
        "require": {"optimality checked": 200, "not found": 100, "partial paths checked": 500},
        "technique": "oracle: Dijkstra reference on the same cost model, under ASan+UBSan",
        "level_note": "Random problems up to 50x50x8 cells judged against an independent Dijkstra; costs are multiples of 1/8 so float sums are exact. Says nothing about grids larger than tried.",
    },
    "P03": {
        "units": [{"srcs": ["harness/p03.cpp"], "shim": False, "cases": (4000, 120000)}],
        "rule": "random histories of resize/write/clear/copy/assign on two maps, compared cell by cell with a plain array; non-trivial: more than four operations",
        "technique": "model-based monitor against a plain array, under ASan+UBSan",
        "level_note": "Every in-range cell is compared after every operation; element types, block widths and dimensions used by the planner plus others.",
    },
    "P04": {
        "units": [{"srcs": ["harness/p04.cpp"], "shim": False, "cases": (4000, 200000)}],
        "rule": "random integer and float vectors, cycle lengths 1..400, 50 per case; non-trivial: all (each case has its own values)",
        "technique": "closed-form oracle per operation, under UBSan",
        "level_note": "Components up to 9000 so integer products stay in range; float results compared with double arithmetic.",
    },
    "P07": {
        "units": [{"srcs": ["harness/p07.cpp", "repo:planner_cspace/src/costmap_bbf.cpp"], "shim": False, "cases": (1500, 60000)}],
        "rule": "random histories of reset, observation, cost update and clearing on maps up to 150x150 with centres in and outside the map; non-trivial: more than ten cells observed",
        "require": {"cells observed": 100000, "cells hit": 20000, "cost updates": 500, "clears": 100},
        "technique": "model-based monitor of every cell after every operation, under ASan+UBSan",
        "level_note": "Each observation is judged from the odds read back before it, so only float rounding is tolerated.",
    },
    "T06": {
        "units": [{"srcs": ["harness/t06.cpp"], "shim": False, "cases": (4000, 200000)}],
        "rule": "random time constants (0.5..200 samples), scales, input sequences, limiter and Kalman histories; every case is distinct",
        "technique": "property monitors over random input histories, under ASan+UBSan",
        "level_note": "Low-pass range claim for time constants of at least half a sample; float tolerances scale with the time constant.",
    },
    "P05": {
        "units": [{"srcs": ["harness/p05.cpp"] + PL3SRC, "omp": True, "cases": (150, 6000), "libs": BOOST}],
        "rule": "random cost maps up to 36x36x24, resolutions, search ranges and cost parameters; every offered motion of 15 poses per case; non-trivial: more than 20 motions allowed and 20 forbidden",
        "require": {"straight motion": 3000, "curve": 2000, "in-place turn": 3000, "cells planted": 1000, "rough motions": 5000},
        "technique": "independent sweep oracle on every offered motion, metamorphic cost checks, under ASan+UBSan",
        "level_note": "Sweeps are compared with an independent arc at a hundredth of a cell; cells touched for less than a fifth of a cell are not judged.",
    },
    "P06": {
        "units": [{"srcs": ["harness/p06.cpp"] + PL3SRC, "omp": True, "cases": (800, 30000), "libs": BOOST}],
        "rule": "random maps up to 120x120, weights, ranges, queue widths and thread counts; up to 12 local updates with moving robot, remembered costs and goal changes; non-trivial: more than three steps",
        "require": {"cells judged": 500000, "unreachable cells": 10000, "updates": 1000},
        "technique": "oracle: Dijkstra reference on the same travel cost after every operation, under ASan+UBSan",
        "level_note": "Construction is judged to float rounding; incremental results may exceed the shortest distance by half a cell (the goal starts at minus half a cell only when searched from scratch) and never fall below it.",
    },
    "T04": {
        "units": [{"srcs": ["harness/t04.cpp"], "cases": (20000, 600000)}],
        "rule": "random polylines with bends, switch-backs and in-place turns, query points on, near and far from them, sub-ranges and search ranges; non-trivial: paths of more than two poses",
        "require": {"nearest searches": 20000, "local goals inside the path": 5000, "curvatures": 5000, "paths with collapsed turns": 1000, "overshoots": 500},
        "technique": "closed-form geometric oracle per query, under ASan+UBSan",
        "level_note": "Tolerances follow the float results; borderline cases (a point exactly at the search range) are not judged.",
    },
    "P12": {
        "units": [{"label": "model", "srcs": ["harness/p12a.cpp", "repo:planner_cspace/src/grid_astar_model_2dof_joints.cpp"], "shim": False, "cases": (1500, 60000)},
                  {"label": "node", "srcs": ["harness/p12.cpp", ("repo:planner_cspace/src/planner_2dof_serial_joints.cpp", ["-Dmain=node_main"]),
                                             "repo:planner_cspace/src/grid_astar_model_2dof_joints.cpp"], "omp": True, "libs": BOOST, "cases": (6000, 150000)}],
        "rule": "model: random periodic cost grids and moves, 400 per case; node: random link geometries, limits and angles up to full turns, histories of targets, joint states and malformed messages; non-trivial: a case with a searched (not direct) trajectory or with both free and colliding moves",
        "require": {"moves in collision": 5000, "free moves": 50000, "trajectories": 500, "holds: unreachable": 20, "malformed commands": 300, "replans": 200},
        "technique": "node driven through a ROS stand-in, independent geometry and reachability oracle on every output, under ASan+UBSan",
        "level_note": "Motions are judged to the planner's angle grid: a sample counts as a collision when every cell around it collides. Searches cut short by the wall clock are excluded by a long replanning interval.",
    },
    "P11": {
        "units": [{"srcs": ["harness/p11.cpp"] + PL3SRC, "omp": True, "libs": BOOST, "cases": (6000, 250000)}],
        "rule": "random paths of straight runs, quarter arcs, turns on the spot and switch-backs on random maps; robots on, near and off the path; obstacles appearing on it; non-trivial: a kept part of at least one pose",
        "require": {"starts after the horizon": 1000, "starts at a switch-back": 300, "starts at the end": 500, "blocked": 500, "too far": 1000},
        "technique": "independent recomputation of robot place, arrival times and obstacles on the path, under ASan+UBSan",
        "level_note": "Ties (equidistant segments, arrival exactly at the horizon, poses on cell borders) accept every consistent answer.",
    },
    "P02": {
        "units": [{"label": "race detector", "srcs": ["harness/p02.cpp", ("harness/gomp.cpp", ["-fno-sanitize=thread"])] + PL3SRC, "omp": True, "own_gomp": True,
                   "san": "tsan", "libs": BOOST, "cases": (200, 8000), "limit": 300},
                  {"label": "schedules", "srcs": ["harness/p02.cpp", "harness/gomp.cpp"] + PL3SRC, "omp": True, "own_gomp": True,
                   "libs": BOOST, "cases": (250, 12000), "limit": 300}],
        "rule": "random search problems (2-D, 3-D cyclic, the planner's own motion model) and cost maps with 2..6 threads, 2..128 tasks and random delays at every synchronisation point; non-trivial: a path of more than four cells or a compared cost map",
        "require": {"searches": 50, "maps built": 50, "parallel regions with several threads": 200, "barriers crossed": 5000, "cells compared": 20000},
        "technique": "ThreadSanitizer with a pthread OpenMP runtime it can see, and comparison with one thread under randomised schedules",
        "level_note": "Every pair of conflicting accesses in the executed regions is judged by happens-before, not by luck of timing; the pragmas are lowered by gcc and run by a small pthread runtime in place of libgomp.",
    },
    "C01": {
        "units": [{"srcs": ["harness/c01.cpp"], "cases": (5000, 200000)}],
        "rule": "random obstacle maps, footprints (convex, elongated, concave, origin outside, smaller than a cell), expansions, headings and overlays at the same resolution; non-trivial: at least one lethal cell",
        "require": {"lethal cells": 100000, "graded cells": 50000, "overlays": 300},
        "technique": "oracle: brute-force footprint placement in double precision, under ASan+UBSan",
        "level_note": "Every cell and heading is compared; obstacles within 0.1 mm of the footprint edge may count either way.",
    },
    "C02": {
        "units": [{"srcs": ["harness/c02.cpp", ("repo:costmap_cspace/src/costmap_3d.cpp", ["-Dmain=node_main"]), "repo:costmap_cspace/src/costmap_3d_layers.cpp"],
                   "libs": BOOST, "cases": (6000, 200000)}],
        "rule": "costmap_3d node with random layer stacks (static and update layers of every type, single layer mode), up to 14 base maps and overlays of random size, place and frame; non-trivial: more than two maps compared after updates",
        "require": {"full maps": 1000, "updates": 3000, "lethal cells": 50000, "single layer mode": 50},
        "technique": "subscriber-side reassembly of the node's published maps compared with full recomputation, under ASan+UBSan",
        "level_note": "Compared exactly after every message; not judged while an overlay lies entirely outside the map (the node announces that by an empty update). Overlays have the map's resolution. Cost templates are the layer's own (C01 judges them).",
    },
    "T01": {
        "units": [{"srcs": [("harness/t01.cpp", ["-DPROP=1"]), ("repo:trajectory_tracker/src/trajectory_tracker.cpp", ["-Dmain=node_main"])], "libs": BOOST, "cases": (4000, 150000)},
                  {"label": "zones", "srcs": [("harness/t03.cpp", ["-DPROP=1"]), ("repo:trajectory_tracker/src/trajectory_tracker.cpp", ["-Dmain=node_main"])], "libs": BOOST, "cases": (600, 10000)}],
        "rule": "tracker node with random configurations, control by timer or odometry, paths, path velocities, speed overrides, reconfigurations, transform outages and odometry stamp sequences; 60 to 200 control periods per case; non-trivial: more than twenty moving commands",
        "require": {"moving commands": 100000, "reconfigurations": 3000, "odometry stamps going back": 1000, "speed overrides": 3000, "commands in speed zones": 1000},
        "technique": "online trace monitor on every command of the real node (speed and acceleration envelopes from the configuration in force), under ASan+UBSan",
        "level_note": "The speed limit is the larger of the configured, overridden and path-given ones of the current path; a full stop in a no-path, far or stop-tolerance state is allowed at any time.",
    },
    "T02": {
        "units": [{"srcs": [("harness/t01.cpp", ["-DPROP=2"]), ("repo:trajectory_tracker/src/trajectory_tracker.cpp", ["-Dmain=node_main"])], "libs": BOOST, "cases": (4000, 150000)}],
        "rule": "as T01, with empty, frame-less and invalid paths, displaced robots, transform and odometry outages; non-trivial: more than twenty moving commands",
        "require": {"controls without path": 10000, "controls without transform": 10000, "controls too far": 3000, "far on a line": 500, "goals": 1000, "goals on a line": 300, "odometry timeouts": 1000},
        "technique": "online trace monitor of command and status of the real node against a model of path, transform and odometry availability, under ASan+UBSan",
        "level_note": "Distances are judged outside the predicted look-ahead displacement; turning on the spot while far is allowed (the node turns before it judges the distance).",
    },
    "T03": {
        "units": [{"srcs": [("harness/t03.cpp", ["-DPROP=3"]), ("repo:trajectory_tracker/src/trajectory_tracker.cpp", ["-Dmain=node_main"])], "libs": BOOST, "cases": (1000, 30000)}],
        "rule": "tracker node in closed loop with a unicycle robot on random paths of lines, arcs, turns in place and switch-backs, spacings 0.02 to 3 m, initial offsets, control rates, latencies and gains; every case is distinct",
        "require": {"goals reached": 400, "sections": 600, "coarse paths": 40},
        "technique": "closed-loop trace monitor (corridor, order of pieces, time bound, final pose and status), under ASan+UBSan",
        "level_note": "Robot moves exactly as commanded from the next period on; gains in the range where the loop is stable; path_step 1.",
    },
    "S01": {
        "units": [{"srcs": [("harness/s01.cpp", ["-DPROP=1"]), ("repo:safety_limiter/src/safety_limiter.cpp", ["-Dmain=node_main"])], "libs": BOOST, "cases": (3000, 100000)}],
        "rule": "safety_limiter node with random configuration, clouds of every kind, outages, disable, watchdog and reconfiguration events, 100 to 300 steps; non-trivial: commands passed and stopped in one history",
        "require": {"outputs": 100000, "slowed": 300, "passes": 10000, "disabled commands": 3000},
        "technique": "online trace monitor relating every output of the real node to its input command, under ASan+UBSan",
        "level_note": "Planar commands (linear x, y and angular z), finite, positive rates and accelerations.",
    },
    "S02": {
        "units": [{"srcs": [("harness/s01.cpp", ["-DPROP=2"]), ("repo:safety_limiter/src/safety_limiter.cpp", ["-Dmain=node_main"])], "libs": BOOST, "cases": (3000, 100000)}],
        "rule": "as S01; non-trivial: commands passed and stopped in one history",
        "require": {"commands without cloud": 5000, "commands with stale cloud": 1000, "commands after watchdog timeout": 5000, "commands with empty or untransformable cloud": 3000, "cloud timeouts": 1000},
        "technique": "online trace monitor against a model of data availability, under ASan+UBSan",
        "level_note": "Empty and untransformable clouds take effect from the next prediction (one period) on.",
    },
    "S03": {
        "units": [{"srcs": ["harness/s03.cpp", ("repo:safety_limiter/src/safety_limiter.cpp", ["-Dmain=node_main"])], "libs": BOOST, "cases": (2000, 60000)}],
        "rule": "safety_limiter node in closed loop with a simulated robot: random footprints, obstacle layouts, poses, cloud and prediction rates, straight, sideways, curved and turning commands within speed and acceleration; non-trivial: commands were limited",
        "require": {"limited commands": 30000, "near contacts": 60, "stops at the linear margin": 40, "stops at the angular margin": 4, "commands on a free way": 50000},
        "technique": "closed-loop trace monitor (exact clearance of every observed point in every simulation step), under ASan+UBSan",
        "level_note": "Robot pose known to the transform tree in every step; clouds hold all obstacle points; clearance judged to 5 cm plus half the downsampling grid.",
    },
    "S04": {
        "units": [{"srcs": ["harness/s04.cpp", ("repo:safety_limiter/src/safety_limiter.cpp", ["-Dmain=node_main"])], "libs": BOOST, "cases": (2500, 80000)}],
        "rule": "safety_limiter node with obstacle points inside and around a random footprint, one to three cloud inputs, random commands and predictions; non-trivial: the footprint held an obstacle",
        "require": {"escapes": 1300, "stopped in collision": 3500, "in collision": 6000, "clear": 2500, "reported points": 25000},
        "technique": "online trace monitor predicting every command with exact geometry, three-valued near the contours, under ASan+UBSan",
        "level_note": "Robot pose known to the transform tree; cases within the resolution of the prediction steps and of the downsampling of a contour are not judged.",
    },
    "J01": {
        "units": [{"srcs": ["harness/j01.cpp", ("repo:joystick_interrupt/src/joystick_interrupt.cpp", ["-Dmain=node_main"])], "libs": BOOST, "cases": (6000, 300000)}],
        "rule": "joystick_interrupt node on random interleavings of commands and joystick messages of every shape, random timeouts, axes and ratios; non-trivial: commands were blocked and forwarded and the button was released",
        "require": {"blocked": 20000, "forwarded": 50000, "operated": 50000, "forwarded after timeout": 5000, "messages without the button": 10000, "released": 20000},
        "technique": "online trace monitor with a reference automaton of the operator's control, under ASan+UBSan",
        "level_note": "One message at a time (queues never overflow).",
    },
    "J02": {
        "units": [{"srcs": ["harness/j02.cpp", ("repo:joystick_interrupt/src/joystick_mux.cpp", ["-Dmain=node_main"])], "libs": BOOST, "cases": (5000, 300000)}],
        "rule": "joystick_mux node on random interleavings of both inputs and joystick messages; non-trivial: both inputs were selected",
        "require": {"alternative forwarded": 20000, "default forwarded": 50000, "within the polling period": 500, "messages without the button": 5000},
        "technique": "online trace monitor with a reference automaton of the selection, under ASan+UBSan",
        "level_note": "Both inputs carry the same message type; within one polling period after the timeout either selection is accepted.",
    },
    "O01": {
        "units": [{"srcs": ["harness/o01.cpp", ("repo:track_odometry/src/track_odometry.cpp", ["-Dmain=node_main"])], "libs": BOOST, "cases": (3000, 100000)}],
        "rule": "track_odometry node on random odometry and IMU histories with slip, noise, gaps, transform outages, mountings, filters and height resets; non-trivial: more than 20 poses published",
        "require": {"outputs": 200000, "scaled by slip": 30000, "gaps": 500, "height resets": 2000, "without odometry": 100},
        "technique": "online monitor comparing every published pose with an independent reference of the fusion, under ASan+UBSan",
        "level_note": "One odometry and one IMU message per period, stamped within half a millisecond; positive sigma_odom.",
    },
    "O02": {
        "units": [{"srcs": ["harness/o02.cpp", "repo:track_odometry/src/tf_projection.cpp", ("repo:track_odometry/src/tf_projection_node.cpp", ["-Dmain=node_main"])], "libs": BOOST, "cases": (20000, 600000)}],
        "rule": "tf_projection node on random frame trees (tilted, moving, static, missing, either way round) and options; non-trivial: at least two projections published",
        "require": {"projections": 80000, "static projections": 10000, "flat": 20000, "aligned": 10000, "missing transforms": 10000},
        "technique": "online monitor comparing every published transform with an independent projection, under ASan+UBSan",
        "level_note": "Source tilt below 1.2 rad, where its heading is well defined.",
    },
    "M01": {
        "units": [{"srcs": ["harness/m01.cpp", ("repo:map_organizer/src/pointcloud_to_maps.cpp", ["-Dmain=node_main"])], "libs": BOOST, "cases": (8000, 300000)}],
        "rule": "pointcloud_to_maps node on random clouds: empty, a few points, up to four floors of any extent, density, roughness and slope with walls, ceilings and furniture, positive and negative coordinates, random layering parameters; non-trivial: a floor with free and occupied cells",
        "require": {"floors": 8000, "multi-floor clouds": 2000, "occupied cells": 50000, "free cells": 500000, "empty clouds": 800, "merged levels": 20},
        "technique": "online monitor comparing every published floor with an independent layering of the cloud, under ASan+UBSan",
        "level_note": "Finite points at least 5 % of a cell away from cell boundaries; candidate areas not on the area threshold.",
    },
    "M02": {
        "units": [{"srcs": ["harness/m02.cpp", ("repo:map_organizer/src/save_maps.cpp", ["-Dmain=save_main"]), ("repo:map_organizer/src/tie_maps.cpp", ["-DHAVE_NEW_YAMLCPP", "-Dmain=tie_main"]),
                            ("repo:map_organizer/src/select_map.cpp", ["-Dmain=select_main"])], "libs": BOOST + ["-lyaml-cpp", "-Wl,-z,muldefs"], "cases": (6000, 200000)}],
        "rule": "save_maps, tie_maps and select_map nodes on random map sets: saved under absolute and relative names, tied in any order and compared cell by cell; selections in and out of range interleaved with replaced map sets; every case is distinct",
        "require": {"map sets saved and loaded": 2000, "files without height": 500, "map sets in relative directories": 1000, "floors compared": 6000, "published floors changed": 15000, "map sets replaced": 10000, "cycles with an out-of-range floor": 5000},
        "technique": "round trip through real files with field by field comparison, and online trace monitor of the selection, under ASan+UBSan",
        "level_note": "Images are read back by a stand-in of the map server's image loader (same cell thresholds); cells are free, occupied or unknown; planar orientation; files hold six decimals.",
    },
    "M03": {
        "units": [{"label": "pose", "srcs": ["harness/m03a.cpp", ("repo:map_organizer/src/pose_transform.cpp", ["-Dmain=node_main"])], "libs": BOOST, "cases": (10000, 500000)},
                  {"label": "mesh", "srcs": ["harness/m03b.cpp", ("repo:obj_to_pointcloud/src/obj_to_pointcloud.cpp", ["-Dmain=node_main"])], "libs": BOOST, "cases": (3500, 200000)}],
        "rule": "pose_transform node on random poses, frame trees (either way round, static, stale, missing) and target frames; obj_to_pointcloud node on random files of triangles and points, scales, offsets, densities and cell sizes; every case is distinct",
        "require": {"poses": 40000, "poses without transform": 10000, "clouds": 3000, "triangles judged": 2500, "triangles judged for uniformity": 500, "covered triangles": 1500, "meshes of small triangles": 100},
        "technique": "online monitor comparing every published pose with an independent transform, and offline check of every generated point against the mesh (distance, exact count, quarters within nine sigma), under ASan+UBSan",
        "level_note": "Files read by stand-ins of the PCL loaders; the node draws its own random numbers, statistical bounds hold at nine sigma.",
    },
    "T05": {
        "units": [{"label": "recorder", "srcs": ["harness/t05a.cpp", ("repo:trajectory_tracker/src/trajectory_recorder.cpp", ["-Dmain=node_main"])], "libs": BOOST, "cases": (4000, 200000)},
                  {"label": "files", "srcs": ["harness/t05b.cpp", ("repo:trajectory_tracker/src/trajectory_saver.cpp", ["-Dmain=saver_main"]), ("repo:trajectory_tracker/src/trajectory_server.cpp", ["-Dmain=server_main"])],
                   "libs": BOOST + ["-Wl,-z,muldefs"], "cases": (8000, 300000)}],
        "rule": "recorder node on random motions with transform outages and clear requests; saver and server nodes on random paths, files truncated, flipped, extended, random, missing or directories, with random marker edits in between; non-trivial: poses recorded, or files loaded and edited",
        "require": {"poses recorded": 40000, "paths cleared": 5000, "transform outages": 3000, "paths saved": 10000, "paths loaded": 15000, "failed loads": 15000, "edits": 40000},
        "technique": "online trace monitors with models of the recorded and the edited path, files parsed independently, corruption injected, under ASan+UBSan",
        "level_note": "Files whose corrupt counts would need gigabytes before the end is noticed are left out; filter steps of at least half a pose.",
    },
    "C03": {
        "units": [{"label": "cloud", "srcs": [("harness/c03.cpp", ["-DSCAN=0"]), ("repo:costmap_cspace/src/pointcloud2_to_map.cpp", ["-Dmain=node_main"])], "libs": BOOST, "cases": (6000, 200000)},
                  {"label": "scan", "srcs": [("harness/c03.cpp", ["-DSCAN=1"]), ("repo:costmap_cspace/src/laserscan_to_map.cpp", ["-Dmain=node_main"])], "libs": BOOST, "cases": (6000, 200000)}],
        "rule": "pointcloud2_to_map and laserscan_to_map nodes and their container on random mountings, robot motions, maps, height ranges, holding times and frames (late, early, without transform, with points not finite, out of range and next to the border); non-trivial: cells were marked and frames expired",
        "require": {"maps": 50000, "cells to be marked": 300000, "points just outside the area": 50000, "points out of the height range": 50000, "maps after a frame expired": 20000, "frames without transform": 10000, "expired frames": 100000, "not finite or huge points": 10000, "ranges out of bounds": 50000},
        "technique": "online map oracle (exact projection of every point of every held frame), under ASan+UBSan",
        "level_note": "Points within float rounding of a cell border or height limit may fall on either side; frames that arrive late may or may not contribute until the next frame.",
    },
    "C04": {
        "units": [{"srcs": ["harness/c04.cpp", ("repo:costmap_cspace/src/largemap_to_map.cpp", ["-Dmain=node_main"])], "libs": BOOST, "cases": (15000, 500000)}],
        "rule": "largemap_to_map node on random large maps (aligned and not, empty, replaced), robot poses inside and outside, map widths and all options; non-trivial: cells were copied and hidden",
        "require": {"maps": 20000, "copied cells": 3000000, "cells outside of the large map": 3000000, "hidden cells": 50000, "ring cells": 80000, "ticks without map or transform": 5000},
        "technique": "online map oracle (independent cut-out, geometric visibility with three-valued verdict), under ASan+UBSan",
        "level_note": "Large maps without rotation; cells of grids that are not aligned are compared with the nearest one; cells at the edge of a shadow or circle may be on either side.",
    },
    "R01": {
        "units": [{"srcs": ["harness/r01.cpp", ("repo:planner_cspace/src/patrol.cpp", ["-Dmain=node_main"])], "libs": BOOST, "cases": (20000, 1000000)}],
        "rule": "patrol node on random paths (empty, with repeated waypoints, replaced at any time), goal outcomes and delays; non-trivial: a goal was aborted, a path replaced and a path finished",
        "require": {"goals": 100000, "succeeded": 30000, "aborted": 10000, "paths replaced": 10000, "paths finished": 10000},
        "technique": "online trace monitor of goals against a reference automaton, under ASan+UBSan",
        "level_note": "Goals conclude as succeeded or aborted unless patrol cancels them; goals preempted by other clients are not judged.",
    },
    "P10": {
        "units": [{"srcs": ["harness/p10.cpp", ("repo:planner_cspace/src/planner_3d.cpp", ["-Dmain=node_main"])] + PL3SRC, "omp": True, "libs": BOOST,
                   "flags": ["-DNEONAVIGATION_VF_HOOKS"], "cases": (900, 30000), "limit": 90}],
        "rule": "planner_3d node under random histories of maps (sizes 1 to 70 cells, changing size, origin, resolution and yaw count), map updates inside and across the border, goals by topic and both action servers, cancels, plan and forget services, escape triggers, reconfiguration, pose loss and jumps; non-trivial: a path was found with several goals and map updates",
        "require": {"paths": 3000, "found": 300, "goals": 2000, "map updates": 2000, "maps": 500, "plans": 100, "reconfigurations": 200, "escape triggers": 300},
        "technique": "ASan+UBSan plus an in-source monitor of every grid map access (hook) while the node runs under hostile histories",
        "level_note": "Frequencies, velocities and resolutions are positive, messages are internally consistent, poses are finite and within 1000 km.",
    },
    "P08": {
        "units": [{"srcs": ["harness/p08.cpp", ("repo:planner_cspace/src/planner_3d.cpp", ["-Dmain=node_main"])] + PL3SRC, "omp": True, "libs": BOOST,
                   "flags": ["-DNEONAVIGATION_VF_HOOKS"], "cases": (560, 30000), "limit": 90}],
        "rule": "planner_3d node with random parameters on random maps, updates, goals, motion along the published paths and plan requests; in half of the cases a final map, pose and goal is also given to a fresh node; non-trivial: more than 5 paths and 50 poses judged",
        "require": {"paths": 3000, "poses": 60000, "found plans": 1000, "failed plans": 80, "reachable": 150, "unreachable": 15, "whole paths": 30, "temporary goals": 20, "compared paths": 150, "arrivals judged": 7},
        "technique": "online monitor of published paths, status, temporary goals and plans against an independent model of the delivered costs, and differential comparison with a fresh node",
        "level_note": "Whether a goal has to be reachable is judged by flood fill only if the way is free for every yaw and away from the border, with a search range of 3 cells or more; not judged right after the robot was put elsewhere or a reconfiguration, until the next update or goal, and with parts of the previous path kept.",
    },
    "P09": {
        "units": [{"srcs": ["harness/p09.cpp", ("repo:planner_cspace/src/planner_3d.cpp", ["-Dmain=node_main"])] + PL3SRC, "omp": True, "libs": BOOST,
                   "flags": ["-DNEONAVIGATION_VF_HOOKS"], "cases": (1000, 40000), "limit": 90}],
        "rule": "planner_3d node under random interleavings of goals (both action servers and topic), cancels, new maps, map updates, robot motion along the path, jumps to the goal and pose losses; non-trivial: goals succeeded, were preempted and paths were published",
        "require": {"succeeded": 300, "aborted": 150, "preempted": 300, "continuous": 25, "arrivals judged": 50, "statuses with action": 4000, "paths": 3000, "pose losses": 250},
        "technique": "online monitor of goal outcomes, paths and status against the goal in progress while the node runs under random event interleavings",
        "level_note": "Success is judged with the tolerances rounded to cells as documented by the grid planning; the topic goals accepted without a known pose and never reachable are not judged.",
    },
}
