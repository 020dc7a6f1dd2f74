#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})


AN = "avoidance/src/avoidance_node.cpp"
p("C01", "State-machine engine follows its transition table",
  "A state machine built on the shared engine changes state only when the running state asks for a transition other than 'repeat', and then moves exactly to the state its transition table maps that (state, transition) pair to, or to the table's error state when the pair is not mapped. Each iteration runs exactly the current state's action once, also after arbitrary many iterations and for any table.",
  ["programs", "histories"], "every transition table (up to 4 states) and every sequence of requested transitions",
  "the existing tests exercise one hand-written table along a few paths",
  ["avoidance/include/avoidance/usm.h"], [("iterateOnce / USM_TABLE", "avoidance/include/avoidance/usm.h")],
  [("m_currentState", "current state", "usm::StateMachine")], ["getState()"])
p("C02", "Health escalation reported to the flight controller",
  "Whenever the health of a planner is evaluated, the reported companion status becomes 'flight termination' if both the time since the last data and the time since start exceed 15 s; otherwise, if data is older than 0.5 s and the node has run for more than 5 s, it becomes 'critical' and a hover is requested; otherwise it becomes 'active' unless a hover is already requested, in which case it stays as it was. The hover request is never withdrawn by this evaluation, the status right after start-up is 'boot', and every heartbeat carries the obstacle-avoidance component id 196, the current time and the current status.",
  ["inputs", "histories"], "every pair of durations incl. the boundaries, every prior status, every sequence of evaluations and heartbeats",
  "needs ROS; no runnable test covers it, and it quantifies over all pairs of durations and prior states",
  [AN], [("checkFailsafe", AN), ("publishSystemStatus", AN)], [("companion_state_", "status", AN)],
  ["mavros/companion_process/status", "hover flag", "getSystemStatus()"])
p("C03", "Flight-controller parameters and mission speed are tracked faithfully",
  "Each of the 14 tracked flight-controller parameters equals the last value received for exactly its name, by announcement or by a successful answer to the node's own request (integer field for the auto-mode parameter, real field otherwise), and no other message changes it; the 11 polled parameters are requested again after 5 s while any of them is not finite and after 30 s otherwise. The mission cruise speed equals the positive speed of the nearest airspeed/groundspeed change item at or before the current mission item of the last mission having one, and is otherwise unchanged.",
  ["histories", "inputs"], "every sequence of parameter announcements, service answers (incl. failures and non-finite values) and missions",
  "no test drives this node; the guarantee is over histories of messages",
  [AN], [("px4ParamsCallback", AN), ("checkPx4Parameters", AN), ("missionCallback", AN)], [("px4_", "believed parameters", AN)],
  ["getPX4Parameters()", "mavros/param/get requests", "getMissionItemSpeed()"])
TB = "avoidance/src/transform_buffer.cpp"
p("C04", "Transform buffer returns only correctly interpolated in-range transforms",
  "For each ordered pair of frames the buffer keeps, in strictly increasing time order, exactly the accepted transforms not older than the buffer length relative to the newest (a transform not newer than the newest is refused and changes nothing). A query succeeds exactly when its time lies between the oldest and newest kept transform of that pair, inclusive, and then returns that time stamp with the translation linearly and the rotation spherically interpolated between the two neighbouring transforms; a failing query is reported as such.",
  ["histories", "inputs"], "every interleaving of insertions and queries over several frame pairs, any stamps and buffer lengths",
  "tests insert a handful of monotone transforms; they do not explore refusal, eviction and lookup interleavings",
  [TB], [("insertTransform", TB), ("getTransform", TB), ("interpolateTransform", TB)], [("buffer_", "kept transforms", "transform_buffer.h")],
  ["insertTransform/getTransform results"])
H = "avoidance/src/histogram.cpp"
p("C05", "Histogram: angular wrap-around, half-resolution storage and resampling",
  "A distance written to a histogram cell is read back from exactly that cell, and reading with an azimuth or elevation index outside its range by up to one wrap returns the cell whose index is congruent modulo the number of cells of that axis. Down-sampling makes every coarse cell the mean of the four fine cells it covers, up-sampling copies each coarse cell to the fine cells it covers; resampling a histogram that does not have the required resolution is refused with an error and changes nothing, clearing empties every cell, and a histogram is reported empty exactly when no cell holds a positive distance.",
  ["inputs", "histories"], "every histogram content, every index and every sequence of set/resample/clear operations",
  "tests check a few indices and one content",
  [H, "avoidance/include/avoidance/histogram.h"], [("wrapIndex/upsample/downsample", H)], (), ["get_dist", "isEmpty"])
CM = "avoidance/src/common.cpp"
p("C06", "Directions, bins and frames convert consistently",
  "Converting a direction between Cartesian, histogram-polar and flight-controller-polar coordinates preserves it (same ray, distance and, in the flight-controller convention, azimuth measured clockwise from the y axis, with its angle in (-180,180]), and every direction falls into exactly one histogram bin whose representative direction lies within half a bin of it, including at the poles and at the +-180 degree seam. Angle helpers return wrapped values in their documented range congruent to the input, angle differences are the smallest rotation, and yaw/pitch/quaternion and NED/ENU conversions are mutually consistent.",
  ["inputs"], "all points of a bounded lattice around any origin, all angles incl. multiples of 180 degrees, all bins at each resolution",
  "tests sample single points; seams and poles are combinations",
  [CM], [("cartesianToPolar*, polarToHistogramIndex, wrapPolar, wrapAngle*, nextYaw, getAngularVelocity", CM)], (), ["return values"])
p("C07", "Field-of-view predicates are exact",
  "A direction is inside a camera's field of view exactly when it is within half the horizontal and half the vertical opening of the camera axis, for a set of cameras exactly when it is inside at least one, and the histogram-column test agrees with it for the current heading. The histogram-column test is positive exactly when an edge of the column is visible at the elevation of the horizontal flight plane. The speed scale is 0 outside all fields of view and 1 inside, except in the half of a single camera's view that ends in an edge no other camera continues, where it falls linearly from 1 on the camera axis to 0 at that edge; it is never outside [0,1]. Growing an automatically estimated field of view never shrinks it; its horizontal opening becomes that of the smallest sector (below 180 degrees) holding all the directions the camera saw, with the axis in the middle of it, also for cameras that look backwards over the +-180 degree seam.",
  ["inputs", "configurations"], "every camera set (0-3), axis, opening and direction on a degree lattice",
  "tests use one or two fixed cameras",
  [CM], [("pointInsideFOV, pointInsideYawFOV, isInWhichFOV, isOnEdgeOfFOV, scaleToFOV, histogramIndexYawInsideFOV, updateFOVFromMaxima", CM)], (), ["return values"])
p("C08", "Trajectory messages for the flight controller are well formed",
  "A position/velocity setpoint is turned into a trajectory message of waypoint type whose first point carries exactly the given position, velocity, yaw and yaw rate with acceleration left open and is the only point that may be flagged valid; the landing planner flags it exactly when it carries a usable horizontal and a usable vertical setpoint. All remaining points and time horizons are not-a-number, so that nothing else can be mistaken for a command.",
  ["inputs"], "every combination of finite / non-finite position and velocity components and any heading",
  "tests check one finite setpoint",
  [CM, "safe_landing_planner/src/nodes/waypoint_generator_node.cpp"],
  [("transformToTrajectory, fillUnusedTrajectoryPoint", CM), ("publishTrajectorySetpoints", "safe_landing_planner/src/nodes/waypoint_generator_node.cpp")], (), ["mavros/trajectory/generated", "message fields"])
WG = "local_planner/src/nodes/waypoint_generator.cpp"
p("C09", "Local planner flight-mode logic",
  "The waypoint generator starts in loiter and changes its mode once per cycle at most. While following the path or changing altitude, a loiter request comes first, then a required altitude change, then a path that can still be followed, else it flies directly; while flying directly a path that can be followed comes first, then a required altitude change, then a loiter request; loiter is left, to path following, exactly when the request ends. An altitude change is required in offboard mode until the goal height was reached once since the vehicle became airborne, in take-off and landing modes or mission items, and while returning from more than 0.8 m below the goal. Loitering holds the position where it began, direct flight and path following aim one metre ahead towards the goal or the path's setpoint, and an altitude change moves only vertically: by one metre steps in offboard, else above the place where the vehicle came to rest, passing on the flight controller's velocity.",
  ["histories", "inputs"], "every sequence of vehicle states, navigation modes, loiter requests and planner outputs",
  "tests walk a few transitions with one geometry",
  [WG], [("run* / isAltitudeChange / chooseNextState", WG)], [("m_currentState", "mode", WG)], ["getWaypoints()"])
p("C10", "Setpoint speed and goal-capture limits of the local planner",
  "In every cycle the speed-adapted setpoint lies, from the vehicle, in the direction of the commanded goto position at a distance that never exceeds the low-pass filtered allowed speed (time constant 0.9 s towards the cruise speed, scaled to zero outside the field of view) nor the distance to the goal; within one metre of the goal the setpoint is captured by the goal and the heading is frozen at its value on arrival. The setpoint sent out follows the adapted one through the configured critically damped smoothing, bypassed when smoothing is disabled, and restarts from the vehicle position whenever the vehicle is not flying autonomously.",
  ["histories", "inputs", "configurations"], "every sequence of vehicle states, goals, headings, cruise speeds, cycle times and smoothing settings",
  "tests check the end point after many iterations",
  [WG], [("adaptSpeed, smoothWaypoint, nextSmoothYaw, getPathMsg", WG)], [("speed_", "filtered speed", WG)], ["getWaypoints()"])
PF = "local_planner/src/nodes/planner_functions.cpp"
p("C11", "Following a stored path advances with time and expires",
  "Given a path, the time it was generated and a speed, the setpoint is the point of the path at arc length speed x age after its second-last node, always on the polyline while the path is valid; the path is reported invalid exactly when it has fewer than two nodes or the vehicle would already have passed its end. A two-node path yields its end point.",
  ["inputs"], "every polyline with up to 6 segments, any speed and any age",
  "tests use one straight path",
  [PF], [("getSetpointFromPath", PF)], (), ["return value and setpoint"])
p("C12", "Obstacle memory: fresh points first, old ones only while unseen and young",
  "After every update the planner's obstacle cloud contains exactly one point for each fine angular cell in which the current clouds have at least the configured number of valid points strictly between the minimum and maximum range, with age zero. For every remaining cell it contains exactly one of the remembered points of that cell which are within the maximum range, younger than the age limit and outside every camera's current field of view, if there are any, with its age increased by the elapsed time; and nothing else.",
  ["histories", "inputs", "configurations"], "every sequence of clouds, poses, headings, fields of view and elapsed times",
  "tests check single updates",
  [PF], [("processPointcloud", PF)], [("final_cloud_", "obstacle memory", "local_planner/src/nodes/local_planner.cpp")], ["processed point cloud"])
LP = "local_planner/src/nodes/local_planner.cpp"
p("C13", "Obstacle histogram and distance message mean the same world",
  "Every angular bin of the planner's histogram holds the mean distance of the cloud points falling into it, or zero. The distance message for the flight controller lists, for each azimuth sector starting at local north, the closest obstacle that lies in the sector, in the +-10 degree elevation band and within one metre vertically of the vehicle, 'max range + 1 cm' if there is none beyond the minimum range in a visible sector, and 'unknown' for every sector outside the fields of view; it is renewed in every planning cycle unless collision prevention is switched off (negative minimum distance).",
  ["inputs", "configurations"], "every obstacle cloud on a lattice, every heading, camera set and collision-prevention setting",
  "tests check one wall",
  [PF, LP], [("generateNewHistogram, compressHistogramElevation", PF), ("updateObstacleDistanceMsg", LP)], (), ["getObstacleDistanceData", "histogram image"])
SP = "local_planner/src/nodes/star_planner.cpp"
p("C14", "Look-ahead tree is a bounded, consistent search tree",
  "Every look-ahead search yields a tree rooted at the vehicle position in which each node is one step length from its parent, has depth one more than its parent, accumulates the candidate cost along the branch plus its own heuristic, and is at least 20 cm from every earlier node; at most the configured number of nodes are expanded, each with at most the configured number of children, always the cheapest open node within the path-length limit. The returned path runs from the first deepest open node back to the vehicle along parent links.",
  ["inputs", "configurations"], "every obstacle set, goal, velocity and tree configuration",
  "tests look at one scenario's outcome",
  [SP], [("buildLookAheadTree", SP)], [("tree_", "search tree", SP)], ["getTree()", "path_node_positions_"])
p("C15", "Steering prefers free directions to the goal; cruise speed is stoppable",
  "The steering cost of a direction is zero obstacle cost if nothing is seen there and otherwise strictly decreases with the obstacle's distance, and its remaining cost grows with the angle to the goal (and to the line being followed) and with deviation from the current velocity; the candidates handed to the search are the cheapest bins in increasing order. The cruise speed offered never exceeds the mission/parameter speed, nor the speed from which the vehicle can stop within the sensor range under its acceleration and jerk limits.",
  ["inputs", "configurations"], "all directions, goals, velocities, obstacle distances and parameter values of a bounded lattice",
  "tests compare a few pairs of costs",
  [PF, LP], [("costFunction, getCostMatrix, getBestCandidatesFromCostMatrix, smoothPolarMatrix, padPolarMatrix", PF), ("getAvoidanceOutput", LP)], (), ["cost matrices", "candidate lists", "cruise velocity"])
LN = "local_planner/src/nodes/local_planner_nodelet.cpp"
p("C16", "Local planner node passes on commands, goals and state faithfully",
  "Every reported flight mode maps to exactly one navigation state. A position setpoint and a trajectory are sent once per control cycle, exactly in the cycles that got a position and find the companion healthy (judged from the time since the last completed planner cycle), with the result the waypoint generator computed from the newest position, heading, velocity, goal, previous goal, arming and flags; waiting too long for a position is reported as termination. A clicked, topic or mission goal changes the goal exactly when accepted, valid and different, remembers the preceding goal, and reaches the planner in the next cycle that starts after it, never lost or reverted; every planner cycle uses inputs in force since the cycle before. Every cycle sends its obstacle distances once unless collision prevention is off. The node can be destroyed at any time.",
  ["histories", "schedules", "inputs"], "every sequence and interleaving of mode, pose, velocity, goal, trajectory, parameter and timer events",
  "nodelet tests check start-up only",
  [LN], [("stateCallback, fcuInputGoalCallback, clickedGoalCallback, cmdLoopCallback, calculateWaypoints, updatePlannerInfo, publishLaserScan, ~LocalPlannerNodelet", LN)], (), ["mavros/trajectory/generated", "mavros/setpoint_position/local", "mavros/companion_process/status", "mavros/obstacle/send", "planner inputs"])
p("C17", "Camera pipeline never plans on stale or mixed clouds",
  "A planner cycle uses, for every configured camera, one complete cloud received since the preceding cycle's, put into the world frame with the transform at that cloud's own time stamp, together with the field of view the camera has shown so far; it starts exactly once every camera delivered one. A cloud waiting for its transform is only replaced by one of the same camera at least 0.3 s newer, no cloud is used twice, and neither a cloud whose transforms are there nor a complete set of clouds waits for ever, whatever the interleaving of deliveries and threads.",
  ["schedules", "histories"], "every interleaving of cloud arrivals, transform arrivals, planner cycles for up to 3 cameras",
  "no test runs the threads",
  [LN], [("pointCloudCallback, pointCloudTransformThread, transformBufferThread, threadFunction, updatePlannerInfo", LN)], (), ["planner input clouds and fields of view"])
TS = "local_planner/src/utils/trajectory_simulator.cpp"
p("C18", "Trajectory simulation obeys kinematics and limits",
  "From a start state within the limits, a simulated trajectory covers the requested duration with one state per time step (a step is cut short when the acceleration limit is reached), each state following from the previous one by constant-jerk motion over the time between them. Its acceleration never exceeds the acceleration limit (nor twice the square root of the jerk limit), its jerk never exceeds the jerk limit, it steers towards the commanded direction at the limited velocity, and with no commanded direction it brakes to a stop.",
  ["inputs", "configurations"], "all goal directions, start states and limits of a bounded lattice",
  "tests sample a few directions",
  [TS], [("generate_trajectory", TS)], (), ["returned states"])
SL = "safe_landing_planner/src/nodes/safe_landing_planner.cpp"
GR = "safe_landing_planner/include/safe_landing_planner/grid.hpp"
p("C19", "Landing grid bookkeeping",
  "The landing grid is always square with ceil(size/cell) cells per side, centred on the position last given, and each cell independently remembers its mean, variance, count and landability; resizing or resetting clears all of them, and nothing else does. Combining with a previous grid blends mean and variance cell by cell as alpha x previous + (1-alpha) x current and changes nothing else.",
  ["histories", "inputs"], "every sequence of operations on two grids with any sizes",
  "tests check single operations",
  [GR], [("Grid", GR)], (), ["Grid accessors"])
p("C20", "A cell is landable only if the terrain there supports it",
  "After every cycle the statistics of each cell are those of exactly the valid points of that cycle's cloud falling into it, blended with the previous cycle's by the configured weight. A cell is marked landable exactly when it has at least the required number of points and a standard deviation within the threshold and, when smoothing is on, more than the required number of landable cells in its neighbourhood and no more than the allowed number of neighbours whose mean height differs by more than the threshold; neighbours beyond the grid border count as not landable ground at height zero.",
  ["histories", "inputs", "configurations"], "every sequence of clouds, poses and configurations (incl. on-line changes)",
  "tests check single clouds",
  [SL], [("processPointcloud, isLandingPossible, combine", SL)], [("grid_", "statistics", SL)], ["getGrid()"])
SW = "safe_landing_planner/src/nodes/waypoint_generator.cpp"
p("C21", "The vehicle descends to land only after a positive decision",
  "The landing waypoint generator moves only goto -> altitude change -> loiter -> evaluate -> (goto | goto-land -> land), each exactly under its condition: within the landing radius of a land waypoint with no decision taken, inside the loiter height band over the terrain, after more than 20 grid updates, and on the outcome of the evaluation. A reset (disarming, leaving a landing/mission mode, or the mission item of a landing in progress being replaced or ceasing to be a landing) always returns to goto with nothing decided, the final descent is only commanded after a landable patch was found and reached, and it keeps the horizontal position where it began.",
  ["histories", "inputs", "configurations"], "every sequence of poses, goals, modes and grids",
  "tests walk three paths through the machine",
  [SW], [("run* / chooseNextState / updateSLPState", SW)], [("decision_taken_/can_land_", "decision", SW)], ["published setpoints", "state"])
p("C22", "Landing-site decision and exploration pattern",
  "A site is accepted only if every cell of the round patch around it has an exponentially smoothed landability above the threshold, smoothed over the grid updates of the loiter phase only; the centre is tried first, then sites on growing squares in the fixed order of eight directions, and the accepted site becomes the goal. If none is found the vehicle explores the same eight directions around the first loiter position, each round one step wider, facing its goal, until a decision is positive or the landing is cancelled, which resets the exploration.",
  ["histories", "inputs", "configurations"], "every sequence of grids and every exploration history",
  "tests check one accepted and one rejected grid",
  [SW], [("runEvaluateGrid, evaluatePatch, runLoiter, runGoTo", SW)], (), ["published setpoints"])
WN = "safe_landing_planner/src/nodes/waypoint_generator_node.cpp"
p("C23", "Landing waypoint node feeds the decision logic faithfully",
  "Grid, pose, mission and mode messages reach the landing logic unaltered: a valid trajectory with a different second point (or a missing goal) replaces goal, velocity and land flag, the mode decides whether the item is a landing and triggers a reset outside landing/mission modes or when disarmed, and each received grid (any supported size) is copied cell by cell. One decision step is taken per received grid, none without.",
  ["histories", "inputs"], "every sequence of messages and timer ticks",
  "no test drives this node",
  [WN], [("trajectoryCallback, stateCallback, gridCallback, cmdLoopCallback", WN)], (), ["mavros/trajectory/generated"])
SN = "safe_landing_planner/src/nodes/safe_landing_planner_node.cpp"
p("C24", "Landing planner node: health, freshness and grid publication",
  "The landing planner reports flight termination / emergency / active from the age of its last completed cycle by the configured time-outs, runs one cycle per new cloud whose transform is available, and publishes for each cycle a grid message with increasing sequence number whose cells are, row by row, the smoothed statistics of the last completed grid together with the index of the cell below the vehicle. A cloud whose transform arrives late is still processed unless a newer cloud replaces it, and none is processed twice or mixed with another.",
  ["schedules", "histories"], "every interleaving of clouds, poses, transforms and timer ticks",
  "no test drives this node",
  [SN], [("checkFailsafe, pointCloudCallback, threadFunction, publishSerialGrid", SN)], (), ["grid_slp", "mavros/companion_process/status"])
CE = "global_planner/src/library/cell.cpp"
p("C25", "Planning cells partition space and neighbour correctly",
  "Every position lies in exactly one cell of the configured size and the cell's centre maps back to the cell; equality, order and hash of cells and search nodes are consistent, the neighbourhood relations are symmetric and complete, distances are metric (planar, diagonal and 3D), and the cells swept between two cells contain the far end and form an unbroken chain from the near one. A goal region contains exactly the positions within its radius (Manhattan distance), and for planning the cells whose centres are within half of it. Search nodes compare as their kind says, offer exactly the successors of their kind, and measure their turn symmetrically in eighths.",
  ["inputs"], "all cells of a bounded lattice around the origin, incl. negative coordinates and several cell sizes",
  "tests check single cells",
  [CE, "global_planner/src/library/node.cpp"], [("Cell, GoalCell, Node", CE)], (), ["return values"])
GP = "global_planner/src/library/global_planner.cpp"
ST = "global_planner/include/global_planner/search_tools.h"
p("C26", "Global paths are connected, legal and end in the goal region",
  "When a search succeeds its path starts at the given start (after the given parent), ends inside the goal region, every step goes to a neighbouring cell below the altitude limit whose risk is below the limit under the current map, and its cost is the sum of the edge costs. Without overestimation, turning cost, risk and speed-up heuristics it is the cheapest such path to a goal region of one cell, and when a search fails within the iteration limit no such path exists. A planning cycle uses such a path whenever one exists and otherwise, at most, a path through cells of acceptable risk up to the layer of the altitude limit, across in that layer, and down to the goal; an occupied goal (when it must be free) or an unreachable one is reported as blocked, and an unsuccessful cycle leaves the previous path as it was.",
  ["inputs", "configurations"], "every occupancy map, start, goal and parameter setting on a bounded lattice",
  "tests run one map",
  [GP, ST], [("findSmoothPath, getEdgeCost, isLegal, getRisk", GP)], (), ["curr_path_", "getPathMsg"])
p("C27", "Simplified and smoothed paths stay faithful to the planned path",
  "Simplifying a path keeps its first two points, its end and their order, only ever removes points, and removes one only if that does not raise the cost beyond the configured margin, within the configured number of rounds. Smoothing keeps the end points, replaces every corner by the quadratic curve between the middles of its two edges, and so stays within the corners' convex hull. The reported length, risk, smoothness, cost and poses of a path are those of its cells.",
  ["inputs", "configurations"], "every path and parameter setting of a bounded lattice",
  "no test covers it",
  [ST, "global_planner/include/global_planner/bezier.h"], [("simplifyPath, smoothPath, threePointBezier", ST)], (), ["published paths"])
GN = "global_planner/src/nodes/global_planner_node.cpp"
p("C28", "Goals are visited in order and blocked goals are given up",
  "The node works on one goal at a time: it advances to the next queued waypoint exactly when the current goal is reached or blocked, inserts intermediate goals in front of the remaining ones, and stops at the current position when nothing is left to do. A goal from the flight controller replaces the current goal exactly when it is valid and lies in another column of cells (a change of its height alone is ignored); every new goal is announced.",
  ["histories"], "every sequence of goals, positions, blockages and planner cycles",
  "no test drives this node",
  [GN], [("popNextGoal, setNewGoal, setIntermediateGoal, plannerLoopCallback", GN)], (), ["published goals"])
p("C29", "Global planner setpoints advance by at most one step along the path",
  "In every cycle the commanded setpoint lies on the straight line from the vehicle to the current path point, one speed-dependent step ahead, or exactly at that point when it is closer than one metre, and the next path point is taken only when the vehicle is within one step of the current one. The speed stays between the default and maximum speed and falls back to the default when the local risk is too high.",
  ["histories", "inputs"], "every sequence of poses, paths and risk levels",
  "no test drives this node",
  [GN], [("publishSetpoint, positionCallback", GN)], (), ["mavros/setpoint_position/local", "mavros/trajectory/generated"])
p("C30", "Planning always uses the latest map and goal",
  "Every risk value used for planning or publishing is the one implied by the most recently accepted map, the obstacle points inserted before it and the current parameters, whatever was queried before; a map of an unknown kind is ignored, the node accepts maps at most every 0.2 s, and every reconfigured parameter takes effect where it is used. Setting a new goal discards everything that depended on the previous goal.",
  ["histories"], "every interleaving of map updates, queries, goals and searches",
  "tests never update a map after a query",
  [GP, GN], [("risk_cache_ / heuristic_cache_ invalidation", GP)], (), ["getRisk"])
p("C31", "Flow-diagram generator agrees with the transition tables",
  "For any source file using the state-machine macros, however it is laid out and commented, the generated diagram contains exactly the transitions of the table in that file, labelled with the transition names; an ERROR the table does not map joins the first transition leading to the error state, or is drawn as a dotted edge to it. The committed diagrams are the generated ones and match the running machines.",
  ["programs"], "every transition table (generated programs) and the two committed tables",
  "the existing test compares two committed files only",
  ["tools/generate_flow_diagram.py"], [("generate_flow_diagram", "tools/generate_flow_diagram.py")], (), ["generated .dot"])

LV = "local_planner/src/nodes/local_planner_visualization.cpp"
LN_ = "local_planner/src/nodes/local_planner_nodelet.cpp"
p("C32", "Local planner displays and images show what was computed",
  "Every planning cycle publishes the cloud used and its size, the complete search tree (one edge from every closed node to its parent), the chosen path, the goal, one pyramid per camera with that camera's own viewing direction and opening angles reaching to the sensor range, the range scan (one triangle per sector at its own direction and distance; sectors without data are red, free ones green, others the redder the nearer), and two well-formed images whose marked pixels are the histogram bins of the heading, the waypoint and the adapted waypoint. Every command cycle publishes the three waypoints, the setpoint arrow at the vehicle in the colour of the planner state, the two off-track points, and three path segments which join the previous to the newest position, waypoint and adapted waypoint, under marker numbers never used before on that topic.",
  ["inputs", "histories"], "every search tree, path, camera set, scan, pose and waypoints; every history of cycles of the node",
  "no test looks at the displays",
  [LV, LN_], [("visualizePlannerData, publishTree, publishFOV, publishRangeScan, publishDataImages, publishPaths", LV), ("calculateWaypoints", LN_)], (),
  ["complete_tree", "tree_path", "fov", "range_scan", "histogram_image", "cost_image", "path_actual", "path_waypoint", "path_adapted_waypoint", "current_setpoint"])
SV = "safe_landing_planner/src/nodes/safe_landing_planner_visualization.cpp"
WN = "safe_landing_planner/src/nodes/waypoint_generator_node.cpp"
p("C33", "Landing planner displays show the grid, its decisions and the way flown",
  "Every cycle of the landing planner draws each cell of its grid once per display, as a cube of the cell's size at the cell's centre: in the decision display green exactly when the cell may be landed on and red otherwise, with the cells within the smoothing size of the middle raised; in the spread display at the cell's mean height, coloured once around the colour circle from no spread to the threshold and black above it; in the counter display coloured once around from the point threshold to 400 points and black below. It also publishes the points it used and a segment from the previous to the newest position under a number never used before. The waypoint node draws the cells of the landing area where they are, green exactly when accepted, and each goal under a new number.",
  ["inputs", "histories"], "every grid content, size, threshold and smoothing size; every history of grids and poses",
  "no test looks at the displays",
  [SV, WN], [("publishGrid, publishMeanStdDev, publishCounter, HSVtoRGB, publishPaths", SV), ("landingAreaVisualization, goalVisualization", WN)], (),
  ["grid", "grid_mean_std_dev", "grid_counter", "grid_pointcloud", "path_actual", "land_hysteresis", "goal_position"])
WL = "avoidance/src/rviz_world_loader.cpp"
p("C34", "World loader shows the complete world file or nothing",
  "Every two seconds the world loader reads the configured file and publishes one marker per object, numbered from one in file order, with the object's frame, shape, pose, scale and mesh; when no file is configured, the file cannot be read as a list of complete objects, an object has an unknown type or its model cannot be found, it publishes nothing and keeps running (a missing or empty file is an empty world). A model:// resource is the first existing file in the locations of GAZEBO_MODEL_PATH, in order, and then in the user's own models, whether or not these variables are set; directories do not count. When a world is configured and the vehicle's model can be found, every pose draws the vehicle there.",
  ["inputs", "histories", "configurations"], "every world file, search path, set of model files and history of changes to them",
  "no test covers the loader; it depends on files and environment",
  [WL, "avoidance/include/avoidance/rviz_world_loader.h"], [("visualizeRVIZWorld, resolveUri, loopCallback, positionCallback", WL)], (), ["world", "drone"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for q in P:
            assert len(q["title"]) <= 80, q["title"]
            f.write(json.dumps(q) + "\n")
    print(len(P), "properties")
