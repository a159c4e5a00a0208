# Source of properties.jsonl and MANIFEST.json (written by tools/gen.py).
# id: (title, statement, quantifier over, quantifier text, why tests cannot settle it, files, mechanism [(name, where)], level note)
NOTE = 'every obligation is discharged for all inputs; floating point is treated as exact reals'
P = {}
NA = {}
HOOK = {'L01': 'loop invariant marker in generate_trajectory', 'A04': 'loop invariant marker in removeNaNAndGetMaxima'}
C = 'avoidance/src/common.cpp'
H = 'avoidance/include/avoidance/common.h'
P['A01'] = ('Angles are wrapped and compared without losing whole turns',
 'Every angle the planners wrap stays within half a turn of zero and changes only by whole turns. Angle differences are the signed shortest turn, circular distances are symmetric and at most half a turn, and the yaw rate commanded toward a new heading turns toward it and never by more than half a turn; the heading to the next waypoint points horizontally at it.',
 ['inputs'], 'all finite angles, all pairs of positions, all yaw rates and time steps',
 'The tests try about ten angles; the wrap-around cases lie anywhere on the line.', [C, H],
 [('wrapAngleToPlusMinusPI, wrapAngleToPlusMinus180', C), ('angleDifference, indexAngleDifference', C), ('nextYaw, getAngularVelocity', C)], NOTE)
P['A02'] = ('Polar and Cartesian directions denote the same point',
 'Converting a point to either polar convention and back returns the point, wrapping a polar point keeps the direction it denotes, and the two polar conventions denote the same direction for the same angles. Every direction falls in exactly one histogram cell, and the centre of a cell maps back to that cell.',
 ['inputs'], 'all positions and origins, all azimuths, elevations and radii, all cells at both resolutions',
 'The tests convert a few dozen points; poles, wrap-around and cell borders lie between the samples.', [C, H],
 [('polarHistogramToCartesian, cartesianToPolarHistogram', C), ('polarFCUToCartesian, cartesianToPolarFCU', C), ('polarToHistogramIndex, histogramIndexToPolar, wrapPolar', C)], NOTE + '; trigonometric functions are represented by their exact identities')
P['A03'] = ('A direction counts as visible exactly when a camera sees it',
 'A direction is inside the field of view exactly when some camera covers its azimuth and elevation, including views that extend across the back of the vehicle. The reported outer edge and the visibility weight near it follow from the cameras that cover the direction, the weight being zero outside every camera and within zero and one everywhere.',
 ['inputs', 'configurations'], 'all directions, all camera yaw, pitch and opening angles, lists of up to three cameras',
 'The tests check a few directions for two or three camera layouts.', [C, H],
 [('pointInsideFOV, pointInsideYawFOV', C), ('isOnEdgeOfFOV, scaleToFOV', C), ('histogramIndexYawInsideFOV', C)], NOTE + '; lists of cameras are covered for up to three cameras')
P['A04'] = ('Cleaning a point cloud keeps every valid point and only those',
 'The cleaned cloud consists of exactly the points whose three coordinates are finite, unchanged and in their order. The six reported extreme points are points of the cleaned cloud and no point lies beyond them; a cloud without valid points yields none.',
 ['inputs'], 'clouds of every size, every coordinate value including NaN and infinity',
 'The test cleans one cloud; the guarantee is about every position of invalid points in clouds of any size.', [C],
 [('removeNaNAndGetMaxima', C)], NOTE)
P['A07'] = ('Messages to the autopilot carry the planned setpoint in its frame',
 'A waypoint message carries exactly the planned position, velocity, yaw and yaw rate in its first point and marks every other point and field as not commanded, whatever the message held before. A Bezier message carries all control points converted between the frames with the planned duration; frame, attitude and message conversions are inverses of one another and keep every component.',
 ['inputs', 'histories'], 'all setpoints including uncommanded components, all control points, all attitudes, arbitrary previous message content',
 'The tests transform one or two messages from fixed numbers.', [C, H],
 [('transformToTrajectory, transformToBezier, fillUnusedTrajectorySetpoints', C), ('toNED, toENU, toEigen, toPoint', H), ('createPoseMsg', C)], NOTE)
P['A08'] = ('Planner state machines follow their transition table exactly',
 'Whatever sequence of events drives a planner state machine, it is always in one of its declared states and every move it makes is the one its transition table gives for the event its current state returned. A state and event pair without an entry leads to the error state, and the repeat event keeps the state without consulting the table.',
 ['histories', 'inputs'], 'every event sequence, every current state and every event value, for arbitrary transition tables',
 'The tests run three small scripted machines; they do not cover every state and event pair nor arbitrary tables.', ['avoidance/include/avoidance/usm.h'],
 [('StateMachine::iterateOnce, iterateCurrentState', 'avoidance/include/avoidance/usm.h'), ('USM_TABLE macros', 'avoidance/include/avoidance/usm.h')], NOTE)
HI = 'avoidance/src/histogram.cpp'
P['A09'] = ('Histogram stores one distance per direction and resamples conservatively',
 'The obstacle histogram returns for each direction exactly what was last stored for that direction and nothing else changes; downsampling gives each coarse direction the average of the four fine ones it covers, and upsampling copies each coarse value to the four directions it covers. It is reported empty exactly when no direction holds a positive distance, and resampling at the wrong resolution is refused.',
 ['inputs', 'histories'], 'all 2592 directions, all stored values, both resolutions',
 'The tests fill the histogram with a handful of patterns; they do not fix what happens for every cell and every value.', ['avoidance/include/avoidance/histogram.h', HI],
 [('Histogram::upsample, downsample, isEmpty, setZero', HI), ('get_dist, set_dist', 'avoidance/include/avoidance/histogram.h')], NOTE)
TS = 'local_planner/src/utils/trajectory_simulator.cpp'
P['L01'] = ('Simulated trajectories respect the vehicle limits at every step',
 'For every start state, goal direction, duration and set of limits, each state of a simulated trajectory follows from the previous one by constant-jerk motion over a positive time of at most one step, with jerk and acceleration within their limits. The number of states covers the requested duration, and no state is ever undefined.',
 ['inputs', 'configurations'], 'all start states within the acceleration limit, all goal directions including zero, all limits, durations and step counts',
 'The tests simulate two or three straight-line cases with fixed limits; the guarantee is over every step of every trajectory.', [TS, 'local_planner/include/local_planner/trajectory_simulator.h'],
 [('TrajectorySimulator::generate_trajectory', TS), ('simulate_step_constant_jerk', TS), ('jerk_for_velocity_setpoint, norm_clamp', TS)], NOTE)
P['L02'] = ('Search tree nodes keep the state they were made with',
 'A node of the look-ahead search tree reports exactly the position, velocity and time of the vehicle state it was created from and the parent it was attached to. A new node is not closed and carries no cost.',
 ['inputs'], 'all vehicle states, all parent indices', 'The test builds one node from constants.',
 ['local_planner/src/nodes/tree_node.cpp', 'local_planner/src/nodes/tree_node.h'], [('TreeNode constructors and getters', 'local_planner/src/nodes/tree_node.cpp')], NOTE)
GR = 'safe_landing_planner/include/safe_landing_planner/grid.hpp'
P['S01'] = ('Landing grid layers stay square, aligned and cleared together',
 'After any resize or reset, every layer of the landing grid has the number of rows and columns that its size and cell size give, and every value is cleared. Setting the limits centres the grid on the vehicle, the setters change exactly the addressed cell, and merging two grids weighs every cell as documented.',
 ['inputs', 'configurations', 'histories'], 'all grid and cell sizes, all cells, all stored values, all positions',
 'The tests use one grid size and check a few cells.', [GR], [('Grid::resize, reset, setFilterLimits, combine, setters', GR)], NOTE)
AN = 'avoidance/src/avoidance_node.cpp'
P['A06'] = ('Lost obstacle data makes the vehicle hover and then ends the flight',
 'Whenever obstacle data is older than half a second after start-up, the vehicle is told to hover and its state is critical; older than fifteen seconds, the flight is terminated; with fresh data the state is active unless the vehicle is hovering, and nothing else changes hovering or state. The state currently held is what is reported to the autopilot, once every period.',
 ['inputs', 'histories'], 'all ages of the data, all times since start, all previous states and hover requests',
 'No test covers the failsafe; its guarantee is about every combination of ages, states and previous requests.', [AN],
 [('AvoidanceNode::checkFailsafe', AN), ('publishSystemStatus, setSystemStatus', AN)], NOTE)
P['A10'] = ('Vehicle parameters and mission speed reach the planner unaltered',
 'A parameter message sets the one parameter it names to its value and no other; polling asks for every parameter the planners need, takes each answered value and keeps the others. The mission speed is that of the last ground speed change item at or before the current mission item, and stays as it was when there is none.',
 ['inputs', 'histories'], 'all parameter names and values, all patterns of answered polls, missions of every length and content',
 'The test loads one mission and a few parameters.', [AN],
 [('AvoidanceNode::px4ParamsCallback, checkPx4Parameters, getPX4Parameters', AN), ('missionCallback', AN)], NOTE)
HOOK['A10'] = 'loop invariant markers in missionCallback'
PF = 'local_planner/src/nodes/planner_functions.cpp'
P['L03'] = ('Obstacles and detours make a flight direction costly',
 'The cost of a direction is always a finite number, at the goal as well. Without an obstacle the obstacle cost is zero; otherwise it lies between 0 and 10000, never falls as the obstacle comes nearer, and is 5000 at the configured distance. The other costs are never negative, never grow when a direction comes closer to the goal direction, and are zero for the direction of the goal; leaving the altitude of the goal costs more the nearer the goal is.',
 ['inputs', 'configurations'], 'all positions, goals, velocities, directions, obstacle distances and non-negative cost parameters',
 'The test compares the costs of a few directions for one set of parameters.', [PF],
 [('costFunction', PF)], NOTE)
P['L05'] = ('The obstacle histogram holds the mean distance of the points in each cell',
 'Every cell of a newly built histogram holds the mean distance from the vehicle of the cloud points whose direction falls in that cell, and zero when there are none.',
 ['inputs'], 'clouds of every size and shape, all vehicle positions, all cells',
 'The tests place a handful of points.', [PF],
 [('generateNewHistogram', PF)], NOTE)
HOOK['L05'] = 'loop invariant markers in generateNewHistogram'
P['L06'] = ('The setpoint moves along the planned path at the commanded speed',
 'While the distance travelled since the path was made is less than the length of the path, the setpoint lies on the path exactly that far from its start, and from the end of the path on there is none. A path without segments gives no setpoint, and one of a single segment gives its end.',
 ['inputs', 'histories'], 'paths of every length and shape, all speeds and elapsed times',
 'The test walks one path of five nodes at three moments, none of them at a node.', [PF],
 [('getSetpointFromPath', PF)], NOTE)
HOOK['L06'] = 'loop invariant marker in getSetpointFromPath'

SL = 'safe_landing_planner/src/nodes/safe_landing_planner.cpp'
P['S02'] = ('Every point is counted in the landing grid cell it falls in',
 'Every valid point of a cloud that lies inside the landing grid, which is centred on the vehicle, is counted in exactly the cell it lies in, also next to the border; invalid points and points outside are counted in none. The mean and variance of a cell are those of the heights of its points, and the variance is never negative. The cell below the vehicle is the one in the middle of the grid.',
 ['inputs', 'configurations'], 'clouds of every size, all positions of points and vehicle, all cell sizes, all heights and counts',
 'The test bins a few dozen points; border cells and the statistics over any number of points are not sampled.', [SL, GR],
 [('SafeLandingPlanner::processPointcloud', SL), ('computeGridIndexes, isInsideGrid, computeOnlineMeanVariance', SL)], NOTE + '; binning is shown on grids of 10 by 10 cells')
P['S03'] = ('The landing grid follows its configuration and is filtered over time',
 'Every landing parameter takes its configured value and the grid is rebuilt exactly when its size or the smoothing differs from the configuration. After each cloud the mean and variance of a cell are the configured blend with those of the previous grid, and the count is that of the new cloud alone. A recorded grid replaces the grid cell by cell, whatever size the grid had before, and stays centred on the vehicle.',
 ['configurations', 'histories'], 'all parameter values, all blending factors, all previous and recorded cell values',
 'No test changes the configuration of the grid, filters it or replays a recorded one.', [SL, GR],
 [('SafeLandingPlanner::runSafeLandingPlanner, processRawGrid, dynamicReconfigureSetParams', SL), ('Grid::combine', GR)], 'bounded: grids of 2 by 2 cells; floating point is treated as exact reals')
P['S04'] = ('A cell is landable exactly when it and its surroundings are flat and dense',
 'Without smoothing a landing grid cell is landable exactly when it holds at least the required number of points and their standard deviation is at most the limit. With smoothing it is landable exactly when more than the required number of cells of its neighbourhood are so and at most the allowed number of them differ in mean height by more than the limit.',
 ['inputs', 'configurations'], 'all cell statistics and all thresholds on grids of 3 by 3 cells, with and without smoothing',
 'The test checks one hand-made grid; the guarantee is about every combination of cell values and thresholds.', [SL],
 [('SafeLandingPlanner::isLandingPossible', SL)], 'bounded: grids of 3 by 3 cells, neighbourhoods of 3 by 3 and 5 by 5 cells; floating point is treated as exact reals')
HOOK['S02'] = 'loop invariant marker in processPointcloud'
WG = 'local_planner/src/nodes/waypoint_generator.cpp'
P['L07'] = ('The vehicle hovers, climbs, follows the path or flies to the goal as due',
 'Each step of the waypoint generator goes to hovering, changing altitude, following the path or flying directly exactly as its requests demand: hovering lasts while asked for and holds the place where it began, following ends when the path runs out, and altitude is changed exactly at take-off, landing, climbing home and until the goal altitude was once reached offboard. While following or flying directly the vehicle is sent one metre towards the point on the path or the goal; while changing altitude it first stops and then moves straight up or down.',
 ['inputs', 'histories'], 'every state, all requests, modes, positions, goals, velocities and remembered positions',
 'The tests drive two or three scripted sequences; the guarantee is about every combination of state, mode and request.', [WG, 'local_planner/include/local_planner/waypoint_generator.h'],
 [('WaypointGenerator::runTryPath, runAltitudeChange, runLoiter, runDirect', WG), ('chooseNextState, runCurrentState, calculateWaypoint', WG), ('isAltitudeChange', WG)], NOTE)
P['L08'] = ('Setpoints respect commanded speed, goal and heading and move smoothly',
 'The setpoint leads the vehicle by its speed in the commanded direction; the speed follows the commanded one scaled by visibility with a low pass filter and never exceeds the distance to the goal, and close to the goal the setpoint leads there with the heading kept. Unless switched off, setpoint and heading follow as critically damped springs, the heading turning the short way; undefined commands never reach the setpoint. Smoothing starts at the vehicle, at rest, on the ground and while landing.',
 ['inputs', 'configurations', 'histories'], 'all positions, goals, velocities, speeds, headings, time steps and smoothing constants, including undefined commands',
 'The tests check a few setpoints for one set of parameters.', [WG],
 [('WaypointGenerator::adaptSpeed, smoothWaypoint, nextSmoothYaw, getPathMsg', WG), ('updateState', WG)], NOTE)

SW = 'safe_landing_planner/src/nodes/waypoint_generator.cpp'
P['S05'] = ('The vehicle lands only on a patch that stayed landable',
 'Reaching a landing goal, the vehicle moves to the hover height at landing speed, hovers where it is for twenty grids and then decides. It lands exactly when a round patch of the searched part of the grid has only cells whose blended history is above the threshold, preferring the patch below it and else going to the centre of the one found; otherwise it explores around the place in a growing spiral and decides anew there. It descends at landing speed above the chosen place and keeps doing so; off a landing item no decision is kept, and a reset leads back to following the goal.',
 ['inputs', 'histories', 'configurations'], 'every state, all positions, goals and remembered values, all cell histories, patches and grids of every size that fits',
 'The tests run a few scripted landings on one grid.', [SW, 'safe_landing_planner/include/safe_landing_planner/waypoint_generator.hpp'],
 [('WaypointGenerator::runEvaluateGrid, evaluatePatch', SW), ('runGoTo, runAltitudeChange, runLoiter, runGoToLand, runLand', SW), ('updateSLPState, landingAreaHeightPercentile', SW)], NOTE + '; cell histories are shown on grids of 6 by 6 cells, patches and height percentiles for radii of up to two and one cells; std::sort is trusted')
HOOK['S05'] = 'loop invariant marker in runEvaluateGrid'

WN = 'safe_landing_planner/src/nodes/waypoint_generator_node.cpp'
PN = 'safe_landing_planner/src/nodes/safe_landing_planner_node.cpp'
P['S06'] = ('Landing setpoints and inputs pass unchanged to and from the autopilot',
 'Every landing setpoint is sent once, stamped, with exactly its position, velocity, yaw and yaw rate; it is marked valid exactly if a position or a velocity is commanded both horizontally and vertically, and nothing else is commanded. The vehicle lands only while armed, in land mode or at a land item of the mission; a new goal of the autopilot is taken over and a known one is kept. Every cell of a received grid, of any size, holds the height and flag that were sent.',
 ['inputs', 'configurations'], 'all setpoints including NaN, all messages and flight modes, grids of every size replacing grids of every size',
 'No test runs this node; NaN components and grids of another size decide.', [WN],
 [('publishTrajectorySetpoints, fillUnusedTrajectorySetpoints', WN), ('trajectoryCallback, stateCallback, positionCallback', WN), ('gridCallback, dynamicReconfigureCallback, landingAreaVisualization', WN)], NOTE + '; the display of the patch is shown on grids of 4, 6 and 7 cells')
HOOK['S06'] = 'loop invariant markers in gridCallback'
P['S07'] = ('The landing planner reports its health and shares whole grids and clouds',
 'Without a landing grid for 15 s the landing planner reports termination, for half a second a critical state, and otherwise active, at least every 0.2 s while it computes, also while it waits for a cloud for 15 s. It computes once per cloud, only on a cloud transformed into the local frame, with the pose of the vehicle, and only while it holds the mutex that the cloud is exchanged under; the cloud thread starts after its mutexes exist, locks none twice and waits holding none. The sent grid holds every cell, of any size of grid.',
 ['inputs', 'histories', 'schedules'], 'all times, any number of waits, all answers of the transform library, grids of every size and content',
 'No test runs this node; delays, failed transforms and start-up order decide.', [PN],
 [('cmdLoopCallback, checkFailsafe, publishSystemStatus', PN), ('startNode, pointCloudTransformThread, pointCloudCallback, rawGridCallback', PN), ('publishSerialGrid', PN)], NOTE + '; threads are checked against the mutex discipline one at a time, not interleaved')
HOOK['S07'] = 'loop invariant markers in cmdLoopCallback, pointCloudTransformThread and publishSerialGrid'
