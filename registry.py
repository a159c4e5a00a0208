PROPS = {
    'A01': dict(units=[('angles.cpp', None)]),
    'A02': dict(units=[('polar.cpp', None)]),
    'A03': dict(units=[('fov.cpp', None)], bounded=['lists of cameras: up to 3 cameras']),
    'A04': dict(units=[('cloud.cpp', None)]),
    'A06': dict(units=[('avoidance_node.cpp', ['failsafe', 'system_status'])]),
    'A07': dict(units=[('messages.cpp', None)]),
    'A08': dict(units=[('usm.cpp', None)]),
    'A09': dict(units=[('histogram.cpp', None)]),
    'A10': dict(units=[('avoidance_node.cpp', ['parameter_update', 'parameter_poll', 'mission_speed'])]),
    'L01': dict(units=[('trajectory.cpp', None)]),
    'L02': dict(units=[('tree_node.cpp', None)]),
    'L03': dict(units=[('cost.cpp', None)]),
    'L05': dict(units=[('build_histogram.cpp', None)]),
    'L06': dict(units=[('path_setpoint.cpp', None)]),
    'L07': dict(units=[('waypoints.cpp', ['step_path', 'step_direct', 'step_loiter', 'step_climb', 'altitude_change', 'waypoint'])]),
    'L08': dict(units=[('waypoints.cpp', ['speed', 'smoothing', 'heading_off', 'heading_path', 'heading_direct', 'heading_loiter', 'heading_climb', 'heading_unset', 'message', 'update_state'])]),
    'S01': dict(units=[('grid.cpp', None)]),
    'S02': dict(units=[('landing.cpp', ['cell_statistics', 'cell_index', 'bin_points', 'position_cell'])], bounded=['binning of a cloud: grids of 10 by 10 cells']),
    'S03': dict(units=[('landing.cpp', ['reconfigure', 'run_filter', 'run_resize', 'recorded_same', 'recorded_other'])], bounded=['filtering and replaying: grids of 2 by 2 cells, replacing one of 10 by 10']),
    'S04': dict(units=[('landing.cpp', ['decide_plain', 'decide_smooth_1', 'decide_smooth_2'])], bounded=['grids of 3 by 3 cells, neighbourhoods of 1, 3 by 3 and 5 by 5 cells']),
    'S05': dict(units=[('landing_waypoints.cpp', None)], bounded=['cell history: grids of 6 by 6 cells', 'shape of a patch: radii up to 2 cells', 'height percentile: radii up to 1 cell']),
    'S06': dict(units=[('landing_node.cpp', None)], bounded=['display of the patch: grids of 4, 6 and 7 cells']),
    'S07': dict(units=[('landing_planner_node.cpp', None)], bounded=[]),
}
