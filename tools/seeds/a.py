PRE = r'''
#include <cstdio>
#include <cmath>
#include <cstdlib>
#define CHECK(c) do { if (!(c)) { printf("broken: %s\n", #c); return 1; } } while (0)
'''
BUGS = [
dict(id='S01-land-stale', property='S01', edits=[('safe_landing_planner/include/safe_landing_planner/grid.hpp',
 "    land_.resize(grid_row_col_size_, grid_row_col_size_);\n    reset();\n  }", "    if (land_.rows() < grid_row_col_size_) land_.resize(grid_row_col_size_, grid_row_col_size_);\n    reset();\n  }")],
 needs='a grid that is resized to fewer cells than before', breaks='the landable layer keeps the old, larger dimensions after shrinking the grid',
 demo=PRE + r'''
#include "safe_landing_planner/grid.hpp"
int main() { avoidance::Grid g(10.f, 1.f); g.resize(5.f, 1.f); CHECK(g.land_.rows() == g.getRowColSize() && g.land_.cols() == g.getRowColSize()); return 0; }
'''),
dict(id='S01-combine-alias', property='S01', edits=[('safe_landing_planner/include/safe_landing_planner/grid.hpp',
 "    variance_ = alpha * prev_grid.variance_ + (1.f - alpha) * variance_;", "    variance_ = alpha * prev_grid.variance_ + (1.f - alpha) * variance_.cwiseMax(alpha * prev_grid.variance_ * 0.1f);")],
 needs='a cell whose new variance is far below its previous variance', breaks='merging grids no longer weighs the variance of such a cell as documented',
 demo=PRE + r'''
#include "safe_landing_planner/grid.hpp"
int main() { avoidance::Grid a(10.f, 1.f), b(10.f, 1.f); Eigen::Vector2i i(3, 4); a.setVariance(i, 0.001f); b.setVariance(i, 10.f); a.combine(b, 0.5f);
  CHECK(std::fabs(a.getVariance(i) - (0.5f * 10.f + 0.5f * 0.001f)) < 1e-4f); return 0; }
'''),
dict(id='A09-empty-half', property='A09', edits=[('avoidance/src/histogram.cpp',
 "      if (dist_(e, z) > FLT_MIN) {", "      if (dist_(e, z) > FLT_MIN && (resolution_ == ALPHA_RES || e + 1 < e_dim_)) {")],
 needs='a half resolution histogram whose only obstacle lies in the topmost elevation row', breaks='the histogram is reported empty although it holds an obstacle',
 demo=PRE + r'''
#include "avoidance/src/histogram.cpp"
using namespace avoidance;
int main() { Histogram h(ALPHA_RES * 2); h.set_dist(14, 7, 3.f); CHECK(!h.isEmpty()); return 0; }
'''),
dict(id='L01-vertical', property='L01', edits=[('local_planner/src/utils/trajectory_simulator.cpp',
 "    if (requested_accel.squaredNorm() > sqr(max_accel_norm)) {", "    if (requested_accel.topRows<2>().squaredNorm() > sqr(max_accel_norm)) {")],
 needs='a trajectory with a large vertical acceleration', breaks='the acceleration limit is not enforced for vertical motion',
 demo=PRE + r'''
#include "local_planner/src/utils/trajectory_simulator.cpp"
using namespace avoidance;
int main() {
  simulation_limits c; c.max_z_velocity = 6; c.min_z_velocity = -3; c.max_xy_velocity_norm = 5; c.max_acceleration_norm = 4.f; c.max_jerk_norm = 20.f;
  simulation_state s; s.time = 0; s.position = s.velocity = s.acceleration = Eigen::Vector3f::Zero(); s.velocity.z() = -3.f;
  TrajectorySimulator sim(c, s, 0.1f);
  for (auto& p : sim.generate_trajectory(Eigen::Vector3f(0, 0, 1), 4.f)) CHECK(p.acceleration.norm() <= 4.f + 1e-3f);
  return 0;
}
'''),
dict(id='L01-steps', property='L01', edits=[('local_planner/src/utils/trajectory_simulator.cpp',
 "static_cast<int>(std::ceil(simulation_duration / step_time_))", "static_cast<int>(std::lround(simulation_duration / step_time_))")],
 needs='a duration that is not a multiple of the step time, with a remainder under half a step', breaks='the trajectory ends before the requested duration',
 demo=PRE + r'''
#include "local_planner/src/utils/trajectory_simulator.cpp"
using namespace avoidance;
int main() {
  simulation_limits c; c.max_z_velocity = 6; c.min_z_velocity = -3; c.max_xy_velocity_norm = 5; c.max_acceleration_norm = 4.f; c.max_jerk_norm = 20.f;
  simulation_state s; s.time = 0; s.position = s.velocity = s.acceleration = Eigen::Vector3f::Zero();
  TrajectorySimulator sim(c, s, 0.5f);
  CHECK(sim.generate_trajectory(Eigen::Vector3f(1, 0, 0), 2.2f).size() == 5);
  return 0;
}
'''),
dict(id='A08-error-sticky', property='A08', edits=[('avoidance/include/avoidance/usm.h',
 "  if (t != Transition::REPEAT) m_currentState = chooseNextState(m_currentState, t);", "  if (t != Transition::REPEAT) {\n    StateEnum next = chooseNextState(m_currentState, t);\n    if (t != Transition::NEXT4 || next != m_currentState) m_currentState = chooseNextState(m_currentState, t);\n  }")],
 needs='a transition choice with side effects (it is consulted twice per event)', breaks='one event consults the transition choice twice, so a choice that depends on history moves to the wrong state',
 demo=PRE + r'''
#include "avoidance/usm.h"
using namespace usm;
enum class S { A, B, C };
struct M : StateMachine<S> { int n = 0; M() : StateMachine<S>(S::A) {} Transition runCurrentState() override { return Transition::NEXT1; }
  S chooseNextState(S, Transition) override { return ++n % 2 ? S::B : S::C; } };
int main() { M m; m.iterateOnce(); CHECK(m.n == 1 && m.getState() == S::B); m.iterateOnce(); CHECK(m.getState() == S::C); return 0; }
'''),
]
