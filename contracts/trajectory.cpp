// Contracts of avoidance::TrajectorySimulator (local_planner/src/utils/trajectory_simulator.cpp)
// noinline: TrajectorySimulator::simulate_step_constant_jerk\(
// noinline: TrajectorySimulator::jerk_for_velocity_setpoint\(
#include "vc.h"
#include <local_planner/include/local_planner/trajectory_simulator.h>
namespace avoidance {
static int g_k;                 // an arbitrary step
static float g_dt, g_jerk, g_amax;      // step time, jerk and acceleration limits
static simulation_state g_start;

static inline float d2(const Eigen::Vector3f& v) { return v.x() * v.x() + v.y() * v.y() + v.z() * v.z(); }
static inline bool same(const simulation_state& a, const simulation_state& b) {
  return (a.time == b.time) & (a.position.x() == b.position.x()) & (a.position.y() == b.position.y()) & (a.position.z() == b.position.z()) &
         (a.velocity.x() == b.velocity.x()) & (a.velocity.y() == b.velocity.y()) & (a.velocity.z() == b.velocity.z()) &
         (a.acceleration.x() == b.acceleration.x()) & (a.acceleration.y() == b.acceleration.y()) & (a.acceleration.z() == b.acceleration.z());
}
// b follows from a by constant jerk over a positive time of at most one step, within the jerk limit
static inline bool timing(const simulation_state& a, const simulation_state& b) { return vc::lt(a.time, b.time) & vc::le(b.time - a.time, g_dt, a.time); }
static inline bool kinematics_def(const simulation_state& a, const simulation_state& b) {
  float t = b.time - a.time;
  bool r = true;
  for (int c = 0; c < 3; c++) {
    float da = b.acceleration(c) - a.acceleration(c);
    r &= vc::eq(b.velocity(c), a.velocity(c) + t * a.acceleration(c) + 0.5f * t * da, std::fabs(a.time) * (std::fabs(da) + std::fabs(a.acceleration(c))));
    r &= vc::near(b.position(c), a.position(c) + t * a.velocity(c) + 0.5f * t * t * a.acceleration(c) + t * t * da / 6.f,
                  t * t * std::fabs(da) + VC_NATIVE(std::fabs(a.time) * (std::fabs(a.velocity(c)) + t * std::fabs(a.acceleration(c)) + t * std::fabs(da)) + t * std::fabs(a.velocity(c)) + t * t * std::fabs(a.acceleration(c))));
  }
  return r;
}
static inline bool jerk_def(const simulation_state& a, const simulation_state& b, float jmax) {
  float t = b.time - a.time;
  return vc::le(d2(b.acceleration - a.acceleration), jmax * jmax * t * t, jmax * jmax * g_dt * (g_dt + VC_NATIVE(std::fabs(a.time))));
}
// In the verifier the loop argument treats the relations as opaque predicates; traj_step and traj_jerk_bound prove that
// every step satisfies their definitions.  Natively they are their definitions.
#ifdef VC_SYM
#define STATE(s) (double)s.time, (double)s.position.x(), (double)s.position.y(), (double)s.position.z(), (double)s.velocity.x(), (double)s.velocity.y(), (double)s.velocity.z(), \
                 (double)s.acceleration.x(), (double)s.acceleration.y(), (double)s.acceleration.z()
static inline bool accel_ok(const simulation_state& b) { return vc_pred("accel", 4, (double)b.acceleration.x(), (double)b.acceleration.y(), (double)b.acceleration.z(), (double)g_amax); }
static inline bool kinematics(const simulation_state& a, const simulation_state& b) { return vc_pred("kinematics", 20, STATE(a), STATE(b)); }
static inline bool jerk_ok(const simulation_state& a, const simulation_state& b) { return vc_pred("jerk", 21, STATE(a), STATE(b), (double)g_jerk); }
#else
static inline bool accel_ok(const simulation_state& b) { return vc::le(d2(b.acceleration), g_amax * g_amax); }
static inline bool kinematics(const simulation_state& a, const simulation_state& b) { return kinematics_def(a, b); }
static inline bool jerk_ok(const simulation_state& a, const simulation_state& b) { return jerk_def(a, b, g_jerk); }
#endif
// everything claimed of step k, once it has been made
static inline bool step_ok(int k, const std::vector<simulation_state>& tp) {
  bool done = k < (long)tp.size();
  const simulation_state& prev = (k == 0 || !done) ? g_start : tp[k - 1];
  const simulation_state& cur = done ? tp[k] : g_start;
  return !done | (accel_ok(cur) & timing(prev, cur) & kinematics(prev, cur) & jerk_ok(prev, cur));
}
static inline bool vcinv_trajectory_step(int i, int n, float amax, const simulation_state& s, const std::vector<simulation_state>& tp) {
  bool r = (long)tp.size() == i;
  r &= d2(s.acceleration) <= amax * amax;
  bool first = i == 0;
  const simulation_state& last = first ? g_start : tp[i - 1];
  r &= same(s, last);
  r &= step_ok(g_k, tp);
  return r;
}
}  // namespace avoidance
#include <local_planner/src/utils/trajectory_simulator.cpp>
using namespace avoidance;

struct Sim : TrajectorySimulator {
  using TrajectorySimulator::TrajectorySimulator;
  using TrajectorySimulator::simulate_step_constant_jerk;
  using TrajectorySimulator::jerk_for_velocity_setpoint;
};
static Eigen::Vector3f vec(const char* n);
static simulation_state state(const char* n);
// contract of simulate_step_constant_jerk, proved by traj_step, traj_jerk_bound and traj_triangle
static bool step_triangle(const simulation_state& s, const Eigen::Vector3f& j, float t, const simulation_state& n, float amax) {
  float na = s.acceleration.norm(), nj = j.norm();
  return (t < 0) | !(na + t * nj <= amax) | vc::le(d2(n.acceleration), amax * amax);
}
static simulation_state c_step(const simulation_state& s, const Eigen::Vector3f& j, float t) {
  vc_assert(std::isfinite(t), "the step length is finite");
  simulation_state n = state("next");
  vc_assume(n.time == s.time + t);
  n.acceleration = s.acceleration + t * j;
  vc_assume(accel_ok(n) == (d2(n.acceleration) <= g_amax * g_amax));   // definition
  vc_assume(kinematics(s, n));
  vc_assume((d2(j) > g_jerk * g_jerk) | (t < 0) | jerk_ok(s, n));
  vc_assume(step_triangle(s, j, t, n, g_amax));
  return n;
}
static Eigen::Vector3f c_jerk(float P, float D, float m, const Eigen::Vector3f&, const simulation_state&) {
  vc_assert(std::isfinite(P) & std::isfinite(D), "controller gains are finite and not negative");
  vc_assert((P >= 0) & (D >= 0) & (m >= 0), "controller gains are finite and not negative");
  Eigen::Vector3f j = vec("jerk");
  vc_assume(d2(j) <= m * m);
  return j;
}
static Eigen::Vector3f vec(const char* n) { float x = vc::flt(n), y = vc::flt(n), z = vc::flt(n); return Eigen::Vector3f(x, y, z); }
static simulation_state state(const char* n) {
  simulation_state s;
  s.time = vc::flt("time", vc::pick(-vc::INF, 0.f), vc::pick(vc::INF, 2.f)); s.position = vec("position"); s.velocity = vec("velocity"); s.acceleration = vec("acceleration");
  return s;
}

HARNESS(traj_norm_clamp) {
  Eigen::Vector3f v = vec("v");
  float m = vc::flt("max", 0.f);
  Eigen::Vector3f r = norm_clamp<3>(v, m);
  ENSURES("a clamped vector is no longer than the limit", vc::le(r.squaredNorm(), m * m));
  bool in = v.squaredNorm() <= m * m;
  ENSURES("a vector within the limit is returned unchanged", !in || r == v);
  ENSURES("a vector beyond the limit keeps its direction and gets exactly the limit length",
          in || (vc::eq(r.squaredNorm(), m * m) && vc::eq(r.x() * v.y(), r.y() * v.x(), v.squaredNorm()) && vc::eq(r.y() * v.z(), r.z() * v.y(), v.squaredNorm()) && vc::le(0.f, r.dot(v))));
  Eigen::Vector2f w = norm_clamp<2>(Eigen::Vector2f(v.x(), v.y()), m);
  ENSURES("a clamped 2D vector is no longer than the limit", vc::le(w.squaredNorm(), m * m));
}

HARNESS(traj_step) {
  simulation_state s = state("s");
  Eigen::Vector3f j = vec("jerk");
  float t = vc::flt("dt", 0.f);
  simulation_state n = Sim::simulate_step_constant_jerk(s, j, t);
  ENSURES("the step is constant-jerk motion", kinematics_def(s, n));
  ENSURES("time advances by the step", vc::eq(n.time, s.time + t, s.time));
  for (int c = 0; c < 3; c++) {
    ENSURES("acceleration integrates the jerk", vc::eq(n.acceleration(c), s.acceleration(c) + t * j(c), t * j(c)));
    ENSURES("velocity integrates acceleration and jerk", vc::eq(n.velocity(c), s.velocity(c) + t * s.acceleration(c) + t * t * j(c) / 2.f, std::fabs(t * s.acceleration(c)) + t * t * std::fabs(j(c))));
    ENSURES("position integrates velocity, acceleration and jerk", vc::near(n.position(c), s.position(c) + t * s.velocity(c) + t * t * s.acceleration(c) / 2.f + t * t * t * j(c) / 6.f,
            std::fabs(t * s.velocity(c)) + t * t * std::fabs(s.acceleration(c)) + t * t * t * std::fabs(j(c))));
  }
}

HARNESS(traj_jerk_bound) {
  simulation_state s = state("s");
  Eigen::Vector3f j = vec("jerk");
  float t = vc::flt("dt", 0.f), m = vc::flt("jmax", 0.f);
  REQUIRES(d2(j) <= m * m);
  g_dt = t;
  simulation_state n = Sim::simulate_step_constant_jerk(s, j, t);
  ENSURES("the change of acceleration over a step is within the jerk limit", jerk_def(s, n, m));
}
HARNESS(traj_triangle) {
  simulation_state s = state("s");
  Eigen::Vector3f j = vec("jerk");
  float t = vc::flt("dt", 0.f);
  simulation_state n = Sim::simulate_step_constant_jerk(s, j, t);
  Eigen::Vector3f a = s.acceleration;
  float na = a.norm(), nj = j.norm();
  LEMMA("Lagrange identity", vc::eq(d2(a) * d2(j) - a.dot(j) * a.dot(j), sqr(a.y() * j.z() - a.z() * j.y()) + sqr(a.z() * j.x() - a.x() * j.z()) + sqr(a.x() * j.y() - a.y() * j.x())));
  LEMMA("squares", sqr(a.dot(j)) <= sqr(na * nj));
  LEMMA("Cauchy-Schwarz", a.dot(j) <= na * nj);
  LEMMA("expansion", vc::eq(d2(n.acceleration), d2(a) + 2 * t * a.dot(j) + t * t * d2(j)));
  LEMMA("scaled", t * a.dot(j) <= t * (na * nj));
  ENSURES("the new acceleration is no longer than the old one plus the step times the jerk", vc::le(d2(n.acceleration), sqr(na + t * nj)));
  float A = vc::flt("A", 0.f);
  ENSURES("(as relied on by callers)", step_triangle(s, j, t, n, A));
}

HARNESS(traj_jerk) {
  simulation_state s = state("s");
  Eigen::Vector3f vd = vec("desired");
  float P = vc::flt("P", 0.f), D = vc::flt("D", 0.f), m = vc::flt("max", 0.f);
  Eigen::Vector3f j = Sim::jerk_for_velocity_setpoint(P, D, m, vd, s);
  ENSURES("the commanded jerk respects the jerk limit", vc::le(j.squaredNorm(), m * m));
  Eigen::Vector3f pd = (vd - s.velocity) * P - s.acceleration * D;
  bool in = pd.squaredNorm() <= m * m;
  ENSURES("within the limit the jerk is the proportional-derivative command", !in || (vc::eq(j.x(), pd.x(), pd.norm()) && vc::eq(j.y(), pd.y(), pd.norm()) && vc::eq(j.z(), pd.z(), pd.norm())));
}

// whole trajectories: every number of steps
HARNESS(traj_generate) {
  simulation_limits c;
  c.max_z_velocity = vc::flt("max_z", 0.f, 100.f); c.min_z_velocity = vc::flt("min_z", -100.f, 0.f); c.max_xy_velocity_norm = vc::flt("max_xy", 0.f, 100.f);
  c.max_acceleration_norm = vc::flt("max_acc", 0.1f, 100.f); c.max_jerk_norm = vc::flt("max_jerk", 0.1f, 1000.f);
  g_start = state("start");
  float amax = std::min(2 * std::sqrt(c.max_jerk_norm), c.max_acceleration_norm);
  g_amax = amax;
  REQUIRES(d2(g_start.acceleration) <= amax * amax);
  g_dt = vc::flt("step", 0.01f, 10.f); g_jerk = c.max_jerk_norm;
  float dur = vc::flt("duration", 0.f, 1000.f);
  REQUIRES(dur <= vc::pick(1e6f, 200.f) * g_dt);
  Eigen::Vector3f goal = vec("goal");
  g_k = vc::i32("k", 0, 1000000);
  vc_replace((void*)&Sim::simulate_step_constant_jerk, (void*)&c_step);
  vc_replace((void*)&Sim::jerk_for_velocity_setpoint, (void*)&c_jerk);
  Sim sim(c, g_start, g_dt);
  std::vector<simulation_state> tp = sim.generate_trajectory(goal, dur);
  int n = (int)tp.size();
  ENSURES("the number of steps covers the requested duration", vc::le(dur, n * g_dt) && vc::lt((n - 1) * g_dt, dur));
  if (g_k < n) {
    const simulation_state& b = tp[g_k];
    const simulation_state& a = g_k == 0 ? g_start : tp[g_k - 1];
    ENSURES("time increases at every step, by at most the step time", timing(a, b));
    ENSURES("every step follows constant-jerk motion from the previous state", kinematics(a, b));
    ENSURES("every step respects the jerk limit", jerk_ok(a, b));
    ENSURES("every step respects the acceleration limit", accel_ok(b));
  }
}
