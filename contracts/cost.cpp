// Contracts of costFunction in local_planner/src/nodes/planner_functions.cpp
// noinline: avoidance::angleDifference\(
#include "common.h"
#include <queue>
#include <numeric>
#include <mutex>
#include <chrono>
#include <local_planner/src/nodes/planner_functions.cpp>
#include <avoidance/src/common.cpp>
#include <avoidance/src/histogram.cpp>
using namespace avoidance;
typedef Eigen::Vector3f V3;
static const float L = vc::pick(vc::INF, 50.f);
static costParameters params() {
  costParameters p;
  p.yaw_cost_param = vc::flt("yaw cost", 0, vc::pick(vc::INF, 20));
  p.pitch_cost_param = vc::flt("pitch cost", 0, vc::pick(vc::INF, 30));
  p.velocity_cost_param = vc::flt("velocity cost", 0, vc::pick(vc::INF, 20));
  p.obstacle_cost_param = vc::flt("obstacle cost", 0, vc::pick(vc::INF, 30));
  return p;
}
// lemmas
HARNESS(lemma_square) {
  float k = vc::flt("k", 0), x = vc::flt("x"), y = vc::flt("y");
  if (std::fabs(x) <= std::fabs(y)) ENSURES("weighted squares are ordered as the magnitudes", vc::le(k * x * x, k * y * y));
  if (x >= 0) ENSURES("a weight keeps the sign", k * x >= 0);
  ENSURES("a weighted square is not negative", k * x * x >= 0);
}
HARNESS(lemma_projection) {
#ifdef VC_SYM
  V3 v = vc::v3("v"), d = vc::v3("d"), x = v.cross(d);
  REQUIRES(d.dot(d) == 1);
  STEP("Lagrange identity", v.dot(d) * v.dot(d) + x.dot(x) == v.dot(v) * d.dot(d));
  STEP("squares are not negative", x.dot(x) >= 0);
  float s = v.norm(), t = v.dot(d);
  STEP("squared length", s * s == v.dot(v) && t * t <= v.dot(v));
  ENSURES("the component of a vector in a direction is at most its length", t <= s);
#endif
}
// contract of angleDifference, proved in angles.cpp: a function of the two angles, within [-180,180), zero for equal ones
static float c_diff(float a, float b) {
  float d = vc_uf2("angle difference", a, b);
  vc_assume((-180.f <= d) & (d < 180.f));
  vc_assume((a != b) | (d == 0));
  return d;
}
static void use() {
#ifdef VC_SYM
  vc_replace((void*)&angleDifference, (void*)&c_diff);
#endif
}
static bool fin(double x) { return (x == x) & (std::fabs(x) < INFINITY); }

HARNESS(cost_obstacle) {
  costParameters p = params();
  PolarPoint c(vc::flt("e", -90, 90), vc::flt("z", -180, 180), 1.f);
  V3 goal = vc::v3("goal", -L, L), pos = vc::v3("pos", -L, L), vel = vc::v3("vel", -L, L), line = vc::v3("line", -L, L);
  bool facing = vc::boolean("facing");
  float o1 = vc::flt("obstacle", vc::pick(-vc::INF, -5), L), o2 = vc::flt("nearer obstacle", vc::pick(-vc::INF, -5), L);
  auto a = costFunction(c, o1, goal, pos, vel, p, line, facing);
  auto b = costFunction(c, o2, goal, pos, vel, p, line, facing);
  ENSURES("the obstacle cost is a number between 0 and 10000", 0 <= a.first && vc::le(a.first, 10000));
  if (o1 <= 0) ENSURES("a direction without an obstacle has no obstacle cost", a.first == 0);
  if (o1 == p.obstacle_cost_param && o1 > 0) ENSURES("an obstacle at the distance of the obstacle parameter costs 5000", a.first == 5000);
  if (0 < o2 && o2 <= o1) ENSURES("a nearer obstacle never costs less", b.first >= a.first);
  if (0 < o2 && o2 < p.obstacle_cost_param && p.obstacle_cost_param < o1) ENSURES("the obstacle parameter separates cheap from expensive obstacles", vc::le(5000, b.first) && vc::le(a.first, 5000));
  ENSURES("the obstacle does not influence the other costs", vc::same(a.second, b.second));
}
static void heading(bool facing) {
  use();
  costParameters p = params();
  PolarPoint c(vc::flt("e", -90, 90), vc::flt("z", -180, 180), 1.f);
  V3 goal = vc::v3("goal", -L, L), pos = vc::v3("pos", -L, L), vel = vc::v3("vel", -L, L), line = vc::v3("line", -L, L);
  float o = vc::flt("obstacle", 0, L);
  auto a = costFunction(c, o, goal, pos, vel, p, line, facing);
  PolarPoint g = cartesianToPolarHistogram(goal, pos), l = cartesianToPolarHistogram(line, pos);
  float dg = angleDifference(c.z, g.z), dl = angleDifference(c.z, l.z), dist = (goal - pos).norm();
  V3 dir = polarHistogramToCartesian(c, V3(0, 0, 0));
  STEP("a direction is a unit vector", dir.dot(dir) == 1);
  STEP("normalising it changes nothing", dir.normalized() == dir);
  V3 unit = dir.normalized();
  STEP("nor does it change its length", unit.dot(unit) == 1);
  INSTANCE(unit.dot(vel) <= vel.norm());
  STEP("the scale of the altitude cost is positive", std::max(0.2f * dist, 1e-3f) * std::max(0.2f * dist, 1e-3f) > 0);
  INSTANCE(p.yaw_cost_param * dg * dg >= 0 && p.yaw_cost_param * dl * dl >= 0 && p.pitch_cost_param * (c.e - g.e) * (c.e - g.e) >= 0);
  INSTANCE(p.velocity_cost_param * (vel.norm() - unit.dot(vel)) >= 0);
  float yaw = facing ? p.yaw_cost_param * dg * dg : 0.5f * p.yaw_cost_param * (dg * dg + dl * dl);
  float away = p.velocity_cost_param * (vel.norm() - dir.dot(vel));
  float pitch = p.pitch_cost_param * (c.e - g.e) * (c.e - g.e);
  ENSURES("the cost of a direction is finite, also at the goal", fin(a.first) && fin(a.second));
  ENSURES("the cost of a direction is not negative", a.second >= VC_NATIVE(-1e-3 * (1 + p.velocity_cost_param * vel.norm())));
  if (dist >= 5.f) ENSURES("far from the goal the cost is that of turning, of climbing and of changing the velocity", vc::eq(a.second, yaw + pitch + away, 1 + yaw + pitch + std::fabs(away)));
  if (dist < 5.f && dist > 0.1f)
    ENSURES("near the goal leaving its altitude costs more the nearer it is", vc::eq((a.second - yaw - away) * (0.2f * dist) * (0.2f * dist), pitch, 1 + yaw + pitch + std::fabs(away)));
  if (vel == V3(0, 0, 0) && c.z == g.z && c.z == l.z && c.e == g.e) ENSURES("the direction to the goal costs nothing", a.second == 0);
  COVER("evaluated");
}
static void order(bool facing) {
  use();
  costParameters p = params();
  PolarPoint c(vc::flt("e", -90, 90), vc::flt("z", -180, 180), 1.f), d(vc::flt("e2", -90, 90), vc::flt("z2", -180, 180), 1.f);
  V3 goal = vc::v3("goal", -L, L), pos = vc::v3("pos", -L, L), line = vc::v3("line", -L, L), rest(0, 0, 0);
  PolarPoint g = cartesianToPolarHistogram(goal, pos), l = cartesianToPolarHistogram(line, pos);
  auto a = costFunction(c, 0.f, goal, pos, rest, p, line, facing);
  auto b = costFunction(d, 0.f, goal, pos, rest, p, line, facing);
  bool yaw = std::fabs(angleDifference(c.z, g.z)) <= std::fabs(angleDifference(d.z, g.z));
  bool to_line = facing | (std::fabs(angleDifference(c.z, l.z)) <= std::fabs(angleDifference(d.z, l.z)));
  bool pitch = std::fabs(c.e - g.e) <= std::fabs(d.e - g.e);
  INSTANCE(!yaw || p.yaw_cost_param * angleDifference(c.z, g.z) * angleDifference(c.z, g.z) <= p.yaw_cost_param * angleDifference(d.z, g.z) * angleDifference(d.z, g.z));
  INSTANCE(!to_line || facing || p.yaw_cost_param * angleDifference(c.z, l.z) * angleDifference(c.z, l.z) <= p.yaw_cost_param * angleDifference(d.z, l.z) * angleDifference(d.z, l.z));
  INSTANCE(!pitch || p.pitch_cost_param * (c.e - g.e) * (c.e - g.e) <= p.pitch_cost_param * (d.e - g.e) * (d.e - g.e));
  if (yaw && to_line && pitch) ENSURES("a direction that is closer to the goal in every respect never costs more", a.second <= b.second);
}
// with and without an obstacle between the vehicle and the goal
HARNESS(cost_facing) { heading(true); }
HARNESS(cost_clear) { heading(false); }
HARNESS(order_facing) { order(true); }
HARNESS(order_clear) { order(false); }
