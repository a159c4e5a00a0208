// Contracts of getSetpointFromPath in local_planner/src/nodes/planner_functions.cpp
// shadow vector
#include "common.h"
#include <queue>
#include <numeric>
#include <mutex>
#include <chrono>
typedef Eigen::Vector3f V3;
static const double* g_len = nullptr;    // g_len[k]: length of the path from its second node (path[n-2]) to path[k]
static const double* g_seg = nullptr;    // g_seg[k]: length of the segment from path[k+1] to path[k]
static double g_s;                       // distance travelled
static bool vcinv_setpoint_path(const std::vector<V3>& path, int i, float left, const V3& seg, const V3& sp) {
  long n = path.size();
  if (!((1 <= i) & (i <= n - 3))) return false;
  const V3 &a = path.data()[i], &b = path.data()[i + 1];
  bool r = vc::eq(left, g_s - g_len[i + 1], g_s);
  float d = (a - b).norm();
  V3 on = b + (left / d) * (a - b);
  auto component = [&](int c) __attribute__((always_inline)) {
    return (seg(c) == a(c) - b(c)) & ((d == 0) | vc::eq(sp(c), on(c), VC_NATIVE(g_s + std::fabs(b(c)))));
  };
  // instances of the definitions of g_seg and g_len
  r &= (g_seg[i] == d) & (g_len[i] == g_len[i + 1] + g_seg[i]) & (g_seg[i - 1] == (path.data()[i - 1] - a).norm()) & (g_len[i - 1] == g_len[i] + g_seg[i - 1]);
  return r & component(0) & component(1) & component(2);
}
#include <local_planner/src/nodes/planner_functions.cpp>
#include <avoidance/src/common.cpp>
#include <avoidance/src/histogram.cpp>
using namespace avoidance;

// opts(path_setpoint): {'ufsqrt': True}
HARNESS(path_setpoint) {
  long n = vc::i64("n", 3, vc::pick(1000000, 8));
  std::vector<V3> path;
  vc::fill(path, "path", "f32@0,f32@4,f32@8", n);
  const V3* p = path.data();
  double* len = static_cast<double*>(vc_sym_array("len", 8, "f64@0", n));
  double* seg = static_cast<double*>(vc_sym_array("seg", 8, "f64@0", n));
#ifdef VC_SYM
  REQUIRES(len[n - 2] == 0);
  REQUIRES(vc::forall(0, n - 1, [&](long k) {
    return seg[k] == (p[k] - p[k + 1]).norm();
  }));
  REQUIRES(vc::forall(0, n - 2, [&](long k) { return len[k] == len[k + 1] + seg[k]; }));
#else
  for (auto& v : path) v = v.cwiseMax(-50.f).cwiseMin(50.f);
  for (long k = 0; k + 1 < n; k++) seg[k] = (path[k] - path[k + 1]).norm();
  len[n - 2] = 0;
  for (long k = n - 3; k >= 0; k--) len[k] = len[k + 1] + seg[k];
#endif
  g_len = len; g_seg = seg;
  float v = vc::flt("velocity", 0, vc::pick(vc::INF, 20));
  ros::Time t0 = ros::Time::nsec_(vc::i64("generated", 0, 1000000000000)), t1 = ros::Time::nsec_(t0.ns + vc::i64("elapsed", 0, 20000000000));
  g_s = (double)v * (1e-9 * (double)(t1.ns - t0.ns));
  V3 sp = vc::v3("sp");
  bool ok = getSetpointFromPath(path, t0, v, t1, sp);
  long k = vc::i64("k", 0, vc::pick(1000000, 8));
  REQUIRES(k <= n - 3);
#ifdef VC_SYM
  // instances
  REQUIRES(seg[n - 3] == (p[n - 3] - p[n - 2]).norm() && len[n - 3] == seg[n - 3]);
  REQUIRES(seg[k] == (p[k] - p[k + 1]).norm() && len[k] == len[k + 1] + seg[k]);
  // path_monotone proves the induction step of both
  REQUIRES(vc::forall(0, k + 1, [&](long j) { return len[j] >= len[k]; }));
  REQUIRES(vc::forall(0, k + 2, [&](long j) { return len[j] >= len[k + 1]; }));
  REQUIRES(vc::forall(k, n - 1, [&](long j) { return len[j] <= len[k]; }));
  REQUIRES(vc::forall(k + 1, n - 1, [&](long j) { return len[j] <= len[k + 1]; }));
#endif
#ifndef VC_SYM
  for (k = n - 3; k > 0 && !(g_s < len[k]);) k--;
  double m = 1e-4 + 1e-4 * g_s;
  REQUIRES(std::fabs(g_s - len[k]) > m && std::fabs(g_s - len[k + 1]) > m && seg[k] > 1e-3);
#endif
  if (len[k + 1] <= g_s && g_s < len[k]) {
    ENSURES("a setpoint is found while the distance travelled is less than the length of the path", ok);
    float d = (p[k] - p[k + 1]).norm();
    V3 on = p[k + 1] + ((float)(g_s - len[k + 1]) / d) * (p[k] - p[k + 1]);
    for (int c = 0; c < 3; c++)
      ENSURES("the setpoint lies on the path, at the distance travelled", vc::eq(sp(c), on(c), VC_NATIVE(g_s + std::fabs(p[k](c)))));
    COVER("on the path");
  }
#ifdef VC_SYM
  REQUIRES(vc::forall(0, n - 1, [&](long j) { return len[j] <= len[0]; }));
#endif
  if (g_s >= len[0]) ENSURES("no setpoint is found past the end of the path", !ok);
}
HARNESS(path_monotone) {
  float x[9];
  for (int c = 0; c < 9; c++) x[c] = vc::flt("x");
  V3 a(x[0], x[1], x[2]), b(x[3], x[4], x[5]);
  double at_j = vc::flt("length at j", 0), at_k = vc::flt("length at k", 0);
  double before = at_j + (a - b).norm();   // the length at the node before j
  if (at_j >= at_k) ENSURES("the length of the path does not decrease towards its end", before >= at_k);
  if (before <= at_k) ENSURES("the length of the path does not increase away from its end", at_j <= at_k);
}
HARNESS(path_short) {
  std::vector<V3> path;
  long n = vc::i64("n", 0, 2);
  vc::fill(path, "path", "f32@0,f32@4,f32@8", n);
  V3 sp = vc::v3("sp"), old = sp;
  bool ok = getSetpointFromPath(path, ros::Time::nsec_(vc::i64("generated", 0, 1000000000000)), vc::flt("velocity"), ros::Time::nsec_(vc::i64("now", 0, 1000000000000)), sp);
  if (n < 2) ENSURES("a path of fewer than two nodes gives no setpoint", !ok && sp == old);
  else ENSURES("a path of one segment gives its end", ok && sp == path.data()[0]);
}
