// Contracts of the angle arithmetic in avoidance/src/common.cpp
#include "common.h"
#include <avoidance/src/common.cpp>
using namespace avoidance;
static const float RNG = vc::pick(vc::INF, 3000.f);
static const double PI2 = 2.0f * M_PI_F;

HARNESS(wrap180) {
  float a = vc::flt("a", -RNG, RNG);
  float w = wrapAngleToPlusMinus180(a);
  ENSURES("wrapping to +-180 degrees stays within [-180,180)", vc::le(-180.f, w) && vc::lt(w, 180.f));
  ENSURES("wrapping to +-180 degrees changes the angle by whole turns", vc::multiple((double)a - w, 360.0, a));
}

HARNESS(wrapPI) {
  float a = vc::flt("a", -RNG, RNG);
  float w = wrapAngleToPlusMinusPI(a);
  ENSURES("wrapping to +-pi stays within [-pi,pi)", vc::le(-M_PI_F, w) && vc::lt(w, M_PI_F));
  ENSURES("wrapping to +-pi changes the angle by whole turns", vc::multiple((double)a - w, PI2, a));
}

HARNESS(angle_diff) {
  float a = vc::flt("a", -RNG, RNG), b = vc::flt("b", -RNG, RNG);
  float d = angleDifference(a, b);
  ENSURES("the difference of two angles is the signed shortest turn, within [-180,180)", vc::le(-180.f, d) && vc::lt(d, 180.f));
  if (a == b) ENSURES("equal angles do not differ", d == 0);
  ENSURES("the difference of two angles equals a-b up to whole turns", vc::multiple((double)(a - b) - d, 360.0, std::fabs(a) + std::fabs(b)));
}

HARNESS(index_angle_diff) {
  // both angles on the circle of the histogram
  float a = vc::flt("a", -180.f, 180.f), b = vc::flt("b", -180.f, 180.f);
  float d = indexAngleDifference(a, b);
  ENSURES("the circular distance is within [0,180]", vc::le(0.f, d) && vc::le(d, 180.f));
  ENSURES("the circular distance is |a-b| up to whole turns", vc::multiple((double)(a - b) - d, 360.0, 720) || vc::multiple((double)(a - b) + d, 360.0, 720));
  ENSURES("the circular distance is symmetric", vc::eq(d, indexAngleDifference(b, a)));
}

HARNESS(angular_velocity) {
  float want = vc::flt("desired", -vc::pick(vc::INF, 100.f), vc::pick(vc::INF, 100.f)), cur = vc::flt("current", -M_PI_F, M_PI_F);
  double v = getAngularVelocity(want, cur);
  ENSURES("the commanded yaw rate never turns more than half a turn", vc::le(std::fabs(v), 0.5 * M_PI_F));
  ENSURES("the commanded yaw rate turns toward the desired yaw", vc::multiple((double)want - cur - 2.0 * v, PI2, want));
}

HARNESS(next_yaw) {
  Eigen::Vector3f u = vc::v3("u", -vc::pick(vc::INF, 1000.f), vc::pick(vc::INF, 1000.f)), v = vc::v3("v", -vc::pick(vc::INF, 1000.f), vc::pick(vc::INF, 1000.f));
  float y = nextYaw(u, v);
  float dx = v.x() - u.x(), dy = v.y() - u.y();
  float n = std::sqrt(dx * dx + dy * dy);
  ENSURES("the yaw to the next waypoint points along the horizontal direction to it", vc::eq(n * std::cos(y), dx, n) && vc::eq(n * std::sin(y), dy, n));
  ENSURES("the yaw to the next waypoint is within [-pi,pi]", vc::le(-M_PI_F, y) && vc::le(y, M_PI_F));
}
