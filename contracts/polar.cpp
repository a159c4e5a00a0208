// Contracts of the polar/Cartesian conversions and the histogram index in avoidance/src/common.cpp
#include "common.h"
#include <avoidance/src/common.cpp>
using namespace avoidance;
typedef Eigen::Vector3f V3;
static const float L = vc::pick(vc::INF, 200.f);
static bool vnear(const V3& a, const V3& b, double s) { return vc::eq(a.x(), b.x(), s) && vc::eq(a.y(), b.y(), s) && vc::eq(a.z(), b.z(), s); }
static double nrm(const V3& a) { return std::fabs(a.x()) + std::fabs(a.y()) + std::fabs(a.z()); }

HARNESS(wrap_polar) {
  float R = vc::pick(vc::INF, 2000.f);
  float e = vc::flt("e", -R, R), z = vc::flt("z", -R, R), r = vc::flt("r");
  PolarPoint p(e, z, r);
  wrapPolar(p);
  ENSURES("wrapped elevation is within [-90,90] and wrapped azimuth within [-180,180]",
          vc::le(-90.f, p.e) && vc::le(p.e, 90.f) && vc::le(-180.f, p.z) && vc::le(p.z, 180.f));
  bool kept = vc::multiple((double)e - p.e, 360.0, e) && vc::multiple((double)z - p.z, 360.0, z);
  bool over = vc::multiple((double)e + p.e - 180.0, 360.0, e) && vc::multiple((double)z - p.z - 180.0, 360.0, z);
  ENSURES("wrapping keeps the direction that the polar point denotes", kept || over);
  ENSURES("wrapping keeps the radius", p.r == r);
}

// histogram convention
HARNESS(to_polar_hist) {
  V3 pos = vc::v3("pos", -L, L), org = vc::v3("origin", -L, L);
  PolarPoint p = cartesianToPolarHistogram(pos, org);
  V3 d = pos - org;
  ENSURES("the polar radius is the distance between the points", vc::eq(p.r * p.r, d.dot(d), d.dot(d)) && p.r >= 0.f);
  ENSURES("elevation is within [-90,90], azimuth within [-180,180]", vc::le(-90.f, p.e) && vc::le(p.e, 90.f) && vc::le(-180.f, p.z) && vc::le(p.z, 180.f));
  V3 back = polarHistogramToCartesian(p, org);
  ENSURES("converting to polar and back returns the point", vnear(back, pos, nrm(d) + nrm(org)));
}

HARNESS(from_polar_hist) {
  float e = vc::flt("e", -90.f, 90.f), z = vc::flt("z", -180.f, 180.f), r = vc::flt("r", vc::pick(0.f, 0.5f), vc::pick(vc::INF, 100.f));
  REQUIRES(r > 0.f);
  REQUIRES(std::fabs(e) < vc::pick(90.f, 89.f));
  REQUIRES(z > -180.f && z <= vc::pick(180.f, 179.f));
  V3 org = vc::v3("origin", -vc::pick(vc::INF, 1.f), vc::pick(vc::INF, 1.f));
  V3 c = polarHistogramToCartesian(PolarPoint(e, z, r), org);
  V3 d = c - org;
  ENSURES("a polar point lies at its radius from the origin", vc::eq(d.dot(d), r * r, r * r));
  PolarPoint p = cartesianToPolarHistogram(c, org);
  ENSURES("converting from polar and back returns the radius", vc::eq(p.r, r, 10));
  ENSURES("converting from polar and back returns the angles", vc::eq(p.e, e, 50) && vc::eq(p.z, z, 50));
}

// body (FCU) convention
HARNESS(polar_fcu) {
  V3 pos = vc::v3("pos", -L, L), org = vc::v3("origin", -L, L);
  PolarPoint h = cartesianToPolarHistogram(pos, org);
  PolarPoint p = cartesianToPolarFCU(pos, org);
  ENSURES("the body-frame convention mirrors elevation and measures azimuth from the x axis",
          vc::eq(p.e, -h.e) && vc::multiple((double)p.z - 90.0 + h.z, 360.0, 720) && p.r == h.r);
  ENSURES("body-frame angles are wrapped", vc::le(-90.f, p.e) && vc::le(p.e, 90.f) && vc::le(-180.f, p.z) && vc::le(p.z, 180.f));
}

HARNESS(from_polar_fcu) {
  float e = vc::flt("e", -90.f, 90.f), z = vc::flt("z", -180.f, 180.f), r = vc::flt("r", 0.f, vc::pick(vc::INF, 100.f));
  V3 org = vc::v3("origin", -L, L);
  V3 c = polarFCUToCartesian(PolarPoint(e, z, r), org);
  V3 g = polarHistogramToCartesian(PolarPoint(e, 90.f - z, r), org);
  ENSURES("both polar conventions denote the same directions", vnear(c, g, nrm(org) + r));
}

// opts(hist_index): {'conv': True}
HARNESS(hist_index) {
  int res = vc::i32("res", 1, 180);
  REQUIRES(res == 1 || res == 2 || res == 3 || res == 6 || res == 12 || res == 30);
  float R = vc::pick(1e9f, 700.f);
  PolarPoint p(vc::flt("e", -R, R), vc::flt("z", -R, R), 1.f);
  Eigen::Vector2i ix = polarToHistogramIndex(p, res);
  ENSURES("every direction maps to a cell of the histogram", ix.x() >= 0 && ix.x() < 360 / res && ix.y() >= 0 && ix.y() < 180 / res);
  PolarPoint w = p;
  wrapPolar(w);
  double slack = VC_NATIVE(1e-3);
  bool inz = ix.x() * (double)res - 180.0 <= w.z + slack && w.z <= (ix.x() + 1) * (double)res - 180.0 + slack;
  bool ine = ix.y() * (double)res - 90.0 <= w.e + slack && w.e <= (ix.y() + 1) * (double)res - 90.0 + slack;
  ENSURES("the direction lies inside the cell it maps to", inz && ine);
}

HARNESS(index_round_trip) {
  int half = vc::i32("half", 1, 15);
  int res = 2 * half;
  REQUIRES(180 % res == 0);
  int e = vc::i32("e", 0, 179), z = vc::i32("z", 0, 359);
  REQUIRES(e < 180 / res && z < 360 / res);
  float rad = vc::flt("radius");
  PolarPoint p = histogramIndexToPolar(e, z, res, rad);
  ENSURES("a cell maps to the direction of its centre", vc::eq(p.e, (double)(e * res + half) - 90.0) && vc::eq(p.z, (double)(z * res + half) - 180.0) && p.r == rad);
  Eigen::Vector2i ix = polarToHistogramIndex(p, res);
  ENSURES("the centre of a cell maps back to the cell", ix.x() == z && ix.y() == e);
}

HARNESS(polar_distance) {
  PolarPoint a(vc::flt("e", -L, L), vc::flt("z", -L, L), vc::flt("r")), b(vc::flt("e", -L, L), vc::flt("z", -L, L), vc::flt("r"));
  float d = distance2DPolar(a, b);
  ENSURES("the angular distance is the Euclidean distance of the angle pairs", d >= 0.f && vc::eq((double)d * d, ((double)a.e - b.e) * ((double)a.e - b.e) + ((double)a.z - b.z) * ((double)a.z - b.z)));
}

HARNESS(yaw_quaternion) {
  float yaw = vc::flt("yaw", -M_PI_F, M_PI_F);
  V3 in = vc::v3("position"), out;
  Eigen::Quaternionf q;
  createPoseMsg(out, q, in, yaw);
  ENSURES("the pose keeps the waypoint position", vc::same(out, in));
  ENSURES("the pose quaternion is a pure yaw rotation", vc::eq(q.x(), 0.f) && vc::eq(q.y(), 0.f) && vc::eq(q.w() * q.w() + q.z() * q.z(), 1.f));
  float y = getYawFromQuaternion(q) * DEG_TO_RAD;
  ENSURES("the yaw of the pose is the commanded yaw", vc::eq(std::cos(y), std::cos(yaw), 1) && vc::eq(std::sin(y), std::sin(yaw), 1));
  ENSURES("the pitch of the pose is zero", vc::eq(getPitchFromQuaternion(q), 0.f, 10));
}
