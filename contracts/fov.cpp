// Contracts of the camera field-of-view tests in avoidance/src/common.cpp
#include "common.h"
#include <avoidance/src/common.cpp>
using namespace avoidance;

// distance on the circle of azimuths, for angles within one turn of each other
static double circ(double a, double b) { double d = std::fabs(a - b); return d > 180.0 ? 360.0 - d : d; }
static const double EPS = VC_NATIVE(2e-3);
static FOV fov(const char* y, const char* p, const char* h, const char* v) {
  float yaw = vc::flt(y, -180.f, 180.f), pitch = vc::flt(p, -90.f, 90.f), hf = vc::flt(h, 0.f, 360.f), vf = vc::flt(v, 0.f, 180.f);
  REQUIRES(hf > vc::pick(0.f, 1.f));
  return FOV(yaw, pitch, hf, vf);
}
static PolarPoint point() { return PolarPoint(vc::flt("e", -90.f, 90.f), vc::flt("z", -180.f, 180.f), 1.f); }
static bool in_yaw(const FOV& f, const PolarPoint& p) { return circ(p.z, f.yaw_deg) <= f.h_fov_deg / 2.0; }
static bool near_edge(const FOV& f, double z) { return VC_NATIVE(std::fabs(circ(z, f.yaw_deg) - f.h_fov_deg / 2.0) <= 2e-3); }
static bool in_pitch(const FOV& f, const PolarPoint& p) { return p.e <= f.pitch_deg + f.v_fov_deg / 2.f && p.e >= f.pitch_deg - f.v_fov_deg / 2.f; }

HARNESS(fov_single) {
  FOV f = fov("yaw", "pitch", "h", "v");
  PolarPoint p = point();
  REQUIRES(!near_edge(f, p.z));
  ENSURES("a direction is inside the horizontal field of view iff its azimuth is within half the opening angle, also across +-180",
          pointInsideYawFOV(f, p) == in_yaw(f, p));
  ENSURES("a direction is inside the field of view iff azimuth and elevation both are", pointInsideFOV(f, p) == (in_yaw(f, p) && in_pitch(f, p)));
}

// lists of up to three cameras
static std::vector<FOV> cameras(int n, const PolarPoint& p) {
  std::vector<FOV> v;
  for (int i = 0; i < n; i++) {
    FOV f = fov("yaw", "pitch", "h", "v");
    REQUIRES(!near_edge(f, p.z));
    v.push_back(f);
  }
  return v;
}
static void list(int n) {
  PolarPoint p = point();
  std::vector<FOV> v = cameras(n, p);
  bool any = false, anyp = false;
  int cnt = 0, which = -1;
  for (int i = 0; i < n; i++) {
    any |= in_yaw(v[i], p);
    anyp |= in_yaw(v[i], p) && in_pitch(v[i], p);
    if (in_yaw(v[i], p)) { cnt++; which = i; }
  }
  ENSURES("a direction is visible iff some camera sees it", pointInsideFOV(v, p) == anyp);
  ENSURES("an azimuth is visible iff some camera sees it", pointInsideYawFOV(v, p) == any);
  int idx = 7;
  bool got = isInWhichFOV(v, p, idx);
  ENSURES("the camera reported for an azimuth is the only one that sees it, or none", got == (cnt == 1) && idx == (cnt == 1 ? which : -1));
}
HARNESS(fov_list0) { list(0); }
HARNESS(fov_list1) { list(1); }
HARNESS(fov_list2) { list(2); }
HARNESS(fov_list3) { list(3); }

static void edges(int n) {
  PolarPoint p = point();
  std::vector<FOV> v = cameras(n, p);
  int cnt = 0, w = 0;
  for (int i = 0; i < n; i++) if (in_yaw(v[i], p)) { cnt++; w = i; }
  int idx = 7;
  bool e = isOnEdgeOfFOV(v, p, idx);
  ENSURES("an edge is reported together with the camera it belongs to", e ? (idx == w && cnt == 1) : idx == -1);
  float s = scaleToFOV(v, p);
  ENSURES("the visibility weight is within [0,1]", vc::le(0.f, s) && vc::le(s, 1.f));
  ENSURES("the visibility weight is zero outside every camera", vc::implies(cnt == 0, s == 0.f));
  ENSURES("the visibility weight is one inside the view but away from its outer edge", vc::implies(cnt > 0 && !e, s == 1.f));
  ENSURES("towards an outer edge the weight falls linearly to zero",
          !e || vc::eq((1.0 - s) * v[w].h_fov_deg, 2.0 * circ(p.z, v[w].yaw_deg), v[w].h_fov_deg));
}
HARNESS(fov_edge1) { edges(1); }
HARNESS(fov_edge2) { edges(2); }

// with one camera, an edge is reported exactly when the direction just outside, on the direction's side, is not seen
HARNESS(fov_edge_side) {
  PolarPoint p = point();
  std::vector<FOV> v = cameras(1, p);
  REQUIRES(v[0].h_fov_deg <= 350.f);
  int idx;
  bool e = isOnEdgeOfFOV(v, p, idx);
  ENSURES("with a single camera every visible direction is on the side of an outer edge", e == in_yaw(v[0], p));
}
// a second camera adjoining on the side of the direction removes the edge
HARNESS(fov_edge_adjoin) {
  float y = vc::flt("yaw", -180.f, 180.f), h = vc::flt("h", 20.f, 120.f), off = vc::flt("off", -1.f, 1.f);
  bool right = vc::boolean("right");
  REQUIRES(off > 0.05f && off < 0.95f);
  double sgn = right ? 1.0 : -1.0;
  double d = sgn * off * h / 2;
  double nb = sgn * (h / 2 + ALPHA_RES / 2.0);
  std::vector<FOV> v;
  v.push_back(FOV(y, 0.f, h, 60.f));
  v.push_back(FOV(wrapAngleToPlusMinus180(y + nb), 0.f, 1.f, 60.f));
  PolarPoint p(0.f, wrapAngleToPlusMinus180(y + d), 1.f);
  int idx;
  ENSURES("no edge is reported where the neighbouring direction is seen by another camera", !isOnEdgeOfFOV(v, p, idx));
  PolarPoint q(0.f, wrapAngleToPlusMinus180(y - d), 1.f);
  ENSURES("the other side of the same camera still is an outer edge", isOnEdgeOfFOV(v, q, idx) && idx == 0);
  ENSURES("the weight is full on the joined side", scaleToFOV(v, p) == 1.f);
}

// the histogram bin test agrees with the direction test at the bin's borders
HARNESS(fov_bin) {
  FOV f = fov("yaw", "pitch", "h", "v");
  int idx = vc::i32("bin", 0, GRID_LENGTH_Z - 1);
  float yaw = vc::flt("heading", -180.f, 180.f);
  Eigen::Vector3f pos = vc::v3("position", -vc::pick(1e6f, 10.f), vc::pick(1e6f, 10.f));
  // bin centre, as an azimuth in the body frame: 90 - azimuth - heading
  double c = 90.0 - (idx * (double)ALPHA_RES + ALPHA_RES / 2.0 - 180.0) - yaw;
  // elevation of the bins of the horizontal row, as the conversions (contracts in polar.cpp) give it
  float e = cartesianToPolarFCU(polarHistogramToCartesian(histogramIndexToPolar(GRID_LENGTH_E / 2, idx, ALPHA_RES, 1.f), pos), pos).e;
  PolarPoint lo(e, wrapAngleToPlusMinus180(c - ALPHA_RES / 2.0), 1.f), hi(e, wrapAngleToPlusMinus180(c + ALPHA_RES / 2.0), 1.f);
  REQUIRES(!near_edge(f, lo.z) && !near_edge(f, hi.z));
  REQUIRES(!VC_NATIVE(std::fabs(std::fabs(e - f.pitch_deg) - f.v_fov_deg / 2.f) < 1e-2));
  bool want = (in_yaw(f, lo) || in_yaw(f, hi)) && in_pitch(f, lo);
  ENSURES("a histogram column is visible iff one of its borders is", histogramIndexYawInsideFOV(f, idx, pos, yaw) == want);
  std::vector<FOV> v(1, f);
  ENSURES("a histogram column is visible to a list of cameras iff to one of them", histogramIndexYawInsideFOV(v, idx, pos, yaw) == want);
}
