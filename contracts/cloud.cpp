// Contracts of the point-cloud cleaning in avoidance/src/common.cpp
// shadow vector
#include "common.h"
#include <pcl/point_cloud.h>
#include <pcl/point_types.h>
typedef pcl::PointXYZ PT;
static const std::vector<PT>* g_in = nullptr;   // the cloud as it came in
static long* g_rank = nullptr;                  // g_rank[t]: number of valid points before t
static bool ok(const PT& p) { return std::isfinite(p.x) & std::isfinite(p.y) & std::isfinite(p.z); }
static bool eqp(const PT& a, const PT& b) { return vc::same(a.x, b.x) & vc::same(a.y, b.y) & vc::same(a.z, b.z); }

static bool extreme(const std::vector<PT>& p, long j, int ix, float v, int c, float sgn) {
  if (j == 0) return (ix == -1) & (v == -9999.f * sgn);
  bool in = (0 <= ix) & (ix < j);
  if (!in) return false;
  const float* f = &p.data()[ix].x;
  return f[c] == v;
}
static bool vcinv_cloud_maxima(size_t i, size_t j, const std::vector<PT>& p, float xM, float yM, float zM, float xm, float ym, float zm, int ixM,
                               int iyM, int izM, int ixm, int iym, int izm) {
  const PT* a = p.data();
  const PT* in = g_in->data();
  const long* rk = g_rank;
  long n = p.size(), I = i, J = j;
  if (!((n == (long)g_in->size()) & (0 <= J) & (J <= I) & (I <= n))) return false;
  if (!(J == rk[I])) return false;
  bool todo = vc::forall(I, n, [&](long u) { return eqp(a[u], in[u]); });
  bool done = vc::forall(0, I, [&](long t) { return !ok(in[t]) || (0 <= rk[t] && rk[t] < J && eqp(a[rk[t]], in[t])); });
  bool val = vc::forall(0, J, [&](long u) { return ok(a[u]); });
  bool bnd = vc::forall(0, J, [&](long u) { return (a[u].x <= xM) & (a[u].x >= xm) & (a[u].y <= yM) & (a[u].y >= ym) & (a[u].z <= zM) & (a[u].z >= zm); });
  return todo & done & val & bnd & extreme(p, J, ixM, xM, 0, 1) & extreme(p, J, iyM, yM, 1, 1) & extreme(p, J, izM, zM, 2, 1) & extreme(p, J, ixm, xm, 0, -1) &
         extreme(p, J, iym, ym, 1, -1) & extreme(p, J, izm, zm, 2, -1);
}
#include <avoidance/src/common.cpp>
using namespace avoidance;

// a cloud of any size; coordinates are any number (within the 9999 m that the function works for), NaN or infinity
HARNESS(clean_cloud) {
  long n = vc::i64("n", 0, vc::pick(1000000, 12));
  pcl::PointCloud<PT> cloud;
  vc::fill(cloud.points, "points", "x32@0,x32@4,x32@8", n);
  cloud.width = vc::i32("width"); cloud.height = vc::i32("height"); cloud.is_dense = vc::boolean("dense");
  pcl::PointCloud<PT> in = cloud;
  g_in = &in.points;
  const PT* a = in.points.data();
  REQUIRES(vc::forall(0, n, [&](long t) { return !ok(a[t]) | ((std::fabs(a[t].x) < 9999.f) & (std::fabs(a[t].y) < 9999.f) & (std::fabs(a[t].z) < 9999.f)); }));
  long* rk = static_cast<long*>(vc_sym_array("rank", 8, "i64@0", n + 1));
  g_rank = rk;
#ifdef VC_SYM
  REQUIRES(rk[0] == 0);
  REQUIRES(vc::forall(0, n, [&](long t) { return rk[t + 1] == rk[t] + (ok(a[t]) ? 1 : 0); }));
#else
  rk[0] = 0;
  for (long t = 0; t < n; t++) rk[t + 1] = rk[t] + (ok(a[t]) ? 1 : 0);
#endif
  pcl::PointCloud<PT> mx = removeNaNAndGetMaxima(cloud);
  long m = cloud.points.size();
  const PT* b = cloud.points.data();
  ENSURES("the cleaned cloud has as many points as the input had valid ones", m == rk[n]);
  ENSURES("every point of the cleaned cloud is finite", vc::forall(0, m, [&](long u) { return ok(b[u]); }));
  ENSURES("every valid point survives, unchanged and in order", vc::forall(0, n, [&](long t) { return !ok(a[t]) || (0 <= rk[t] && rk[t] < m && eqp(b[rk[t]], a[t])); }));
  ENSURES("the cleaned cloud is described as dense and unorganised", cloud.width == (uint32_t)m && cloud.height == 1 && cloud.is_dense);
  ENSURES("an empty cleaned cloud has no extreme points", vc::implies(m == 0, mx.points.size() == 0));
  if (m > 0) {
    ENSURES("there is an extreme point for each of the six directions", mx.points.size() == 6);
    const PT* e = mx.points.data();
    for (int c = 0; c < 3; c++) {
      float hi = (&e[c].x)[c], lo = (&e[3 + c].x)[c];
      ENSURES("no point lies beyond the extreme points", vc::forall(0, m, [&](long u) { return ((&b[u].x)[c] <= hi) & ((&b[u].x)[c] >= lo); }));
    }
  }
}
