// Contracts of generateNewHistogram in local_planner/src/nodes/planner_functions.cpp
// shadow vector
// noinline: avoidance::cartesianToPolarHistogram\(
// noinline: avoidance::polarToHistogramIndex\(
#include "common.h"
#include <queue>
#include <numeric>
#include <mutex>
#include <chrono>
#include <avoidance/histogram.h>
typedef Eigen::Vector3f V3;
static int g_e, g_z;                       // an arbitrary cell
static const long* g_cnt = nullptr;        // g_cnt[k]: number of points before k that fall in the cell
static const double* g_sum = nullptr;      // g_sum[k]: sum of their distances
static long g_n;                           // number of points that fall in the cell, and the sum of their distances
static double g_total;
static bool vcinv_new_histogram(const avoidance::Histogram& h, const Eigen::MatrixXi& counter) {
  long k = vc_iteration();
  return k < 0 || ((0 <= g_cnt[k]) & (g_cnt[k] <= k) & (counter(g_e, g_z) == g_cnt[k]) & (h.get_dist(g_e, g_z) == g_sum[k]));
}
static bool vcinv_mean_distance(const avoidance::Histogram& h, const Eigen::MatrixXi& counter, int e, int z) {
  bool done = (g_e < e) | ((g_e == e) & (g_z < z));
  float d = h.get_dist(g_e, g_z);
  return (counter(g_e, g_z) == g_n) & (done ? ((g_n > 0) ? d == (float)(g_total / g_n) : d == 0.f) : d == g_total);
}
#include <local_planner/src/nodes/planner_functions.cpp>
#include <avoidance/src/common.cpp>
#include <avoidance/src/histogram.cpp>
using namespace avoidance;

// contracts of the conversions, proved in polar.cpp: functions of their arguments, the index within the histogram
static PolarPoint c_polar(float x, float y, float z, const V3& o) {
  float a = x - o.x(), b = y - o.y(), c = z - o.z();
  return PolarPoint(vc_uf3("elevation", a, b, c), vc_uf3("azimuth", a, b, c), vc_uf3("distance", a, b, c));
}
static Eigen::Vector2i c_index(const PolarPoint& p, int res) {
  bool coarse = res == ALPHA_RES;
  return Eigen::Vector2i(vc_ufi(coarse ? "column" : "fine column", 0, 360 / res - 1, 2, (double)p.e, (double)p.z),
                         vc_ufi(coarse ? "row" : "fine row", 0, 180 / res - 1, 2, (double)p.e, (double)p.z));
}
// opts(new_histogram): {'unroll': 64}
HARNESS(new_histogram) {
  long n = vc::i64("n", 0, vc::pick(1000000, 12));
  pcl::PointCloud<pcl::PointXYZI> cloud;
  vc::fill(cloud.points, "points", "f32@0,f32@4,f32@8,f32@16", n);
  const pcl::PointXYZI* p = cloud.points.data();
  V3 pos = vc::v3("pos");
  g_e = vc::i32("e", 0, GRID_LENGTH_E - 1); g_z = vc::i32("z", 0, GRID_LENGTH_Z - 1);
  long* cnt = static_cast<long*>(vc_sym_array("cnt", 8, "i64@0", n + 1));
  double* sum = static_cast<double*>(vc_sym_array("sum", 8, "f64@0", n + 1));
  g_cnt = cnt; g_sum = sum;
  auto in_cell = [&](long k) {
    Eigen::Vector2i i = polarToHistogramIndex(cartesianToPolarHistogram(toEigen(p[k]), pos), ALPHA_RES);
    return (i.y() == g_e) & (i.x() == g_z);
  };
#ifdef VC_SYM
  vc_replace((void*)static_cast<PolarPoint (*)(float, float, float, const V3&)>(&cartesianToPolarHistogram), (void*)&c_polar);
  vc_replace((void*)&polarToHistogramIndex, (void*)&c_index);
  REQUIRES(cnt[0] == 0 && sum[0] == 0);
  REQUIRES(vc::forall(0, n, [&](long k) {
    return (cnt[k + 1] == cnt[k] + (in_cell(k) ? 1 : 0)) & (sum[k + 1] == sum[k] + (in_cell(k) ? cartesianToPolarHistogram(toEigen(p[k]), pos).r : 0.f));
  }));
#else
  cnt[0] = 0; sum[0] = 0;
  for (long k = 0; k < n; k++) {
    cnt[k + 1] = cnt[k] + in_cell(k);
    sum[k + 1] = sum[k] + (in_cell(k) ? cartesianToPolarHistogram(toEigen(p[k]), pos).r : 0.f);
  }
#endif
  g_n = cnt[n]; g_total = sum[n];
  Histogram h(ALPHA_RES);
  generateNewHistogram(h, cloud, pos);
  float d = h.get_dist(g_e, g_z);
  if (cnt[n] > 0) {
    ENSURES("a cell that points fall in holds their mean distance", vc::eq(d, sum[n] / cnt[n], sum[n]));
    COVER("points in the cell");
  } else {
    ENSURES("a cell that no point falls in is empty", d == 0.f);
  }
}
