// Contracts of SafeLandingPlanner (safe_landing_planner/src/nodes/safe_landing_planner.cpp)
// shadow vector
// noinline: SafeLandingPlanner::computeOnlineMeanVariance\(
// noinline: SafeLandingPlanner::computeGridIndexes\(
// noinline: SafeLandingPlanner::isInsideGrid\(
#include "common.h"
#include <mutex>
#include <pcl/point_cloud.h>
#include <pcl/point_types.h>
#include <safe_landing_planner/include/safe_landing_planner/grid.hpp>
typedef Eigen::Vector3f V3;
typedef Eigen::Vector2i I2;
static I2 g_cell;                          // an arbitrary cell
static const long* g_cnt = nullptr;        // statistics of the cell after the first k points
static const float *g_mean = nullptr, *g_var = nullptr;
static bool vcinv_bin_points(avoidance::Grid& g, const pcl::PointCloud<pcl::PointXYZI>& shown) {
  long k = vc_iteration();
  return k < 0 || ((0 <= (long)shown.points.size()) & ((long)shown.points.size() <= k) & (0 <= g_cnt[k]) & (g_cnt[k] <= k) & (g.counter_(g_cell.x(), g_cell.y()) == g_cnt[k]) & (g.mean_(g_cell.x(), g_cell.y()) == g_mean[k]) & (g.variance_(g_cell.x(), g_cell.y()) == g_var[k]));
}
#include <safe_landing_planner/src/nodes/safe_landing_planner.cpp>
#include <avoidance/src/common.cpp>
using namespace avoidance;
typedef SafeLandingPlanner P;

HARNESS(cell_statistics) {
  P p;
  // n values with the sum s and the sum of squares q, then one more
  float n = vc::i32("n", 1, vc::pick(100000000, 1000)), m = vc::flt("mean", -vc::pick(vc::INF, 20), vc::pick(vc::INF, 20)), v = vc::flt("variance", 0, vc::pick(vc::INF, 20)), x = vc::flt("x", -vc::pick(vc::INF, 20), vc::pick(vc::INF, 20));
  double s = (double)m * n, q = ((double)v + (double)m * m) * n;
  std::pair<float, float> r = p.computeOnlineMeanVariance(m, v, x, n + 1);
  double z = VC_NATIVE(100 * n);
  ENSURES("the mean of a cell is the mean of its points", vc::eq(r.first * (n + 1), s + x, z));
  ENSURES("the variance of a cell is the variance of its points", vc::eq(((double)r.second + (double)r.first * r.first) * (n + 1), q + (double)x * x, z * 40));
  ENSURES("the variance of a cell is not negative", r.second >= VC_NATIVE(-1e-3));
  std::pair<float, float> f = p.computeOnlineMeanVariance(m, v, x, 1);
  ENSURES("a single point is its own mean and has no variance", f.first == x && vc::eq(f.second, 0, VC_NATIVE(x * x + std::fabs(x * m))));
}
HARNESS(cell_index) {
  P p;
  float gs = vc::flt("grid", 1.f, 20.f), cs = vc::flt("cell", 0.1f, 10.f);
  p.grid_.resize(gs, cs);
  V3 pos = vc::v3("pos", -vc::pick(1e6f, 2000), vc::pick(1e6f, 2000));
  p.grid_.setFilterLimits(pos);
  int n = p.grid_.getRowColSize();
  float x = vc::flt("x", -vc::pick(1e6f, 2000), vc::pick(1e6f, 2000)), y = vc::flt("y", -vc::pick(1e6f, 2000), vc::pick(1e6f, 2000));
#ifndef VC_SYM
  // at and next to the border
  int where = vc::i32("where", 0, 4);
  if (where == 1) x = std::nextafter(p.grid_.corner_max_.x(), -1e9f);
  if (where == 2) y = std::nextafter(p.grid_.corner_max_.y(), -1e9f);
  if (where == 3) x = pos.x() + vc::flt("dx", -10, 10), y = pos.y() + vc::flt("dy", -10, 10);
#endif
  bool in = p.isInsideGrid(x, y);
  ENSURES("a point is inside the grid if it is less than half the size of the grid away on both axes",
          in == (x < p.grid_.corner_max_.x() && x > p.grid_.corner_min_.x() && y < p.grid_.corner_max_.y() && y > p.grid_.corner_min_.y()));
  ENSURES("the grid is centred on the vehicle", vc::eq(p.grid_.corner_max_.x() - pos.x(), gs / 2, pos.x()) && vc::eq(pos.y() - p.grid_.corner_min_.y(), gs / 2, pos.y()));
  I2 i = p.computeGridIndexes(x, y);
  ENSURES("a point maps to a cell of the grid", 0 <= i.x() && i.x() < n && 0 <= i.y() && i.y() < n);
  if (in) {
    float a = p.grid_.corner_min_.x() + i.x() * cs, b = p.grid_.corner_min_.y() + i.y() * cs;
    ENSURES("a point inside the grid lies in the cell that it is counted in", vc::le(a, x, x) && vc::le(x, a + cs, x) && vc::le(b, y, y) && vc::le(y, b + cs, y));
    COVER("inside");
  }
}
static bool c_inside(P*, float x, float y) { return vc_ufi("inside", 0, 1, 2, (double)x, (double)y) != 0; }
static I2 c_index(P*, float x, float y) { return I2(vc_ufi("row", 0, 9, 2, (double)x, (double)y), vc_ufi("column", 0, 9, 2, (double)x, (double)y)); }
static std::pair<float, float> c_stat(P*, float m, float v, float x, float n) { return std::pair<float, float>(vc_uf4("mean", m, v, x, n), vc_uf4("variance", m, v, x, n)); }

// a cloud of any size over the grid of 10 by 10 cells
HARNESS(bin_points) {
  P p;
  long n = vc::i64("n", 0, vc::pick(1000000, 12));
  vc::fill(p.cloud_.points, "points", "x32@0,x32@4,x32@8", n);
  const pcl::PointXYZ* c = p.cloud_.points.data();
  p.position_ = vc::v3("pos", -vc::pick(vc::INF, 9), vc::pick(vc::INF, 9));
  g_cell = I2(vc::i32("i", 0, 9), vc::i32("j", 0, 9));
  for (int i = 0; i < 10; i++)
    for (int j = 0; j < 10; j++) {   // what the cells held before
      p.previous_grid_.setMean(I2(i, j), vc::flt("mean"));
      p.previous_grid_.setVariance(I2(i, j), vc::flt("variance"));
      p.previous_grid_.setCounter(I2(i, j), 7);
    }
  float was = p.grid_.getMean(g_cell);
  long* cnt = static_cast<long*>(vc_sym_array("cnt", 8, "i64@0", n + 1));
  float* mean = static_cast<float*>(vc_sym_array("mean", 4, "f32@0", n + 1));
  float* var = static_cast<float*>(vc_sym_array("var", 4, "f32@0", n + 1));
  g_cnt = cnt; g_mean = mean; g_var = var;
#ifdef VC_SYM
  vc_replace_named("SafeLandingPlanner::isInsideGrid\\(", (void*)&c_inside);
  vc_replace_named("SafeLandingPlanner::computeGridIndexes\\(", (void*)&c_index);
  vc_replace_named("SafeLandingPlanner::computeOnlineMeanVariance\\(", (void*)&c_stat);
#else
  p.previous_grid_.setFilterLimits(p.position_);
  std::swap(p.previous_grid_, p.grid_);
#endif
  auto hit = [&](long k) {
    bool valid = (c[k].x == c[k].x) & (c[k].y == c[k].y) & (c[k].z == c[k].z);
    I2 i = p.computeGridIndexes(c[k].x, c[k].y);
    return valid & p.isInsideGrid(c[k].x, c[k].y) & (i.x() == g_cell.x()) & (i.y() == g_cell.y());
  };
#ifdef VC_SYM
  REQUIRES(cnt[0] == 0 && mean[0] == 0 && var[0] == 0);
  REQUIRES(vc::forall(0, n, [&](long k) {
    std::pair<float, float> s = c_stat(nullptr, mean[k], var[k], c[k].z, (float)(cnt[k] + 1));
    return hit(k) ? (cnt[k + 1] == cnt[k] + 1) & (mean[k + 1] == s.first) & (var[k + 1] == s.second)
                  : (cnt[k + 1] == cnt[k]) & (mean[k + 1] == mean[k]) & (var[k + 1] == var[k]);
  }));
#else
  cnt[0] = 0; mean[0] = var[0] = 0;
  for (long k = 0; k < n; k++) {
    std::pair<float, float> s = p.computeOnlineMeanVariance(mean[k], var[k], c[k].z, (float)(cnt[k] + 1));
    bool h = hit(k);
    cnt[k + 1] = cnt[k] + h; mean[k + 1] = h ? s.first : mean[k]; var[k + 1] = h ? s.second : var[k];
  }
  std::swap(p.previous_grid_, p.grid_);
#endif
  p.processPointcloud();
  ENSURES("a cell counts the valid points that fall in it, from zero", p.grid_.getCounter(g_cell) == cnt[n]);
  ENSURES("the statistics of a cell are those of the points that fall in it", vc::same(p.grid_.getMean(g_cell), mean[n]) && vc::same(p.grid_.getVariance(g_cell), var[n]));
  ENSURES("the grid of the previous cloud is kept for the low pass filter", p.previous_grid_.getMean(g_cell) == was);
}

// the decision per cell, on a grid of n by n cells with a smoothing kernel of 2p+1 by 2p+1 cells
static void decide(int n, int p) {
  P s;
  s.grid_.resize(n, 1.f);
  float mean[6][6], var[6][6]; int cnt[6][6];
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) {
      s.grid_.setMean(I2(i, j), mean[i][j] = vc::flt("mean", -vc::pick(vc::INF, 1), vc::pick(vc::INF, 1)));
      s.grid_.setVariance(I2(i, j), var[i][j] = vc::flt("variance", 0, vc::pick(vc::INF, 1)));
      s.grid_.setCounter(I2(i, j), cnt[i][j] = vc::i32("count", 0, vc::pick(1000000, 40)));
    }
  s.n_points_thr_ = vc::flt("min points", 0, vc::pick(5000, 10)); s.std_dev_thr_ = vc::flt("max deviation", 0, 1); s.mean_diff_thr_ = vc::flt("max difference", 0, 1);
  s.max_n_mean_diff_cells_ = vc::i32("max differing cells", 0, 100); s.min_n_land_cells_ = vc::i32("min flat cells", 0, 100);
#ifndef VC_SYM
  if (p > 0) { s.min_n_land_cells_ %= 2 * p * p + 2 * p; s.max_n_mean_diff_cells_ %= (2 * p + 1) * (2 * p + 1); }
#endif
  s.n_lines_padding_ = p;
  s.position_ = V3(0, 0, 0);
  s.grid_.setFilterLimits(s.position_);
  s.isLandingPossible();
  int a = vc::i32("i", 0, n - 1), b = vc::i32("j", 0, n - 1);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) {
      auto flat = [&](int x, int y) { return (cnt[x][y] >= s.n_points_thr_) & (sqrtf(var[x][y]) <= s.std_dev_thr_); };
      bool want = flat(i, j);
      if (p > 0) {
        int flats = 0, differ = 0;
        for (int x = i - p; x <= i + p; x++)
          for (int y = j - p; y <= j + p; y++) {
            bool in = (0 <= x) & (x < n) & (0 <= y) & (y < n);
            if (in) flats += flat(x, y) ? 1 : 0;
            float d = mean[i][j] - (in ? mean[x][y] : 0.f);   // beyond the grid the ground is taken to be at zero
            differ += (d > s.mean_diff_thr_) | (-d > s.mean_diff_thr_) ? 1 : 0;
          }
        want = (flats > s.min_n_land_cells_) & (differ <= s.max_n_mean_diff_cells_);
      }
      if (i == a && j == b) ENSURES("a cell is landable if it is dense and flat, and so are enough cells around it at a similar height", s.grid_.land_(i, j) == (want ? 1 : 0));
    }
  COVER("decided");
}
HARNESS(decide_plain) { decide(3, vc::i32("padding", -1, 0)); }
HARNESS(decide_smooth_1) { decide(3, 1); }
HARNESS(decide_smooth_2) { decide(3, 2); }
HARNESS(position_cell) {
  P s;
  s.position_ = vc::v3("pos", -vc::pick(1e6f, 2000), vc::pick(1e6f, 2000));
  s.grid_.setFilterLimits(s.position_);
  s.n_lines_padding_ = 0;
  s.isLandingPossible();
  ENSURES("the vehicle is above the middle of the grid", s.pos_index_.x() >= 4 && s.pos_index_.x() <= 5 && s.pos_index_.y() >= 4 && s.pos_index_.y() <= 5);
}

HARNESS(reconfigure) {
  P s;
  safe_landing_planner::SafeLandingPlannerNodeConfig c;
  c.n_points_threshold = vc::flt("points", 0, 5000); c.std_dev_threshold = vc::flt("deviation", 0, 1); c.smoothing_size = vc::i32("smoothing", -1, 100);
  c.mean_diff_thr = vc::flt("difference", 0, 1); c.max_n_mean_diff_cells = vc::i32("differing", 0, 100); c.grid_size = vc::flt("grid", 1, 20);
  c.cell_size = vc::flt("cell", 0.1f, 10); c.alpha = vc::flt("alpha", 0, 1); c.timeout_critical = vc::flt("critical", 0, 10);
  c.timeout_termination = vc::flt("termination", 0, 1000); c.min_n_land_cells = vc::i32("flat", 0, 100);
  s.n_lines_padding_ = vc::i32("padding", -1, 100);
  s.size_update_ = vc::boolean("pending");
  s.dynamicReconfigureSetParams(c, 0);
  ENSURES("every parameter takes the configured value", s.n_points_thr_ == c.n_points_threshold && s.std_dev_thr_ == c.std_dev_threshold && s.smoothing_size_ == c.smoothing_size &&
          s.mean_diff_thr_ == c.mean_diff_thr && s.max_n_mean_diff_cells_ == c.max_n_mean_diff_cells && s.grid_size_ == c.grid_size && s.cell_size_ == c.cell_size &&
          s.alpha_ == c.alpha && s.timeout_critical_ == c.timeout_critical && s.timeout_termination_ == c.timeout_termination && s.min_n_land_cells_ == c.min_n_land_cells);
  bool same = s.grid_.getGridSize() == s.grid_size_ && s.grid_.getCellSize() == s.cell_size_ && s.n_lines_padding_ == s.smoothing_size_;
  ENSURES("the grid is rebuilt exactly when its size or the smoothing differs from the configuration", s.size_update_ == !same);
}
// one run on a grid of 2 by 2 cells, without points
static void run_empty(bool update, I2 i) {
  P s;
  s.size_update_ = update;
  if (!update) { s.grid_.resize(2, 1); s.previous_grid_.resize(2, 1); s.n_lines_padding_ = 0; }
  s.grid_size_ = 2; s.cell_size_ = 1; s.smoothing_size_ = 0;
  s.alpha_ = vc::flt("alpha", 0, 1);
  s.position_ = vc::v3("pos", -vc::pick(1e6f, 100), vc::pick(1e6f, 100));
  float m = vc::flt("mean"), v = vc::flt("variance", 0);
  if (!update) { s.grid_.setMean(i, m); s.grid_.setVariance(i, v); s.grid_.setCounter(i, 9); }
  s.runSafeLandingPlanner();
  ENSURES("a pending change of size is carried out for both grids", !s.size_update_ && s.grid_.getRowColSize() == 2 && s.previous_grid_.getRowColSize() == 2 && s.n_lines_padding_ == 0);
  ENSURES("mean and variance are low pass filtered with the previous grid", vc::eq(s.grid_.getMean(i), update ? 0.f : s.alpha_ * m) && vc::eq(s.grid_.getVariance(i), update ? 0.f : s.alpha_ * v));
  ENSURES("the count is that of the new cloud alone", s.grid_.getCounter(i) == 0);
}
HARNESS(run_filter) { for (int c = 0; c < 4; c++) run_empty(false, I2(c / 2, c % 2)); }
HARNESS(run_resize) { run_empty(true, I2(1, 0)); }
// a recorded grid of 2 by 2 cells
static void recorded(bool other, I2 i) {
  P s;
  s.grid_.resize(other ? 10 : 2, 1); s.previous_grid_.resize(other ? 10 : 2, 1);
  s.play_rosbag_ = true; s.n_lines_padding_ = 0;
  s.alpha_ = vc::flt("alpha", 0, 1);
  s.position_ = vc::v3("pos", -vc::pick(1e6f, 100), vc::pick(1e6f, 100));
  auto& r = s.raw_grid_;
  r.grid_size = 2; r.cell_size = 1;
  r.mean.layout.dim.resize(2); r.std_dev.layout.dim.resize(2); r.counter.layout.dim.resize(2);
  for (int k = 0; k < 2; k++) r.mean.layout.dim[k].size = r.std_dev.layout.dim[k].size = r.counter.layout.dim[k].size = 2;
  r.mean.data.resize(4); r.std_dev.data.resize(4); r.counter.data.resize(4);
  float old = vc::flt("old mean");
  for (int k = 0; k < 4; k++) { r.mean.data[k] = vc::flt("mean"); r.std_dev.data[k] = vc::flt("deviation", 0); r.counter.data[k] = vc::i32("count", 0, 100000); }
  s.grid_.setMean(i, old);
  s.runSafeLandingPlanner();
  float m = r.mean.data[2 * i.x() + i.y()], d = r.std_dev.data[2 * i.x() + i.y()];
  ENSURES("both grids take the size of the recorded one", s.grid_.getRowColSize() == 2 && s.previous_grid_.getRowColSize() == 2);
  ENSURES("the cells take the recorded values, filtered with the previous grid", vc::eq(s.grid_.getMean(i), (1 - s.alpha_) * m + (other ? 0.f : s.alpha_ * old)) && vc::eq(s.grid_.getVariance(i), (1 - s.alpha_) * d * d) && s.grid_.getCounter(i) == r.counter.data[2 * i.x() + i.y()]);
  ENSURES("the grid is centred on the vehicle", vc::eq(s.grid_.corner_min_.x(), s.position_.x() - 1) && vc::eq(s.grid_.corner_max_.y(), s.position_.y() + 1));
}
HARNESS(recorded_same) { for (int c = 0; c < 4; c++) recorded(false, I2(c / 2, c % 2)); }
HARNESS(recorded_other) { for (int c = 0; c < 4; c++) recorded(true, I2(c / 2, c % 2)); }
