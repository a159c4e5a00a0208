// Contracts of avoidance::Grid (safe_landing_planner/include/safe_landing_planner/grid.hpp)
#include "vc.h"
#include <Eigen/Dense>
#define private public
#include <safe_landing_planner/include/safe_landing_planner/grid.hpp>
using namespace avoidance;

static Eigen::Vector2i index(const char* a, const char* b, int n) { return Eigen::Vector2i(vc::i32(a, 0, n - 1), vc::i32(b, 0, n - 1)); }

static bool dims(const Grid& g) {
  int n = g.getRowColSize();
  return (g.mean_.rows() == n) & (g.mean_.cols() == n) & (g.variance_.rows() == n) & (g.variance_.cols() == n) & (g.counter_.rows() == n) &
         (g.counter_.cols() == n) & (g.land_.rows() == n) & (g.land_.cols() == n);
}
// a grid of any size starts out, and after resize/reset is again, completely zero
HARNESS(grid_resize) {
  float g = vc::flt("grid", 0.01f, 500.f), c = vc::flt("cell", 0.01f, 500.f);
  REQUIRES(g / c <= vc::pick(4000.f, 40.f));
  Grid grid(g, c);
  int n = grid.getRowColSize();
  ENSURES("the number of cells per side covers the grid", vc::le(g, n * c) && vc::lt((n - 1) * c, g));
  ENSURES("every layer has that many rows and columns", dims(grid));
  ENSURES("grid and cell size are the configured ones", grid.getGridSize() == g && grid.getCellSize() == c);
  Eigen::Vector2i i = index("i", "j", n);
  ENSURES("every cell of a new grid is zero", grid.getMean(i) == 0.f && grid.getVariance(i) == 0.f && grid.getCounter(i) == 0 && grid.land_(i.x(), i.y()) == 0);
}

HARNESS(grid_resize_again) {
  Grid grid(10.f, 1.f);
  Eigen::Vector2i w = index("wi", "wj", 10);
  grid.setMean(w, vc::flt("m")); grid.setVariance(w, vc::flt("v")); grid.setCounter(w, vc::i32("cnt"));
  float g = vc::flt("grid", 0.01f, 500.f), c = vc::flt("cell", 0.01f, 500.f);
  REQUIRES(g / c <= vc::pick(4000.f, 40.f));
  grid.resize(g, c);
  int n = grid.getRowColSize();
  ENSURES("after resize the number of cells per side covers the new grid", vc::le(g, n * c) && vc::lt((n - 1) * c, g));
  ENSURES("after resize every layer has that many rows and columns", dims(grid));
  ENSURES("after resize grid and cell size are the new ones", grid.getGridSize() == g && grid.getCellSize() == c);
  Eigen::Vector2i i = index("i", "j", n);
  ENSURES("every cell of a resized grid is zero", grid.getMean(i) == 0.f && grid.getVariance(i) == 0.f && grid.getCounter(i) == 0 && grid.land_(i.x(), i.y()) == 0);
}

HARNESS(grid_limits) {
  float g = vc::flt("grid", 0.5f, 100.f);
  Grid grid(g, g / 2.f);
  Eigen::Vector3f p(vc::flt("x"), vc::flt("y"), vc::flt("z"));
  grid.setFilterLimits(p);
  Eigen::Vector2f lo, hi;
  grid.getGridLimits(lo, hi);
  for (int k = 0; k < 2; k++) {
    ENSURES("the limits are centred on the vehicle", vc::eq(lo(k) + hi(k), 2.f * p(k), p(k)));
    ENSURES("the limits are one grid size apart", vc::eq(hi(k) - lo(k), g, p(k)));
  }
}

// a grid of any size with arbitrary content
static void arbitrary(Grid& grid, const char* m, const char* v, const char* c, const char* l) {
  long n = (long)grid.getRowColSize() * grid.getRowColSize();
  vc_havoc_array(m, grid.mean_.data(), 4, "f32@0", n);
  vc_havoc_array(v, grid.variance_.data(), 4, "f32@0", n);
  vc_havoc_array(c, grid.counter_.data(), 4, "i32@0", n);
  vc_havoc_array(l, grid.land_.data(), 4, "i32@0", n);
}

HARNESS(grid_reset) {
  float g = vc::flt("grid", 0.01f, 500.f), c = vc::flt("cell", 0.01f, 500.f);
  REQUIRES(g / c <= vc::pick(4000.f, 40.f));
  Grid grid(g, c);
  int n = grid.getRowColSize();
  arbitrary(grid, "mean", "var", "cnt", "land");
  grid.reset();
  Eigen::Vector2i i = index("i", "j", n);
  ENSURES("reset clears mean, variance, counter and landable flag of every cell", grid.getMean(i) == 0.f && grid.getVariance(i) == 0.f && grid.getCounter(i) == 0 && grid.land_(i.x(), i.y()) == 0);
  ENSURES("reset keeps the dimensions", grid.getRowColSize() == n && grid.getGridSize() == g && grid.getCellSize() == c && dims(grid));
}

// frame of the setters
HARNESS(grid_setters) {
  float g = vc::flt("grid", 0.01f, 500.f), cs = vc::flt("cell", 0.01f, 500.f);
  REQUIRES(g / cs <= vc::pick(4000.f, 40.f));
  Grid grid(g, cs);
  int n = grid.getRowColSize();
  arbitrary(grid, "mean", "var", "cnt", "land");
  Eigen::Vector2i a = index("ai", "aj", n), b = index("bi", "bj", n);
  float m0 = grid.getMean(b), v0 = grid.getVariance(b); int c0 = grid.getCounter(b);
  float m = vc::flt("m"), v = vc::flt("v"); int c = vc::i32("c", 0, 2000000000);
  bool same = a == b;
  grid.setMean(a, m);
  ENSURES("setMean writes exactly the mean of one cell", grid.getMean(a) == m && (same || grid.getMean(b) == m0) && grid.getVariance(b) == v0 && grid.getCounter(b) == c0);
  grid.setVariance(a, v);
  ENSURES("setVariance writes exactly the variance of one cell", grid.getVariance(a) == v && (same || grid.getVariance(b) == v0) && grid.getMean(a) == m && grid.getCounter(b) == c0);
  grid.setCounter(a, c);
  ENSURES("setCounter writes exactly the counter of one cell", grid.getCounter(a) == c && (same || grid.getCounter(b) == c0) && grid.getMean(a) == m && grid.getVariance(a) == v);
  grid.increaseCounter(a);
  ENSURES("increaseCounter adds one to exactly one cell", grid.getCounter(a) == c + 1 && (same || grid.getCounter(b) == c0) && grid.getMean(a) == m && grid.getVariance(a) == v);
  ENSURES("the matrix views agree with the cells", grid.getMean()(a.x(), a.y()) == m && grid.getVariance()(a.x(), a.y()) == v && grid.getCounter()(a.x(), a.y()) == c + 1);
}

// weighted average of the previous and the new grid
HARNESS(grid_combine) {
  float g = vc::flt("grid", 0.01f, 500.f), c = vc::flt("cell", 0.01f, 500.f);
  REQUIRES(g / c <= vc::pick(4000.f, 40.f));
  Grid cur(g, c), prev(g, c);
  int n = cur.getRowColSize();
  arbitrary(cur, "cm", "cv", "cc", "cl");
  arbitrary(prev, "pm", "pv", "pc", "pl");
  Eigen::Vector2i k = index("i", "j", n);
  float cm = cur.getMean(k), cv = cur.getVariance(k), pm = prev.getMean(k), pv = prev.getVariance(k);
  int cc = cur.getCounter(k), pc = prev.getCounter(k);
  float alpha = vc::flt("alpha", 0.f, 1.f);
  cur.combine(prev, alpha);
  ENSURES("combined mean is the alpha-weighted average of previous and new mean", vc::eq(cur.getMean(k), alpha * pm + (1.f - alpha) * cm, std::fabs(pm) + std::fabs(cm)));
  ENSURES("combined variance is the alpha-weighted average of previous and new variance", vc::eq(cur.getVariance(k), alpha * pv + (1.f - alpha) * cv, std::fabs(pv) + std::fabs(cv)));
  ENSURES("combining keeps the counters, the size and the previous grid", cur.getCounter(k) == cc && cur.getRowColSize() == n && dims(cur) && dims(prev) && prev.getMean(k) == pm && prev.getVariance(k) == pv && prev.getCounter(k) == pc);
}
