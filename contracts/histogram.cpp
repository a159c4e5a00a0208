// Contracts of avoidance::Histogram (avoidance/src/histogram.cpp, avoidance/include/avoidance/histogram.h)
#include "vc.h"
#include <stdexcept>
#include <avoidance/src/histogram.cpp>
using namespace avoidance;

static int wrapi(int x, int n) { int r = x % n; return r < 0 ? r + n : r; }
static const int E = GRID_LENGTH_E, Z = GRID_LENGTH_Z;

// every cell holds an arbitrary value
static void arbitrary(Histogram& h, int e, int z) {
  for (int i = 0; i < e; i++)
    for (int j = 0; j < z; j++) h.set_dist(i, j, vc::flt("cell"));
}

// frame of one write, for every (wrapped) read index
HARNESS(hist_get_set) {
  Histogram h(ALPHA_RES);
  int e1 = vc::i32("e1", 0, E - 1), z1 = vc::i32("z1", 0, Z - 1);
  int e2 = vc::i32("e2", 0, E - 1), z2 = vc::i32("z2", 0, Z - 1);
  float v1 = vc::flt("v1"), v2 = vc::flt("v2");
  h.set_dist(e1, z1, v1);
  h.set_dist(e2, z2, v2);
  int x = vc::i32("x"), y = vc::i32("y");
  float got = h.get_dist(x, y);
  int xe = wrapi(x, E), yz = wrapi(y, Z);
  float want = (xe == e2 && yz == z2) ? v2 : (xe == e1 && yz == z1) ? v1 : 0.f;
  ENSURES("reading any index returns the cell of the wrapped index; cells not written keep their value", got == want);
}

// same at half resolution
HARNESS(hist_get_set_half) {
  Histogram h(2 * ALPHA_RES);
  int e1 = vc::i32("e1", 0, E / 2 - 1), z1 = vc::i32("z1", 0, Z / 2 - 1);
  float v1 = vc::flt("v1");
  h.set_dist(e1, z1, v1);
  int x = vc::i32("x"), y = vc::i32("y");
  float got = h.get_dist(x, y);
  float want = (wrapi(x, E / 2) == e1 && wrapi(y, Z / 2) == z1) ? v1 : 0.f;
  ENSURES("half resolution: reading any index returns the cell of the wrapped index", got == want);
}

// opts(hist_upsample): {'unroll': 64}
HARNESS(hist_upsample) {
  Histogram low(2 * ALPHA_RES);
  arbitrary(low, E / 2, Z / 2);
  Histogram h(low);
  h.upsample();
  for (int i = 0; i < E; i++)
    for (int j = 0; j < Z; j++) {
      float want = low.get_dist(i / 2, j / 2);
      ENSURES("upsample: every cell equals the coarse cell that contains it", h.get_dist(i, j) == want);
      ENSURES("upsample: the result wraps around at full resolution", h.get_dist(i - E, j + Z) == want);
    }
}

// opts(hist_downsample): {'unroll': 64}
HARNESS(hist_downsample) {
  Histogram fine(ALPHA_RES);
  arbitrary(fine, E, Z);
  Histogram h(fine);
  h.downsample();
  for (int i = 0; i < E / 2; i++)
    for (int j = 0; j < Z / 2; j++) {
      float a = fine.get_dist(2 * i, 2 * j), b = fine.get_dist(2 * i + 1, 2 * j), c = fine.get_dist(2 * i, 2 * j + 1),
            d = fine.get_dist(2 * i + 1, 2 * j + 1);
      float s = std::fabs(a) + std::fabs(b) + std::fabs(c) + std::fabs(d);
      ENSURES("downsample: every coarse cell is the mean of its four cells", vc::eq(4.f * h.get_dist(i, j), (a + b) + (c + d), s));
      ENSURES("downsample: the result wraps around at half resolution", h.get_dist(i + E / 2, j - Z / 2) == h.get_dist(i, j));
    }
}

// opts(hist_up_down): {'unroll': 64}
HARNESS(hist_up_down) {
  Histogram low(2 * ALPHA_RES);
  arbitrary(low, E / 2, Z / 2);
  Histogram h(low);
  h.upsample();
  h.downsample();
  for (int i = 0; i < E / 2; i++)
    for (int j = 0; j < Z / 2; j++)
      ENSURES("upsample followed by downsample restores the histogram", vc::eq(h.get_dist(i, j), low.get_dist(i, j)));
}

// opts(hist_is_empty): {'unroll': 64}
HARNESS(hist_is_empty) {
  Histogram h(ALPHA_RES);
  ENSURES("a new histogram is empty", h.isEmpty());
  arbitrary(h, E, Z);
  bool all = true;
  for (int i = 0; i < E; i++)
    for (int j = 0; j < Z; j++) all &= !(h.get_dist(i, j) > FLT_MIN);
  ENSURES("empty exactly when no cell exceeds the smallest positive distance", h.isEmpty() == all);
  h.setZero();
  ENSURES("setZero empties the histogram", h.isEmpty());
  int x = vc::i32("x"), y = vc::i32("y");
  ENSURES("setZero clears every cell", h.get_dist(x, y) == 0.f);
}

// opts(hist_is_empty_half): {'unroll': 64}
HARNESS(hist_is_empty_half) {
  Histogram h(2 * ALPHA_RES);
  arbitrary(h, E / 2, Z / 2);
  bool all = true;
  for (int i = 0; i < E / 2; i++)
    for (int j = 0; j < Z / 2; j++) all &= !(h.get_dist(i, j) > FLT_MIN);
  ENSURES("at half resolution: empty exactly when no cell exceeds the smallest positive distance", h.isEmpty() == all);
}

// opts(hist_throws): {'unroll': 200}
HARNESS(hist_throws) {
  for (int res = 6; res <= 36; res += 6) {
    Histogram h(res);
    float v = vc::flt("v");
    h.set_dist(1, 2, v);
    bool up = false, down = false;
    if (res != 2 * ALPHA_RES) {
      try { h.upsample(); } catch (const std::logic_error&) { up = true; }
      ENSURES("upsample is rejected unless the histogram has half resolution", up);
    }
    if (res != ALPHA_RES) {
      try { h.downsample(); } catch (const std::logic_error&) { down = true; }
      ENSURES("downsample is rejected unless the histogram has full resolution", down);
    }
    if (res != 2 * ALPHA_RES && res != ALPHA_RES) {
      ENSURES("a rejected call leaves the histogram unchanged",
              h.get_dist(1, 2) == v && h.get_dist(1 + 180 / res, 2 - 360 / res) == v);
    }
  }
}
