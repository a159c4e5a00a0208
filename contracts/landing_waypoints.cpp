// Contracts of the landing WaypointGenerator (safe_landing_planner/src/nodes/waypoint_generator.cpp)
// shadow vector
// strings
// noinline: avoidance::toString
// noinline: ^void std::sort<
// noinline: WaypointGenerator::(evaluatePatch|landingAreaHeightPercentile|updateSLPState|runCurrentState|runGoTo|runGoToLand|runAltitudeChange|runLoiter|runLand|runEvaluateGrid)\(
// noinline: avoidance::nextYaw\(
#include "common.h"
#include <functional>
#include <mutex>
#include <algorithm>
#include <safe_landing_planner/include/safe_landing_planner/waypoint_generator.hpp>
typedef Eigen::Vector3f V3;
typedef Eigen::Vector2i I2;
typedef avoidance::WaypointGenerator W;
typedef avoidance::SLPState S;
static const int DX[8] = {1, 1, 0, -1, -1, -1, 0, 1}, DY[8] = {0, 1, 1, 1, 0, -1, -1, -1};
#ifdef VC_SYM
static bool patch_(int x, int y) { return vc_ufi("landable patch", 0, 1, 2, (double)x, (double)y) != 0; }
#else
static W* g_w;
static bool patch_(int x, int y) { I2 c(x, y); return g_w->evaluatePatch(c); }
#endif
// none of the eight patches at distance k is landable
static bool ring_empty(int cx, int cy, int s, long k) {
  bool r = true;
  for (int j = 0; j < 8; j++) r = r & !patch_(cx + DX[j] * k - s, cy + DY[j] * k - s);
  return r;
}
static bool vcinv_patch_search(W& w, const I2& center, int& i, int& n) {
  int cx = center.x(), cy = center.y(), s = w.smoothing_land_cell_;
  return (1 <= i) & (i <= n) & !w.decision_taken_ & !w.can_land_ & vc::forall(1, i, [=](long k) { return ring_empty(cx, cy, s, k); });
}
#include <safe_landing_planner/src/nodes/waypoint_generator.cpp>
#include <avoidance/src/common.cpp>
using namespace avoidance;
static const float L = vc::pick(vc::INF, 20.f);

// what is sent to the autopilot
static int sent;
static V3 sp_pos, sp_vel;
static float sp_yaw, sp_rate;
struct G : W {
  G() {
    sent = 0;
    publishTrajectorySetpoints_ = [](const V3& p, const V3& v, float y, float r) { sent++; sp_pos = p; sp_vel = v; sp_yaw = y; sp_rate = r; };
  }
};
static I2 last_;
static int n_;
static bool c_patch(W* w, I2& c) {
  last_ = c;
  ENSURES("the patch lies inside the grid", 0 <= c.x() && 0 <= c.y() && c.x() + 2 * w->smoothing_land_cell_ < n_ && c.y() + 2 * w->smoothing_land_cell_ < n_);
  return patch_(c.x(), c.y());
}      // patch below
static float c_height(W* w, float p) { return vc_uf1("height of the landing area", p); }    // percentile below
static float c_yaw(const V3& u, const V3& v) { return vc_uf2("heading", v.x() - u.x(), v.y() - u.y()); }   // angles.cpp
static void use() {
#ifdef VC_SYM
  vc_replace_named("WaypointGenerator::evaluatePatch\\(", (void*)&c_patch);
  vc_replace_named("WaypointGenerator::landingAreaHeightPercentile\\(", (void*)&c_height);
  vc_replace_named("avoidance::nextYaw\\(", (void*)&c_yaw);
#endif
}
static float height(W& w) {
#ifdef VC_SYM
  return c_height(&w, 80.f);
#else
  return w.landingAreaHeightPercentile(80.f);
#endif
}
static void state(W& w) {
  w.grid_slp_.resize(6, 1);
  w.smoothing_land_cell_ = 1;
  w.can_land_hysteresis_matrix_.resize(6, 6); w.can_land_hysteresis_result_.resize(6, 6);
  w.mask_.resize(3, 3);
  w.initializeMask();
  for (int i = 0; i < 6; i++)
    for (int j = 0; j < 6; j++) {
      w.grid_slp_.land_(i, j) = VC_NATIVE(vc::i32("land", 0, 1)); w.grid_slp_.mean_(i, j) = VC_NATIVE(vc::flt("ground", -1, 1));
      w.can_land_hysteresis_matrix_(i, j) = VC_NATIVE(vc::flt("past", 0, 1)); w.can_land_hysteresis_result_(i, j) = VC_NATIVE(vc::i32("landable", 0, 1));
    }
  w.position_ = vc::v3("pos", -L, L);
  w.goal_ = vc::v3("goal", -L, L);
#ifndef VC_SYM
  if (vc::boolean("near")) w.goal_ = w.position_ + vc::v3("by", -2, 2);
  if (vc::boolean("low")) w.position_.z() = vc::flt("height", -8, 8);
#endif
  w.velocity_setpoint_ = V3(vc::any("vx"), vc::any("vy"), vc::any("vz"));
  w.loiter_position_ = vc::v3("hover", -L, L);
  w.yaw_setpoint_ = vc::any("yaw setpoint"); w.yaw_speed_setpoint_ = vc::any("yaw speed"); w.loiter_yaw_ = vc::any("hover yaw"); w.yaw_ = vc::flt("yaw", -4, 4);
  w.landing_radius_ = vc::flt("radius", 0.1f, 5);
  w.loiter_height_ = vc::flt("hover height", 1, 12); w.vertical_range_error_ = vc::flt("error", 0, 4); w.spiral_width_ = vc::flt("width", 1, 10);
  w.is_land_waypoint_ = vc::boolean("land"); w.decision_taken_ = vc::boolean("decided"); w.can_land_ = vc::boolean("can land"); w.explorarion_is_active_ = vc::boolean("exploring");
  w.n_explored_pattern_ = vc::i32("explored", -1, 7); w.factor_exploration_ = vc::flt("round", 1, 1000);
  w.exploration_anchor_ = vc::v3("anchor", -L, L);
  w.grid_slp_seq_ = vc::i32("seq", 0, 1000000000); w.start_seq_landing_decision_ = VC_NATIVE(w.grid_slp_seq_ - vc::i32("since", -25, 25)) + (VC_NATIVE(1) ? 0 : vc::i32("start", 0, 1000000000));
  w.state_changed_ = vc::boolean("entered");
}
static bool in_radius(const W& w, const V3& g) {
  float x = g.x() - w.position_.x(), y = g.y() - w.position_.y();
  return std::sqrt(x * x + y * y) < w.landing_radius_;
}
static bool nan3(const V3& v) { return std::isnan(v.x()) && std::isnan(v.y()) && std::isnan(v.z()); }

HARNESS(step_goto) {
  G w; use(); state(w);
  w.m_currentState = S::GOTO;
  bool exploring = w.explorarion_is_active_, taken = w.decision_taken_, can = w.can_land_;
  int np = w.n_explored_pattern_;
  float factor = w.factor_exploration_, yaw = w.yaw_setpoint_;
  V3 goal = w.goal_, vel = w.velocity_setpoint_, p = w.position_, anchor = w.exploration_anchor_;
  w.iterateOnce();
  ENSURES("the goal is sent", sent == 1 && vc::same(sp_pos, goal) && vc::same(sp_vel, vel) && vc::same(sp_rate, w.yaw_speed_setpoint_));
  ENSURES("while exploring the vehicle faces the goal", vc::same(sp_yaw, exploring ? nextYaw(p, goal) : yaw));
  ENSURES("the height of the landing area is measured", w.altitude_landing_area_percentile_ == height(w));
  float radius = exploring ? 0.5f : w.landing_radius_;
  ENSURES("exploration comes close to its goals", w.landing_radius_ == radius);
  bool in = in_radius(w, goal);
  ENSURES("above the landing goal the landing sequence starts unless decided, and in no other case", w.getState() == (in && w.is_land_waypoint_ && !taken ? S::ALTITUDE_CHANGE : S::GOTO));
  if (in && w.is_land_waypoint_ && taken && !can) {
    V3 a = exploring ? anchor : w.loiter_position_;
    int k = np + 1 == 8 ? 0 : np + 1;
    float f = np + 1 == 8 ? factor + 1 : factor, o = w.spiral_width_ * f * 2 * w.grid_slp_.getCellSize();
    ENSURES("where it cannot land the vehicle explores around the place in a growing spiral", w.explorarion_is_active_ && vc::same(w.exploration_anchor_, a) && w.n_explored_pattern_ == k && w.factor_exploration_ == f &&
            vc::eq(w.goal_.x(), a.x() + o * DX[k]) && vc::eq(w.goal_.y(), a.y() + o * DY[k]) && w.goal_.z() == a.z());
    ENSURES("at the next place the decision is taken anew", !w.decision_taken_ && nan3(w.velocity_setpoint_));
    COVER("explore");
  } else
    ENSURES("otherwise goal and decision stay", vc::same(w.goal_, goal) && w.decision_taken_ == taken && w.n_explored_pattern_ == np && w.explorarion_is_active_ == exploring);
  int a = vc::i32("i", 0, 5), b = vc::i32("j", 0, 5);
  for (int i = 0; i < 6; i++)
    for (int j = 0; j < 6; j++) if (i == a && j == b) ENSURES("the history of the cells starts anew", w.can_land_hysteresis_matrix_(i, j) == 0);
}
HARNESS(step_altitude) {
  G w; use(); state(w);
  w.m_currentState = S::ALTITUDE_CHANGE;
  float ly = w.loiter_yaw_; V3 goal = w.goal_, vel = w.velocity_setpoint_;
  bool entered = w.state_changed_;
  int start = w.start_seq_landing_decision_;
  w.iterateOnce();
  float h = std::fabs(w.position_.z() - height(w)), off = h - w.loiter_height_;
  ENSURES("the vehicle moves to the hover height at landing speed", sent == 1 && sp_vel.z() == (off < 0 ? LAND_SPEED : -LAND_SPEED) && vc::same(sp_vel.x(), vel.x()) && vc::same(sp_vel.y(), vel.y()));
  ENSURES("only the vertical speed is commanded above the goal", sp_pos.x() == goal.x() && sp_pos.y() == goal.y() && std::isnan(sp_pos.z()));
  ENSURES("the heading is that at the start", vc::same(sp_yaw, entered ? w.yaw_ : ly) && vc::same(w.loiter_yaw_, sp_yaw));
  bool there = std::fabs(off) < w.vertical_range_error_;
  ENSURES("hovering begins in the vertical range", w.getState() == (there ? S::LOITER : S::ALTITUDE_CHANGE) && w.start_seq_landing_decision_ == (there ? w.grid_slp_seq_ : start));
  COVER("altitude");
}
HARNESS(step_loiter) {
  G w; use(); state(w);
  w.m_currentState = S::LOITER;
  w.beta_ = vc::flt("history", 0, 1); w.can_land_thr_ = vc::flt("threshold", 0, 1);
  int a = vc::i32("i", 0, 5), b = vc::i32("j", 0, 5);
  float past = vc::flt("past value", 0, 1);
  int land = vc::i32("land value", 0, 1);
  for (int i = 0; i < 6; i++)
    for (int j = 0; j < 6; j++) if (i == a && j == b) w.can_land_hysteresis_matrix_(i, j) = past, w.grid_slp_.land_(i, j) = land;
  V3 lp = w.loiter_position_, goal = w.goal_;
  bool entered = w.state_changed_;
  w.iterateOnce();
  V3 at = entered ? w.position_ : lp;
  ENSURES("the vehicle hovers where hovering began", sent == 1 && vc::same(sp_pos, at) && nan3(sp_vel) && vc::same(sp_yaw, w.loiter_yaw_) && std::isnan(sp_rate) && vc::same(w.loiter_position_, at));
  ENSURES("the goal is where hovering began", vc::same(w.goal_, entered ? at : goal));
  int since = w.grid_slp_seq_ - w.start_seq_landing_decision_;
  bool more = -20 <= since && since <= 20;
  ENSURES("the grid is evaluated after twenty grids", w.getState() == (more ? S::LOITER : S::EVALUATE_GRID));
  for (int i = 0; i < 6; i++)
    for (int j = 0; j < 6; j++) if (i == a && j == b) {
      if (more) ENSURES("the history of a cell is the blend of the grids", vc::eq(w.can_land_hysteresis_matrix_(i, j), w.beta_ * past + (1 - w.beta_) * land));
      else ENSURES("a cell is landable if its history is above the threshold", w.can_land_hysteresis_result_(i, j) == (past > w.can_land_thr_ ? 1 : 0));
    }
  COVER("loiter");
}
HARNESS(step_land) {
  G w; use(); state(w);
  bool going = vc::boolean("going");
  w.m_currentState = going ? S::GOTO_LAND : S::LAND;
  V3 lp = w.loiter_position_, goal = w.goal_, vel = w.velocity_setpoint_;
  float ly = w.loiter_yaw_;
  bool entered = w.state_changed_;
  w.iterateOnce();
  if (going) {
    ENSURES("the vehicle is sent to the landing place, facing it", sent == 1 && vc::same(sp_pos, goal) && vc::same(sp_vel, vel) && vc::same(sp_yaw, nextYaw(w.position_, goal)) && vc::same(sp_rate, w.yaw_speed_setpoint_));
    ENSURES("landing begins above the landing place", w.getState() == (in_radius(w, goal) ? S::LAND : S::GOTO_LAND));
    COVER("going");
  } else {
    V3 at = entered ? w.position_ : lp;
    ENSURES("the vehicle descends at landing speed where landing began", sent == 1 && sp_pos.x() == at.x() && sp_pos.y() == at.y() && std::isnan(sp_pos.z()) && std::isnan(sp_vel.x()) && std::isnan(sp_vel.y()) && sp_vel.z() == -LAND_SPEED && vc::same(sp_yaw, entered ? w.yaw_ : ly) && std::isnan(sp_rate));
    ENSURES("landing is not given up", w.getState() == S::LAND);
    COVER("landing");
  }
  ENSURES("the goal stays", vc::same(w.goal_, goal));
}
HARNESS(step_evaluate) {
  G w; use(); state(w);
  w.m_currentState = S::EVALUATE_GRID;
  // a grid and a patch of any size that fits
  int n = vc::i32("cells", 1, vc::pick(1000, 6)), s = vc::i32("patch", 0, vc::pick(500, 1));
  REQUIRES(2 * s + 1 <= n && 2 * s + 2 <= n + n % 2);
#ifdef VC_SYM
  w.grid_slp_.land_.m_storage.m_rows = n; w.grid_slp_.land_.m_storage.m_cols = n;
#else
  g_w = &w;
  w.grid_slp_.resize(n, 1); w.can_land_hysteresis_result_.resize(n, n); w.mask_.resize(2 * s + 1, 2 * s + 1);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) w.can_land_hysteresis_result_(i, j) = vc::i32("flat", 0, 5) > 0;
#endif
  w.smoothing_land_cell_ = s; n_ = n;
#ifndef VC_SYM
  w.initializeMask();
#endif
  float cell = w.grid_slp_.cell_size_ = vc::flt("cell", 0.1f, 10);
  w.decision_taken_ = false;      // the grid is evaluated only before the decision (step_goto)
  V3 goal = w.goal_, p = w.position_, lp = w.loiter_position_;
  int c = n / 2, rings = (1 + n - (2 * s + 1)) / 2;
  w.iterateOnce();
  ENSURES("the vehicle hovers during the decision", sent == 1 && vc::same(sp_pos, lp) && nan3(sp_vel) && std::isnan(sp_rate) && vc::same(sp_yaw, w.loiter_yaw_));
  ENSURES("a decision is taken and comes close to its goal", w.decision_taken_ && w.landing_radius_ == 0.5f);
  ENSURES("the vehicle lands exactly when some patch is landable", w.getState() == (w.can_land_ ? S::GOTO_LAND : S::GOTO));
  if (w.can_land_) {
    if (patch_(c - s, c - s)) ENSURES("the patch below the vehicle is preferred", vc::same(w.goal_, goal));
    else {
#ifndef VC_SYM
      last_ = I2(std::lround((w.goal_.x() - p.x()) / cell) + c - s, std::lround((w.goal_.y() - p.y()) / cell) + c - s);
#endif
      ENSURES("the vehicle is sent to a landable patch", patch_(last_.x(), last_.y()));
      ENSURES("the vehicle is sent to the centre of the patch", vc::eq(w.goal_.x(), p.x() + (last_.x() + s - c) * cell) && vc::eq(w.goal_.y(), p.y() + (last_.y() + s - c) * cell) && w.goal_.z() == p.z() && std::isnan(w.velocity_setpoint_.z()));
      COVER("found");
    }
  } else {
    ENSURES("the patch below the vehicle is not landable", !patch_(c - s, c - s));
    long k = vc::i64("ring", 1, 600);
    if (k < rings) ENSURES("no patch of the search is landable", ring_empty(c, c, s, k));
    COVER("none");
  }
}
// the patch is round: the cells that are less than half a cell further from its centre than its radius
static void patch(int s) {
  G w;
  int n = 6, d = 2 * s + 1;
  w.smoothing_land_cell_ = s;
  w.can_land_hysteresis_result_.resize(n, n); w.mask_.resize(d, d);
  int land[6][6];
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) w.can_land_hysteresis_result_(i, j) = land[i][j] = vc::i32("land", 0, VC_NATIVE(9)) > 0 || (VC_NATIVE(1) ? false : vc::boolean("flat"));
  w.initializeMask();
  for (int x = 0; x + d <= n; x++)
    for (int y = 0; y + d <= n; y++) {
      bool want = true;
      for (int i = -s; i <= s; i++)
        for (int j = -s; j <= s; j++)
          if (4 * (i * i + j * j) < (2 * s + 1) * (2 * s + 1)) want = want & (land[x + s + i][y + s + j] == 1);
      I2 c(x, y);
      ENSURES("a patch is landable if all its cells are", w.evaluatePatch(c) == want);
    }
  COVER("patch");
}
HARNESS(patch_0) { patch(0); }
HARNESS(patch_1) { patch(1); }
HARNESS(patch_2) { patch(2); }
static void c_sort(float* a, float* b) {   // trusted contract of std::sort
  long n = b - a;
  float old[25];
  for (long i = 0; i < n; i++) old[i] = a[i];
  for (long i = 0; i < n; i++) a[i] = vc::flt("sorted");
  for (long i = 0; i + 1 < n; i++) vc_assume(a[i] <= a[i + 1]);
  for (long k = 0; k < n; k++) {
    int c = 0, e = 0;
    for (long i = 0; i < n; i++) c += a[i] == a[k], e += old[i] == a[k];
    vc_assume((c == e) & (e > 0));
  }
}
static void percentile(int s, float q) {
  G w;
  int n = 6, d = 2 * s + 1, off = n / 2;
  w.smoothing_land_cell_ = s;
  w.grid_slp_.resize(n, 1);
  float m[6][6];
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) w.grid_slp_.mean_(i, j) = m[i][j] = vc::flt("mean", -L, L);
#ifdef VC_SYM
  vc_replace_named("^void std::sort<", (void*)&c_sort);
#endif
  float h = w.landingAreaHeightPercentile(q);
  int below = 0, most = 0;
  bool one = false;
  for (int i = off - s; i <= off + s; i++)
    for (int j = off - s; j <= off + s; j++) below += m[i][j] < h, most += m[i][j] <= h, one = one | (m[i][j] == h);
  ENSURES("the height is that of a cell of the landing area", one);
  ENSURES("the height is the percentile of the heights of the landing area", below <= q / 100 * d * d + 0.5f && (most >= q / 100 * d * d - 0.5f));
  COVER("percentile");
}
HARNESS(percentile_0) { percentile(0, 80.f); }
HARNESS(percentile_1) { percentile(1, 80.f); }

static void update(int rows, int s) {
  G w; use(); state(w);
  bool pending = w.update_smoothing_size_ = vc::boolean("pending");
  w.smoothing_land_cell_ = s;
  w.grid_slp_.land_.resize(rows, rows);
  float past = w.can_land_hysteresis_matrix_(1, 2) = vc::flt("past", 0, 1);
  int land = w.can_land_hysteresis_result_(1, 2) = vc::i32("landable", 0, 1);
  bool taken = w.decision_taken_, can = w.can_land_, exploring = w.explorarion_is_active_;
  int np = w.n_explored_pattern_;
  float f = w.factor_exploration_, r = w.landing_radius_;
  w.updateSLPState();
  bool l = w.is_land_waypoint_;
  ENSURES("away from landing no decision is kept", w.decision_taken_ == (l && taken) && w.can_land_ == (!l || can) && w.explorarion_is_active_ == (l && exploring) && w.n_explored_pattern_ == (l ? np : -1) && w.factor_exploration_ == (l ? f : 1.f) && w.landing_radius_ == (l ? r : 2.f));
  ENSURES("the history is kept while landing on the same grid", w.can_land_hysteresis_matrix_(1, 2) == (l && rows == 6 ? past : 0) && w.can_land_hysteresis_result_(1, 2) == (rows == 6 ? land : 0));
  ENSURES("history and patch have the size of grid and configuration", w.can_land_hysteresis_matrix_.rows() == rows && w.can_land_hysteresis_matrix_.cols() == rows && w.can_land_hysteresis_result_.rows() == rows && w.can_land_hysteresis_result_.cols() == rows && w.mask_.rows() == 2 * s + 1 && w.mask_.cols() == 2 * s + 1 && !w.update_smoothing_size_);
  ENSURES("the patch is that of the configured size", w.mask_(s, s) == 1 && w.mask_(0, 0) == (s == 0 ? 1 : w.mask_(2 * s, 2 * s)));
}
HARNESS(update_same) { update(6, 1); }
HARNESS(update_grid) { update(4, 1); }
HARNESS(update_patch) { update(6, 0); }
HARNESS(update_both) { update(4, 2); }
HARNESS(reset) {
  G w; use(); state(w);
  w.m_currentState = static_cast<S>(vc::i32("state", 0, 5));
  w.trigger_reset_ = true;
  w.iterateOnce();
  ENSURES("a reset leads back to following the goal", w.getState() == S::GOTO && sent == 0 && !w.trigger_reset_);
}
