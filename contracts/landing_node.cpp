// Contracts of WaypointGeneratorNode (safe_landing_planner/src/nodes/waypoint_generator_node.cpp)
// shadow vector
// strings
#include "common.h"
#include <functional>
#include <mutex>
#include <memory>
#include <safe_landing_planner/include/safe_landing_planner/grid.hpp>
#include <safe_landing_planner/SLPGridMsg.h>
typedef Eigen::Vector3f V3;
typedef safe_landing_planner::SLPGridMsg M;
// an arbitrary cell, its sent content
static int g_i, g_j, g_n;
static float g_mean;
static long g_land;
static bool cell_(const avoidance::Grid& g) { return (g.mean_(g_i, g_j) == g_mean) & (g.land_(g_i, g_j) == g_land); }
static bool vcinv_grid_rows(const avoidance::Grid& g, const M&, int i) { return (0 <= i) & (i <= g_n) & ((i <= g_i) | cell_(g)); }
static bool vcinv_grid_columns(const avoidance::Grid& g, const M&, int i, int j) { return (0 <= j) & (j <= g_n) & ((i < g_i) | ((i == g_i) & (j <= g_j)) | cell_(g)); }
namespace avoidance { class WaypointGenerator; }
static bool vcinv_patch_search(avoidance::WaypointGenerator&, const Eigen::Vector2i&, int&, int&) { return true; }   // landing_waypoints.cpp
#define nan_setpoint nan_setpoint_
#include <safe_landing_planner/src/nodes/waypoint_generator.cpp>
#undef nan_setpoint
#include <avoidance/src/common.cpp>
#define main slp_node_main
#include <safe_landing_planner/src/nodes/waypoint_generator_node.cpp>
#undef main
using namespace avoidance;
typedef WaypointGeneratorNode N;
static V3 any3(const char* n) { float x = vc::any(n), y = vc::any(n), z = vc::any(n); return V3(x, y, z); }
template <class P> static bool is(const P& p, const V3& v) { return vc::same(p.x, v.x()) & vc::same(p.y, v.y()) & vc::same(p.z, v.z()); }
static bool unused(const mavros_msgs::PositionTarget& p) {
  const float q = NAN;
  V3 v(q, q, q);
  return is(p.position, v) & is(p.velocity, v) & is(p.acceleration_or_force, v) & vc::same(p.yaw, q) & vc::same(p.yaw_rate, q);
}
static bool fin(double x) { return std::isfinite(x); }

HARNESS(setpoint) {
  N node{ros::NodeHandle()};
  V3 p = any3("p"), v = any3("v");
  float y = vc::any("yaw"), r = vc::any("rate");
  ros::Time::clock().ns = vc::i64("now", 0, 1000000000000000000);
  node.waypointGenerator_.publishTrajectorySetpoints_(p, v, y, r);     // as the generator calls it
  auto* m = static_cast<const mavros_msgs::Trajectory*>(node.trajectory_pub_.last);
  ENSURES("a setpoint is sent exactly once", node.trajectory_pub_.sent == 1);
  ENSURES("the message is stamped and in the local frame", m->header.stamp == ros::Time::now() && m->header.frame_id == "local_origin" && m->type == 0);
  ENSURES("the first point carries position, velocity, yaw and yaw rate", is(m->point_1.position, p) && is(m->point_1.velocity, v) && vc::same(m->point_1.yaw, y) && vc::same(m->point_1.yaw_rate, r));
  ENSURES("no acceleration is commanded", std::isnan(m->point_1.acceleration_or_force.x) && std::isnan(m->point_1.acceleration_or_force.y) && std::isnan(m->point_1.acceleration_or_force.z));
  ENSURES("the other points are unused", unused(m->point_2) && unused(m->point_3) && unused(m->point_4) && unused(m->point_5));
  bool xy = (fin(p.x()) && fin(p.y())) || (fin(v.x()) && fin(v.y())), z = fin(p.z()) || fin(v.z());
  ENSURES("the point is valid exactly if horizontally and vertically a position or a velocity is commanded", (bool)m->point_valid[0] == (xy && z));
  ENSURES("no other point is valid", !m->point_valid[1] && !m->point_valid[2] && !m->point_valid[3] && !m->point_valid[4]);
  for (int k = 0; k < 5; k++) ENSURES("no time horizon is given", std::isnan(m->time_horizon[k]));
}
HARNESS(flight_mode) {
  for (int k = 0; k < 3; k++) {
    N node{ros::NodeHandle()};
    auto& w = node.waypointGenerator_;
    bool land = w.is_land_waypoint_ = vc::boolean("land"), reset = w.trigger_reset_ = vc::boolean("reset");
    mavros_msgs::State s;
    s.mode = k == 0 ? "AUTO.LAND" : k == 1 ? "AUTO.MISSION" : "OFFBOARD";
    s.armed = vc::boolean("armed");
    node.stateCallback(s);
    ENSURES("the vehicle lands in land mode, in missions when the item says so, and never disarmed or in other modes", w.is_land_waypoint_ == (s.armed && (k == 0 || (k == 1 && land))));
    ENSURES("disarming and other modes reset the planner", w.trigger_reset_ == (reset || !s.armed || k == 2));
  }
}
HARNESS(trajectory) {
  N node{ros::NodeHandle()};
  auto& w = node.waypointGenerator_;
  V3 goal = w.goal_ = any3("goal"), shown = node.goal_visualization_ = any3("shown"), vel = w.velocity_setpoint_ = any3("velocity");
  bool land = w.is_land_waypoint_ = vc::boolean("land");
  float yaw = w.yaw_setpoint_ = vc::any("yaw"), rate = w.yaw_speed_setpoint_ = vc::any("rate");
  mavros_msgs::Trajectory m;
  V3 p1 = any3("p1"), v1 = any3("v1"), p2 = any3("p2");
#ifndef VC_SYM
  if (vc::boolean("repeated")) shown = node.goal_visualization_ = p2;
#endif
  float y2 = vc::any("y2"), r2 = vc::any("r2");
  m.point_1.position.x = p1.x(); m.point_1.position.y = p1.y(); m.point_1.position.z = p1.z();
  m.point_1.velocity.x = v1.x(); m.point_1.velocity.y = v1.y(); m.point_1.velocity.z = v1.z();
  m.point_2.position.x = p2.x(); m.point_2.position.y = p2.y(); m.point_2.position.z = p2.z();
  m.point_2.yaw = y2; m.point_2.yaw_rate = r2;
  bool a = vc::boolean("first"), b = vc::boolean("second");
  m.point_valid = {a, b, false, false, false};
  int cmd = vc::i32("command", 0, 65535);
#ifndef VC_SYM
  if (cmd % 2) cmd = 21;
#endif
  m.command[1] = cmd;
  node.trajectoryCallback(m);
  V3 d = p2 - shown;
  float far = std::sqrt(d.x() * d.x() + d.y() * d.y() + d.z() * d.z());
  bool open = std::isnan(goal.x()) || std::isnan(goal.y()), moved = far > 0.01 + VC_NATIVE(1e-6), still = !(far > 0.01 - VC_NATIVE(1e-6));
  if (a && (open || moved)) {
    ENSURES("a new goal of the autopilot is taken over", vc::same(w.goal_, p1) && vc::same(w.velocity_setpoint_, v1));
    ENSURES("the vehicle lands at the goal exactly if it is a land item", w.is_land_waypoint_ == (cmd == 21));
    COVER("taken");
  } else if (!a || (!open && still)) {
    ENSURES("without a new goal, goal and landing stay", vc::same(w.goal_, goal) && vc::same(w.velocity_setpoint_, vel) && w.is_land_waypoint_ == land);
    COVER("kept");
  }
  ENSURES("yaw and yaw rate are those of the next point if there is one", vc::same(w.yaw_setpoint_, b ? y2 : yaw) && vc::same(w.yaw_speed_setpoint_, b ? r2 : rate) && vc::same(node.goal_visualization_, b ? p2 : shown));
}
HARNESS(pose) {
  N node{ros::NodeHandle()};
  V3 goal = node.waypointGenerator_.goal_ = vc::v3("goal");
  geometry_msgs::PoseStamped m;
  float x = vc::any("x"), y = vc::any("y"), z = vc::any("z");
  m.pose.position.x = x; m.pose.position.y = y; m.pose.position.z = z;
  node.positionCallback(m);
  ENSURES("the vehicle is where its pose says", vc::same(node.waypointGenerator_.position_, V3(x, y, z)) && vc::same(node.waypointGenerator_.goal_, goal));
}
// a grid of any size, over a previous one of any size
HARNESS(receive_grid) {
  N node{ros::NodeHandle()};
  auto& w = node.waypointGenerator_;
  float gs = vc::flt("grid", 0.01f, 500.f), cs = vc::flt("cell", 0.01f, 500.f), g0 = vc::flt("grid before", 0.01f, 500.f), c0 = vc::flt("cell before", 0.01f, 500.f);
  REQUIRES(gs / cs <= vc::pick(4000.f, 40.f) && g0 / c0 <= vc::pick(4000.f, 40.f));
#ifndef VC_SYM
  if (vc::boolean("same")) g0 = gs, c0 = cs;
#endif
  w.grid_slp_.resize(g0, c0);
  w.position_ = vc::v3("pos", -vc::pick(vc::INF, 100), vc::pick(vc::INF, 100));
  int n = g_n = (int)std::ceil(gs / cs);
  M m;
  m.grid_size = gs; m.cell_size = cs;
  m.header.seq = vc::i32("seq", 0, 1000000000);
  m.mean.layout.dim.resize(2);
  m.mean.layout.dim[0].size = n; m.mean.layout.dim[1].size = n;
  vc::fill(m.mean.data, "mean", "f64@0", (long)n * n);
  vc::fill(m.land.data, "land", "i64@0", (long)n * n);
  g_i = vc::i32("i", 0, n - 1); g_j = vc::i32("j", 0, n - 1);
  long at = (long)g_i * n + g_j;
  REQUIRES(m.land.data[at] >= -1000000 && m.land.data[at] <= 1000000);
  g_mean = m.mean.data[at]; g_land = m.land.data[at];
  int px = vc::i32("px", 0, n - 1), py = vc::i32("py", 0, n - 1);
  m.curr_pos_index.x = px; m.curr_pos_index.y = py;
  node.gridCallback(m);
  ENSURES("the received grid has the sent size", w.grid_slp_.getGridSize() == gs && w.grid_slp_.getCellSize() == cs && w.grid_slp_.getRowColSize() == n && w.grid_slp_.land_.rows() == n && w.grid_slp_.mean_.cols() == n);
  ENSURES("every cell holds the sent height and landable flag", cell_(w.grid_slp_));
  ENSURES("sequence number and position of the vehicle in the grid are the sent ones", w.grid_slp_seq_ == (int)m.header.seq && w.pos_index_.x() == px && w.pos_index_.y() == py);
  Eigen::Vector2f lo, hi;
  w.grid_slp_.getGridLimits(lo, hi);
  ENSURES("the grid is centred on the vehicle", vc::eq(lo.x() + hi.x(), 2 * w.position_.x(), w.position_.x()) && vc::eq(lo.y() + hi.y(), 2 * w.position_.y(), w.position_.y()));
  COVER("received");
  ENSURES("the planner goes on", node.grid_received_);
}
HARNESS(configuration) {
  for (int s = 0; s < 3; s++) {
    N node{ros::NodeHandle()};
    auto& w = node.waypointGenerator_;
    bool pending = w.update_smoothing_size_ = vc::boolean("pending");
    w.mask_.resize(3, 3);
    safe_landing_planner::WaypointGeneratorNodeConfig c;
    c.beta = vc::flt("beta", 0, 1); c.can_land_thr = vc::flt("threshold", 0, 1); c.loiter_height = vc::flt("height", 0, 20);
    c.smoothing_land_cell = s;
    c.vertical_range_error = vc::flt("error", 0, 5); c.spiral_width = vc::flt("width", 0, 10);
    node.dynamicReconfigureCallback(c, 0);
    ENSURES("the configuration is taken over", w.beta_ == (float)c.beta && w.can_land_thr_ == (float)c.can_land_thr && w.loiter_height_ == (float)c.loiter_height && w.smoothing_land_cell_ == s && w.vertical_range_error_ == (float)c.vertical_range_error && w.spiral_width_ == (float)c.spiral_width);
    ENSURES("a patch of another size is rebuilt before its next use", w.update_smoothing_size_ == (pending || s != 1));
  }
}
// the patch below the vehicle is shown
static void show(int n, int s) {
  N node{ros::NodeHandle()};
  auto& w = node.waypointGenerator_;
  w.grid_slp_.resize(n, 1);
  w.smoothing_land_cell_ = s;
  w.can_land_hysteresis_matrix_.resize(n, n); w.can_land_hysteresis_result_.resize(n, n);
  w.mask_.resize(2 * s + 1, 2 * s + 1);
  int land[8][8];
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) w.can_land_hysteresis_result_(i, j) = land[i][j] = vc::i32("land", 0, 1);
  for (int i = 0; i < 2 * s + 1; i++) for (int j = 0; j < 2 * s + 1; j++) w.mask_(i, j) = 1;
  node.landingAreaVisualization();
  auto* m = static_cast<const visualization_msgs::MarkerArray*>(node.land_hysteresis_pub_.last);
  ENSURES("every cell of the patch is shown", (long)m->markers.size() == (2 * s + 1) * (2 * s + 1));
  int k = 0;
  for (int i = n / 2 - s; i <= n / 2 + s; i++)
    for (int j = n / 2 - s; j <= n / 2 + s; j++, k++)
      ENSURES("a cell is shown green exactly if it is landable", m->markers[k].color.g == (land[i][j] ? 1.f : 0.f) && m->markers[k].color.r == (land[i][j] ? 0.f : 1.f));
}
HARNESS(show_small) { show(4, 1); }
HARNESS(show_even) { show(6, 1); }
HARNESS(show_odd) { show(7, 2); }
