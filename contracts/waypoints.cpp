// Contracts of WaypointGenerator (local_planner/src/nodes/waypoint_generator.cpp)
// noinline: WaypointGenerator::(getPathMsg|isAltitudeChange|nextSmoothYaw|adaptSpeed|smoothWaypoint|runTryPath|runAltitudeChange|runLoiter|runDirect|runCurrentState)\(
// noinline: avoidance::toString
// noinline: avoidance::(getSetpointFromPath|scaleToFOV|cartesianToPolarFCU|nextYaw|createPoseMsg)\(
// strings
#include "common.h"
#include <queue>
#include <numeric>
#include <mutex>
#include <chrono>
#include <local_planner/src/nodes/waypoint_generator.cpp>
#include <local_planner/src/nodes/planner_functions.cpp>
#include <avoidance/src/common.cpp>
#include <avoidance/src/histogram.cpp>
using namespace avoidance;
typedef Eigen::Vector3f V3;
typedef WaypointGenerator W;
typedef PlannerState S;
static const float L = vc::pick(vc::INF, 20.f);
static ros::Time now_;
struct G : W { ros::Time getSystemTime() override { return now_; } };

// contracts of the functions called, proved where noted
static int calls_msg;
static W* seen;
static waypointResult at_msg;       // the waypoint when the message was made
static void c_msg(W* w) { calls_msg++; seen = w; at_msg.goto_position = w->output_.goto_position; at_msg.linear_velocity_wp = w->output_.linear_velocity_wp; }
static bool on_path;
static V3 path_point;
static bool c_path(const std::vector<V3>&, const ros::Time&, float, const ros::Time&, V3& sp) { sp = path_point; return on_path; }   // path_setpoint.cpp
static bool climb;
static bool c_climb(W*) { return climb; }                                                        // altitude_change below
static float c_vis(const std::vector<FOV>&, const PolarPoint& p) { float v = vc_uf2("visibility", p.e, p.z); vc_assume((0 <= v) & (v <= 1)); return v; }   // fov.cpp
static PolarPoint c_fcu(const V3& p, const V3& o) { return PolarPoint(vc_uf3("elevation", p.x() - o.x(), p.y() - o.y(), p.z() - o.z()), vc_uf2("azimuth", p.x() - o.x(), p.y() - o.y()), 1.f); }   // polar.cpp
static float c_yaw(const V3& u, const V3& v) { return vc_uf2("heading", v.x() - u.x(), v.y() - u.y()); }   // angles.cpp

static void pose(W& w) {
  w.position_ = vc::v3("pos", -L, L);
  w.velocity_ = vc::v3("vel", -L, L);
  w.goal_ = vc::v3("goal", -L, L);
  w.curr_yaw_rad_ = vc::flt("yaw", -4, 4);
  w.curr_pitch_deg_ = vc::flt("pitch", -90, 90);
}
static NavigationState nav(const char* n) { return static_cast<NavigationState>(vc::i32(n, 0, static_cast<int>(NavigationState::none))); }

// one step of the machine from any state
static void step(S s0, bool with_path) {
  G w;
  pose(w);
#ifdef VC_SYM
  vc_replace_named("WaypointGenerator::getPathMsg\\(", (void*)&c_msg);
  vc_replace_named("avoidance::getSetpointFromPath\\(", (void*)&c_path);
  vc_replace_named("WaypointGenerator::isAltitudeChange\\(", (void*)&c_climb);
#endif
  calls_msg = 0;
  on_path = with_path; climb = vc::boolean("climb");
  path_point = vc::v3("path", -L, L);
  w.m_currentState = s0;
  w.loiter_ = vc::boolean("hover");
  w.trigger_reset_ = vc::boolean("reset");
  bool entered = vc::boolean("entered");
  w.state_changed_ = entered;
  w.nav_state_ = nav("mode");
  w.is_airborne_ = vc::boolean("airborne");
  w.auto_land_ = vc::boolean("landing");
  w.desired_vel_ = vc::v3("desired", -L, L);
  w.hover_position_ = V3(vc::any("hx"), vc::any("hy"), vc::any("hz"));
  w.change_altitude_pos_ = V3(vc::any("cx"), vc::any("cy"), vc::any("cz"));
  V3 hover = w.hover_position_, goal = w.goal_, p = w.position_, held = w.change_altitude_pos_;
  w.output_.goto_position = vc::v3("old");
  V3 old = w.output_.goto_position;
  bool reset = w.trigger_reset_;
#ifndef VC_SYM
  // the waypoint is read after the step; while landing nothing is adapted after it was chosen
  w.auto_land_ = true;
  w.is_land_waypoint_ = vc::boolean("land"); w.is_takeoff_waypoint_ = vc::boolean("takeoff");
  bool reached = w.reach_altitude_offboard_ = vc::boolean("reached");
  if (with_path) w.planner_info_.path_node_positions = {path_point, V3(0, 0, 0)};
  on_path = with_path; if (!on_path) path_point = p;
  climb = w.isAltitudeChange();
  w.auto_land_ = true; w.reach_altitude_offboard_ = reached;
#endif
  w.iterateOnce();
#ifndef VC_SYM
  calls_msg = !reset; seen = &w; at_msg = w.output_;
#endif
  S s1 = w.getState();
  V3 g = at_msg.goto_position;
  if (reset) {
    ENSURES("a reset makes the vehicle hover", s1 == S::LOITER);
    ENSURES("a reset makes no waypoint", calls_msg == 0);
    ENSURES("a reset is done once", !w.trigger_reset_);
    COVER("reset");
    return;
  }
  ENSURES("every step makes one waypoint", calls_msg == 1 && seen == &w);
  ENSURES("entering a state is seen by its first step only", w.state_changed_ == (s1 != s0));
  V3 d = goal - p;
  float n = d.norm();
  if (s0 == S::TRY_PATH) {
    ENSURES("following the path ends when hovering or climbing is due or the path has run out", s1 == (w.loiter_ ? S::LOITER : climb ? S::ALTITUDE_CHANGE : on_path ? S::TRY_PATH : S::DIRECT));
    V3 e = path_point - p;
    float m = e.norm();
    if (m > 0) ENSURES("the vehicle is sent one metre towards the point on the path", vc::eq((g - p).x() * m, e.x(), m) && vc::eq((g - p).y() * m, e.y(), m) && vc::eq((g - p).z() * m, e.z(), m));
    else ENSURES("at the point on the path the vehicle stays", vc::same(g, p));
    COVER("path");
  }
  if (s0 == S::DIRECT) {
    ENSURES("flying directly ends when there is a path or climbing or hovering is due", s1 == (on_path ? S::TRY_PATH : climb ? S::ALTITUDE_CHANGE : w.loiter_ ? S::LOITER : S::DIRECT));
    if (n > 0) ENSURES("the vehicle is sent one metre towards the goal", vc::eq((g - p).x() * n, d.x(), n) && vc::eq((g - p).y() * n, d.y(), n) && vc::eq((g - p).z() * n, d.z(), n));
    else ENSURES("at the goal the vehicle stays", vc::same(g, p));
    COVER("direct");
  }
  if (s0 == S::LOITER) {
    ENSURES("hovering ends only when it is no longer asked for", s1 == (w.loiter_ ? S::LOITER : S::TRY_PATH));
    bool undefined = (hover.x() != hover.x()) | (hover.y() != hover.y()) | (hover.z() != hover.z());
    ENSURES("the vehicle hovers where it was when hovering began", vc::same(g, entered || undefined ? p : hover) && vc::same(w.hover_position_, g));
    COVER("loiter");
  }
  if (s0 == S::ALTITUDE_CHANGE) {
    ENSURES("climbing ends when hovering is due or the altitude is reached", s1 == (w.loiter_ ? S::LOITER : climb ? S::ALTITUDE_CHANGE : S::TRY_PATH));
    V3 c = entered ? p : held;
    if (w.nav_state_ == NavigationState::offboard) {
      ENSURES("offboard the vehicle is sent straight up or down by a metre, once in the air", g.x() == p.x() && g.y() == p.y() && g.z() == p.z() + (w.is_airborne_ ? (p.z() <= goal.z() ? 1.f : -1.f) : 0.f));
      ENSURES("offboard the goal is above or below the vehicle", w.goal_.x() == p.x() && w.goal_.y() == p.y() && w.goal_.z() == goal.z());
      COVER("offboard");
    } else if (w.velocity_.x() * w.velocity_.x() + w.velocity_.y() * w.velocity_.y() > 0.25f) {
      ENSURES("a moving vehicle is stopped first", vc::same(g, p) && at_msg.linear_velocity_wp.x() == 0 && at_msg.linear_velocity_wp.y() == 0 && std::isnan(at_msg.linear_velocity_wp.z()) && vc::same(w.change_altitude_pos_, p));
      COVER("stopping");
    } else {
      ENSURES("the vehicle climbs or descends where it stopped", vc::same(g.x(), c.x()) && vc::same(g.y(), c.y()) && g.z() == goal.z());
      ENSURES("the autopilot's own velocity is passed on", vc::same(at_msg.linear_velocity_wp, w.desired_vel_));
      COVER("climbing");
    }
    if (entered) ENSURES("the heading at the start of the climb is kept", w.yaw_reach_height_rad_ == w.curr_yaw_rad_);
  }
}
HARNESS(step_path) { step(S::TRY_PATH, vc::boolean("path")); }
HARNESS(step_direct) { step(S::DIRECT, vc::boolean("path")); }
HARNESS(step_loiter) { step(S::LOITER, vc::boolean("path")); }
HARNESS(step_climb) { step(S::ALTITUDE_CHANGE, vc::boolean("path")); }

HARNESS(altitude_change) {
  G w;
  pose(w);
  w.nav_state_ = nav("mode");
  w.is_land_waypoint_ = vc::boolean("land"); w.is_takeoff_waypoint_ = vc::boolean("takeoff");
  bool reached = vc::boolean("reached");
  w.reach_altitude_offboard_ = reached; w.auto_land_ = vc::boolean("landing");
  bool r = w.isAltitudeChange();
  float z = w.position_.z(), g = w.goal_.z();
  NavigationState n = w.nav_state_;
  bool off = n == NavigationState::offboard, mission = n == NavigationState::mission;
  ENSURES("offboard the vehicle climbs until it once is at the goal altitude", vc::implies(off, r == (!reached && z < g) && w.reach_altitude_offboard_ == (reached || z >= g)));
  ENSURES("take-off and landing change the altitude", vc::implies(n == NavigationState::auto_takeoff || n == NavigationState::auto_land, r));
  ENSURES("a mission changes the altitude exactly at take-off and land items", vc::implies(mission, r == (w.is_land_waypoint_ || w.is_takeoff_waypoint_)));
  ENSURES("returning home changes the altitude exactly while climbing", vc::implies(n == NavigationState::auto_rtl, r == (z <= g - 0.8f)));
  ENSURES("no other mode changes the altitude", vc::implies(!off && !mission && n != NavigationState::auto_takeoff && n != NavigationState::auto_land && n != NavigationState::auto_rtl, !r));
  ENSURES("the descent is left to the autopilot exactly when landing", w.auto_land_ == (n == NavigationState::auto_land || (mission && w.is_land_waypoint_)));
  ENSURES("outside offboard the reached altitude is not forgotten", vc::implies(!off, w.reach_altitude_offboard_ == reached));
}

HARNESS(speed) {
  G w;
  pose(w);
#ifdef VC_SYM
  vc_replace_named("avoidance::scaleToFOV\\(", (void*)&c_vis);
  vc_replace_named("avoidance::cartesianToPolarFCU\\(", (void*)&c_fcu);
#else
  w.fov_fcu_frame_.push_back(FOV(vc::flt("camera", -180, 180), 0, vc::flt("opening", 10, 90), 40));
#endif
  w.m_currentState = static_cast<S>(vc::i32("state", 0, 3));
  float last = vc::flt("last speed", 0, L), cruise = vc::any("cruise"), dt = vc::flt("dt", 1e-4f, vc::pick(vc::INF, 2));
  REQUIRES(!(cruise < 0) && !(cruise > vc::pick(1e9f, 20)));
  w.speed_ = last;
  w.planner_info_.cruise_velocity = cruise;
  w.output_.goto_position = vc::pick(0, 1) ? w.position_ + vc::v3("to", -1, 1) : vc::v3("goto", -L, L);
  w.heading_at_goal_rad_ = vc::any("heading at goal");
  w.setpoint_yaw_rad_ = vc::flt("setpoint yaw", -4, 4);
#ifndef VC_SYM
  if (vc::boolean("near")) w.goal_ = w.position_ + vc::v3("rest", -0.6f, 0.6f);
#endif
  V3 p = w.position_, to = w.output_.goto_position, gd = w.goal_ - p;
  float dist = gd.norm(), was = w.setpoint_yaw_rad_, mark = w.heading_at_goal_rad_;
  float limit = std::isfinite(cruise) ? cruise : 2.f;
  bool near = dist < 1.f;
  float vis = 1.f;
  if (!near && w.getState() != S::ALTITUDE_CHANGE) {
    PolarPoint q = cartesianToPolarFCU(to, p);
    q.e -= w.curr_pitch_deg_; q.z -= w.curr_yaw_rad_ * RAD_TO_DEG;
    wrapPolar(q);
    vis = scaleToFOV(w.fov_fcu_frame_, q);
  }
  w.adaptSpeed(dt);
  float v = w.speed_;
  float want = near ? dist : limit * vis;
  float blend = (dt * want + 0.9f * last) / (dt + 0.9f);
  ENSURES("the speed follows the commanded speed with a low pass filter and never exceeds the distance to the goal", vc::eq(v, blend < dist ? blend : dist));
#ifdef VC_SYM
  STEP("the blend lies between the two", vc::le(blend, want < last ? last : want) && blend >= 0);
#endif
  ENSURES("the speed is never above both the limit and the previous speed, nor above the distance to the goal", v <= dist + VC_NATIVE(1e-5f) && (vc::le(v, limit) || vc::le(v, last) || near) && v >= 0);
  V3 a = w.output_.adapted_goto_position - p, d = near ? gd : to - p;
  float n = d.norm();
  if (n > 0.1f) {
    ENSURES("the waypoint is ahead by the speed, in the commanded direction", vc::eq(a.x() * n, d.x() * v) && vc::eq(a.y() * n, d.y() * v) && vc::eq(a.z() * n, d.z() * v));
    COVER("ahead");
  } else
    ENSURES("close by the waypoint is approached by the fraction that the speed gives", vc::eq(a.x(), d.x() * v) && vc::eq(a.y(), d.y() * v) && vc::eq(a.z(), d.z() * v));
  if (near) {
    ENSURES("close to the goal the waypoint leads there", vc::same(w.output_.goto_position, w.goal_));
    bool fresh = !std::isfinite(mark);
    ENSURES("the heading with which the goal was reached is kept", w.setpoint_yaw_rad_ == (fresh ? w.curr_yaw_rad_ : mark) && w.heading_at_goal_rad_ == w.setpoint_yaw_rad_);
    COVER("near");
  } else
    ENSURES("away from the goal the heading is free", w.setpoint_yaw_rad_ == was && std::isnan(w.heading_at_goal_rad_) && vc::same(w.output_.goto_position, to));
}

HARNESS(smoothing) {
  G w;
  pose(w);
  float kx = vc::flt("xy", 0, vc::pick(vc::INF, 20)), kz = vc::flt("z", 0, vc::pick(vc::INF, 20)), dt = vc::flt("dt", 1e-4f, vc::pick(vc::INF, 2));
  w.setSmoothingSpeed(kx, kz);
  w.output_.adapted_goto_position = V3(vc::any("x"), vc::any("y"), vc::any("z"));
#ifndef VC_SYM
  if (vc::boolean("sane")) w.output_.adapted_goto_position = vc::v3("to", -20, 20);
#endif
  V3 a = w.output_.adapted_goto_position, x = w.smoothed_goto_location_ = vc::v3("x0", -L, L), v = w.smoothed_goto_location_velocity_ = vc::v3("v0", -L, L);
  w.smoothWaypoint(dt);
  V3 r = w.output_.smoothed_goto_position;
  if (kx < 0.01f || kz < 0.01f) {
    ENSURES("without smoothing the waypoint is taken as it is", vc::same(r, a) && vc::same(w.smoothed_goto_location_, x) && vc::same(w.smoothed_goto_location_velocity_, v));
    COVER("off");
    return;
  }
  ENSURES("the smoothed waypoint is always a point", std::isfinite(r.x()) && std::isfinite(r.y()) && std::isfinite(r.z()));
  V3 off = a - w.goal_;
  bool there = off.norm() < 0.1, finite = std::isfinite(a.x()) && std::isfinite(a.y()) && std::isfinite(a.z());
  float k[3] = {kx, kx, kz};
  for (int i = 0; i < 3; i++) {
    float target = there ? 0.f : w.velocity_(i);
    float acc = (finite ? k[i] * (a(i) - x(i)) : 0.f) + 2 * std::sqrt(k[i]) * (target - v(i));
    ENSURES("the smoothed waypoint follows the commanded one as a critically damped spring", vc::eq(w.smoothed_goto_location_velocity_(i), v(i) + acc * dt, 100));
    ENSURES("the smoothed waypoint moves with its velocity", vc::eq(r(i), x(i) + w.smoothed_goto_location_velocity_(i) * dt, 100) && r(i) == w.smoothed_goto_location_(i));
  }
  COVER("on");
}

static bool turned(float a, float b) {   // a is b wrapped (angles.cpp: by whole turns, to within half a turn of zero)
#ifdef VC_SYM
  return a == wrapAngleToPlusMinusPI(b);
#else
  return vc::multiple(a - b, 2 * M_PI_F, 1000);
#endif
}
static void heading(bool on, S state, bool unset = false) {
  G w;
  pose(w);
#ifdef VC_SYM
  vc_replace_named("avoidance::nextYaw\\(", (void*)&c_yaw);
#endif
  w.output_.goto_position = vc::v3("goto", -L, L);
  w.m_currentState = state;
  w.yaw_reach_height_rad_ = unset ? NAN : state == S::ALTITUDE_CHANGE ? vc::flt("climb heading", -vc::pick(vc::INF, 4), vc::pick(vc::INF, 4)) : vc::any("climb heading");
  float k = w.smoothing_speed_xy_ = on ? vc::flt("smoothing", 0.0100001f, vc::pick(vc::INF, 20)) : vc::flt("no smoothing", 0, 0.01f), dt = vc::flt("dt", 1e-4f, vc::pick(vc::INF, 2));
  float y0 = w.setpoint_yaw_rad_ = vc::flt("setpoint yaw", -4, 4), v0 = w.setpoint_yaw_velocity_ = vc::flt("yaw speed", -L, L);
#ifndef VC_SYM
  if (vc::boolean("close")) w.output_.goto_position = w.position_ + vc::v3("by", -0.1f, 0.1f);
#endif
  V3 d = w.output_.goto_position - w.position_;
  float dxy = d.topRows<2>().norm();
  w.nextSmoothYaw(dt);
  float want = w.getState() == S::ALTITUDE_CHANGE ? w.yaw_reach_height_rad_ : dxy > 0.1f ? nextYaw(w.position_, w.output_.goto_position) : w.curr_yaw_rad_;
  if (!on) {
    ENSURES("without smoothing the heading is the one commanded", vc::same(w.setpoint_yaw_rad_, want));
    COVER("off");
    return;
  }
  float diff = wrapAngleToPlusMinusPI(std::isfinite(want) ? want - y0 : 0.f);
  float v = v0 + (k * diff - 2 * std::sqrt(k) * v0) * dt;
  ENSURES("the heading turns the short way as a critically damped spring", vc::eq(w.setpoint_yaw_velocity_, v, 100));
#ifdef VC_SYM
  REQUIRES(w.setpoint_yaw_velocity_ == v);
#endif
  ENSURES("the heading moves with its speed", turned(w.setpoint_yaw_rad_, y0 + w.setpoint_yaw_velocity_ * dt));
#ifndef VC_SYM
  ENSURES("the heading stays within half a turn of zero", std::fabs(w.setpoint_yaw_rad_) <= 3.1416f);
#endif
  COVER("on");
}
HARNESS(heading_off) { heading(false, static_cast<S>(vc::i32("state", 0, 3))); }
HARNESS(heading_path) { heading(true, S::TRY_PATH); }
HARNESS(heading_direct) { heading(true, S::DIRECT); }
HARNESS(heading_loiter) { heading(true, S::LOITER); }
HARNESS(heading_climb) { heading(true, S::ALTITUDE_CHANGE); }
HARNESS(heading_unset) { heading(true, S::ALTITUDE_CHANGE, true); }

// the waypoint that is made from the position to go to
static int order_[3], steps_;
static float dt_[3];
static void c_heading(W* w, float dt) { dt_[0] = dt; order_[0] = ++steps_; w->setpoint_yaw_rad_ = vc_uf1("new heading", dt); }
static void c_speed(W* w, float dt) { dt_[1] = dt; order_[1] = ++steps_; w->output_.adapted_goto_position.x() += vc_uf1("new x", dt); }
static void c_smooth(W* w, float dt) { dt_[2] = dt; order_[2] = ++steps_; w->output_.smoothed_goto_position = w->output_.adapted_goto_position + V3(vc_uf1("sx", dt), 0, 0); }
HARNESS(message) {
  G w;
  pose(w);
#ifdef VC_SYM
  vc_replace_named("WaypointGenerator::nextSmoothYaw\\(", (void*)&c_heading);
  vc_replace_named("WaypointGenerator::adaptSpeed\\(", (void*)&c_speed);
  vc_replace_named("WaypointGenerator::smoothWaypoint\\(", (void*)&c_smooth);
#endif
  steps_ = 0;
  for (int i = 0; i < 3; i++) order_[i] = 0;
  w.auto_land_ = vc::boolean("landing");
  V3 to = w.output_.goto_position = vc::v3("to", -L, L), sm = w.output_.smoothed_goto_position = vc::v3("smoothed", -L, L);
  double a = vc::dbl("before", 0, 1e6), b = vc::dbl("now", 0, 1e6);
  w.last_time_ = ros::Time(a); w.current_time_ = ros::Time(b);
  float d = static_cast<float>((w.current_time_ - w.last_time_).toSec());
  float dt = d > 0 ? d : 0.0001f;
#ifndef VC_SYM
  if (vc::boolean("soon")) w.last_time_ = ros::Time(1000 + vc::dbl("t", 0, 0.2)), w.current_time_ = ros::Time(1000.1);
  d = static_cast<float>((w.current_time_ - w.last_time_).toSec());
  dt = d > 0 ? d : 0.0001f;
  w.smoothed_goto_location_ = vc::v3("location", -L, L); w.speed_ = vc::flt("speed", 0, 5); w.planner_info_.cruise_velocity = vc::flt("cruise", 0, 5);
  G t;
  t.position_ = w.position_; t.velocity_ = w.velocity_; t.goal_ = w.goal_; t.curr_yaw_rad_ = w.curr_yaw_rad_; t.curr_pitch_deg_ = w.curr_pitch_deg_;
  t.smoothed_goto_location_ = w.smoothed_goto_location_; t.speed_ = w.speed_; t.planner_info_.cruise_velocity = w.planner_info_.cruise_velocity;
  t.output_.smoothed_goto_position = sm;
  t.output_.goto_position = t.output_.adapted_goto_position = to;
  t.nextSmoothYaw(dt);
  if (!w.auto_land_) { t.adaptSpeed(dt); t.smoothWaypoint(dt); }
#endif
  w.getPathMsg();
#ifndef VC_SYM
  ENSURES("speed and smoothing apply to the position to go to", vc::same(w.output_.adapted_goto_position, t.output_.adapted_goto_position) && vc::same(w.output_.smoothed_goto_position, t.output_.smoothed_goto_position) && vc::same(w.setpoint_yaw_rad_, t.setpoint_yaw_rad_));
#else
  ENSURES("heading, speed and smoothing advance by the time since the last waypoint", order_[0] == 1 && dt_[0] == dt && (w.auto_land_ || (order_[1] == 2 && order_[2] == 3 && dt_[1] == dt && dt_[2] == dt)));
  ENSURES("while the autopilot lands nothing is smoothed", vc::implies(w.auto_land_, order_[1] == 0 && order_[2] == 0 && vc::same(w.output_.smoothed_goto_position, sm) && vc::same(w.output_.adapted_goto_position, to)));
  ENSURES("speed and smoothing apply to the position to go to", vc::implies(!w.auto_land_, vc::same(w.output_.adapted_goto_position.y(), to.y()) && w.output_.adapted_goto_position.x() == to.x() + vc_uf1("new x", dt) && w.output_.smoothed_goto_position.x() == w.output_.adapted_goto_position.x() + vc_uf1("sx", dt)));
#endif
  ENSURES("the smoothed position is sent", vc::same(w.output_.position_wp, w.output_.smoothed_goto_position));
  V3 p;
  Eigen::Quaternionf q;
  createPoseMsg(p, q, to, w.setpoint_yaw_rad_);
  ENSURES("the smoothed heading is sent", q.w() == w.output_.orientation_wp.w() && q.x() == w.output_.orientation_wp.x() && q.y() == w.output_.orientation_wp.y() && q.z() == w.output_.orientation_wp.z());
}
HARNESS(update_state) {
  G w;
  V3 p = vc::v3("pos", -L, L), g = vc::v3("goal", -L, L), pg = vc::v3("last goal", -L, L), v = vc::v3("vel", -L, L), dv = V3(vc::any("dx"), vc::any("dy"), vc::any("dz"));
  Eigen::Quaternionf q(vc::flt("qw", -1, 1), vc::flt("qx", -1, 1), vc::flt("qy", -1, 1), vc::flt("qz", -1, 1));
  V3 s = w.smoothed_goto_location_ = V3(vc::any("sx"), vc::any("sy"), vc::any("sz")), sv = w.smoothed_goto_location_velocity_ = V3(vc::any("ux"), vc::any("uy"), vc::any("uz"));
  bool hover = vc::boolean("hover"), air = vc::boolean("airborne"), land = vc::boolean("land"), off = vc::boolean("takeoff");
  w.auto_land_ = vc::boolean("landing");
  bool reached = w.reach_altitude_offboard_ = vc::boolean("reached");
  float y = w.setpoint_yaw_rad_ = vc::flt("heading", -4, 4), yv = w.setpoint_yaw_velocity_ = vc::flt("turning", -L, L);
  NavigationState n = nav("mode");
  w.updateState(p, q, g, pg, v, hover, air, n, land, off, dv);
  ENSURES("the generator works on the state it is given", vc::same(w.position_, p) && vc::same(w.velocity_, v) && vc::same(w.goal_, g) && vc::same(w.prev_goal_, pg) && vc::same(w.desired_vel_, dv) &&
          w.loiter_ == hover && w.is_airborne_ == air && w.nav_state_ == n && w.is_land_waypoint_ == land && w.is_takeoff_waypoint_ == off);
  ENSURES("heading and pitch are those of the attitude", vc::same(w.curr_yaw_rad_, getYawFromQuaternion(q) * DEG_TO_RAD) && vc::same(w.curr_pitch_deg_, getPitchFromQuaternion(q)));
  bool ok = std::isfinite(s.x()) & std::isfinite(s.y()) & std::isfinite(s.z()) & std::isfinite(sv.x()) & std::isfinite(sv.y()) & std::isfinite(sv.z());
  bool start = !air || !ok, here = start || w.auto_land_;
  ENSURES("smoothing starts at the vehicle, at rest, on the ground, while landing and when it is undefined", here ? vc::same(w.smoothed_goto_location_, p) && w.smoothed_goto_location_velocity_.x() == 0 && w.smoothed_goto_location_velocity_.y() == 0 && w.smoothed_goto_location_velocity_.z() == 0
                                                                                                                 : vc::same(w.smoothed_goto_location_, s) && vc::same(w.smoothed_goto_location_velocity_, sv));
  ENSURES("the heading starts at that of the vehicle", vc::same(w.setpoint_yaw_rad_, start ? w.curr_yaw_rad_ : y) && w.setpoint_yaw_velocity_ == (start ? 0.f : yv));
  ENSURES("the altitude has to be reached anew after being on the ground", w.reach_altitude_offboard_ == (reached && !start));
}
static usm::Transition c_run(W* w) { calls_msg++; at_msg.linear_velocity_wp = w->output_.linear_velocity_wp; return static_cast<usm::Transition>(vc::i32("transition", 0, 5)); }
static std::string c_name(S) { return std::string(); }
HARNESS(waypoint) {
  G w;
  pose(w);
#ifdef VC_SYM
  vc_replace_named("WaypointGenerator::runCurrentState\\(", (void*)&c_run);
  vc_replace_named("avoidance::toString", (void*)&c_name);
  w.m_currentState = static_cast<S>(vc::i32("state", 0, 3));
#else
  w.loiter_ = true;
  w.m_currentState = vc::boolean("path") ? S::TRY_PATH : S::LOITER;
#endif
  calls_msg = 0;
  double a = vc::dbl("before", 0, 1e6), b = vc::dbl("now", 0, 1e6);
  w.current_time_ = ros::Time(a); now_ = ros::Time(b);
  w.output_.linear_velocity_wp = vc::v3("old");
  waypointResult r = w.getWaypoints();
#ifndef VC_SYM
  calls_msg = 1; at_msg = r;
#endif
  ENSURES("every waypoint is made by one step of the machine", calls_msg == 1);
  ENSURES("no velocity is commanded unless the step asks for one", std::isnan(at_msg.linear_velocity_wp.x()) && std::isnan(at_msg.linear_velocity_wp.y()) && std::isnan(at_msg.linear_velocity_wp.z()));
  ENSURES("a waypoint is labelled with the state the machine is in", r.waypoint_type == w.getState());
  ENSURES("the time since the last waypoint is measured", w.last_time_.toSec() == ros::Time(a).toSec() && w.current_time_.toSec() == ros::Time(b).toSec());
}
