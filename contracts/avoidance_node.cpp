// Contracts of avoidance/src/avoidance_node.cpp: failsafe, vehicle parameters, mission speed
// shadow vector
// strings
#include "common.h"
#include <chrono>
#include <thread>
#include <mutex>
#include <mavros_msgs/WaypointList.h>
typedef mavros_msgs::Waypoint WP;
static float g_speed0;
static bool speed_item(const WP& w) { return (w.command == 178) & (w.param1 == 1.0f) & (w.param2 > 0.0f); }
static bool vcinv_mission_scan(const std::vector<WP>& w, int index, float speed) {
  const WP* a = w.data();
  long n = w.size();
  return (0 <= index) & (index <= n) & vc::same(speed, g_speed0) & vc::forall(0, index, [&](long k) { return !a[k].is_current; });
}
static bool vcinv_mission_back(const std::vector<WP>& w, int index, int i, float speed) {
  const WP* a = w.data();
  long n = w.size();
  if (!((0 <= index) & (index < n) & (-1 <= i) & (i <= index))) return false;
  return a[index].is_current & vc::same(speed, g_speed0) & vc::forall(i + 1, (long)index + 1, [&](long k) { return !speed_item(a[k]); });
}
// waiting is over at once: the harness decides what happens meanwhile
static void (*g_wait)() = nullptr;
namespace std { namespace this_thread { template <class D> inline void vc_sleep_for(const D&) { g_wait(); } } }
#define sleep_for vc_sleep_for
#include <avoidance/src/avoidance_node.cpp>
#undef sleep_for
using namespace avoidance;
static const MAV_STATE STATES[] = {MAV_STATE::MAV_STATE_UNINIT, MAV_STATE::MAV_STATE_BOOT, MAV_STATE::MAV_STATE_CALIBRATIN, MAV_STATE::MAV_STATE_STANDBY, MAV_STATE::MAV_STATE_ACTIVE,
                                   MAV_STATE::MAV_STATE_CRITICAL, MAV_STATE::MAV_STATE_EMERGENCY, MAV_STATE::MAV_STATE_POWEROFF, MAV_STATE::MAV_STATE_FLIGHT_TERMINATION};

HARNESS(failsafe) {
  AvoidanceNode node{ros::NodeHandle(), ros::NodeHandle()};
  MAV_STATE before = (MAV_STATE)vc::i32("state", 0, 8);
  node.setSystemStatus(before);
  bool hover0 = vc::boolean("hover"), hover = hover0;
  long cloud = vc::i64("since_cloud", -1000000000l, 100000000000l), start = vc::i64("since_start", 0, 100000000000l);
  node.checkFailsafe(ros::Duration::nsec_(cloud), ros::Duration::nsec_(start), hover);
  MAV_STATE after = node.getSystemStatus();
  const long S = 1000000000l;
  if (cloud > 15 * S && start > 15 * S) {
    ENSURES("without obstacle data for 15 s flight is terminated", after == MAV_STATE::MAV_STATE_FLIGHT_TERMINATION);
    ENSURES("termination does not touch the hover request", hover == hover0);
    COVER("terminated");
  } else if (cloud > S / 2 && start > 5 * S) {
    ENSURES("without obstacle data for half a second the vehicle hovers and reports a critical state", hover && after == MAV_STATE::MAV_STATE_CRITICAL);
  } else {
    ENSURES("with fresh obstacle data, or while starting, hovering is neither started nor ended", hover == hover0);
    ENSURES("with fresh obstacle data a vehicle that is not hovering reports active", vc::implies(!hover0, after == MAV_STATE::MAV_STATE_ACTIVE));
    ENSURES("a hovering vehicle keeps its state until the hover ends", vc::implies(hover0, after == before));
  }
}
HARNESS(system_status) {
  AvoidanceNode node{ros::NodeHandle(), ros::NodeHandle()};
  MAV_STATE s = (MAV_STATE)vc::i32("state", 0, 8);
  node.setSystemStatus(s);
  ros::Time::clock().ns = vc::i64("now", 0, 1000000000000000000);
  node.statusLoopCallback(ros::TimerEvent());
  auto* m = static_cast<const mavros_msgs::CompanionProcessStatus*>(node.mavros_system_status_pub_.last);
  ENSURES("every status period the state is reported exactly once", node.mavros_system_status_pub_.sent == 1);
  ENSURES("the report carries the current state of the obstacle avoidance component and the time", m->component == 196 && m->state == (int)s && m->header.stamp == ros::Time::now());
  ENSURES("reporting does not change the state", node.getSystemStatus() == s);
}

// the fields of the model parameters by name; n is the field written
static const char* NAMES[] = {"MPC_ACC_DOWN_MAX", "MPC_ACC_HOR", "MPC_ACC_UP_MAX", "MPC_JERK_MIN", "MPC_JERK_MAX", "MPC_LAND_SPEED", "MPC_TKO_SPEED", "MPC_XY_CRUISE",
                              "MPC_Z_VEL_MAX_DN", "MPC_Z_VEL_MAX_UP", "CP_DIST", "NAV_ACC_RAD", "MPC_YAWRAUTO_MAX"};
static float& field(ModelParameters& m, int k) {
  switch (k) {
    case 0: return m.param_mpc_acc_down_max;
    case 1: return m.param_mpc_acc_hor;
    case 2: return m.param_mpc_acc_up_max;
    case 3: return m.param_mpc_jerk_min;
    case 4: return m.param_mpc_jerk_max;
    case 5: return m.param_mpc_land_speed;
    case 6: return m.param_mpc_tko_speed;
    case 7: return m.param_mpc_xy_cruise;
    case 8: return m.param_mpc_z_vel_max_dn;
    case 9: return m.param_mpc_z_vel_max_up;
    case 10: return m.param_cp_dist;
    case 11: return m.param_nav_acc_rad;
  }
  return m.param_mpc_yawrauto_max;
}
const int NF = 13;
static void any_params(ModelParameters& m) {
  for (int k = 0; k < NF; k++) field(m, k) = vc::any("param");
  m.param_mpc_auto_mode = vc::i32("auto_mode");
}
HARNESS(parameter_update) {
  AvoidanceNode node{ros::NodeHandle(), ros::NodeHandle()};
  any_params(node.px4_);
  for (int k = 0; k < NF + 2; k++) {
    ModelParameters before = node.getPX4Parameters();
    mavros_msgs::Param msg;
    msg.param_id = k < NF ? NAMES[k] : k == NF ? "MPC_AUTO_MODE" : "MPC_ACC";
    msg.value.real = vc::dbl("real", -vc::pick(vc::INF, 1e6f), vc::pick(vc::INF, 1e6f));
    msg.value.integer = vc::i64("integer", -1000000, 1000000);
    node.px4ParamsCallback(msg);
    ModelParameters after = node.getPX4Parameters();
    if (k < NF) ENSURES("a parameter message sets the parameter it names to its value", field(after, k) == (float)msg.value.real);
    if (k == NF) ENSURES("a parameter message sets the integer parameter it names to its value", after.param_mpc_auto_mode == msg.value.integer);
    for (int j = 0; j < NF; j++)
      if (j != k) ENSURES("a parameter message changes no other parameter", vc::same(field(after, j), field(before, j)));
    if (k != NF) ENSURES("a parameter message changes no other parameter", after.param_mpc_auto_mode == before.param_mpc_auto_mode);
  }
}
// answers of the vehicle to parameter requests: arbitrary, by field
static float g_answer[NF];
static bool g_ok[NF], g_success[NF];
static int g_requests[NF], g_rounds;
static AvoidanceNode* g_node;
static bool answer(void* p) {
  mavros_msgs::ParamGet& r = *static_cast<mavros_msgs::ParamGet*>(p);
  for (int k = 0; k < NF; k++)
    if (r.request.param_id == NAMES[k]) {
      g_requests[k]++;
      r.response.success = g_success[k];
      r.response.value.real = g_answer[k];
      return g_ok[k];
    }
  return false;
}
static void stop_after_round() { g_rounds++; g_node->should_exit_ = true; }
HARNESS(parameter_poll) {
  AvoidanceNode node{ros::NodeHandle(), ros::NodeHandle()};
  g_node = &node;
  any_params(node.px4_);
  for (int k = 0; k < NF; k++) { g_answer[k] = vc::flt("answer"); g_ok[k] = vc::boolean("answered"); g_success[k] = vc::boolean("success"); g_requests[k] = 0; }
  node.get_px4_param_client_.handler = answer;
  ModelParameters before = node.px4_;
  g_wait = stop_after_round;
  node.checkPx4Parameters();
  ModelParameters after = node.px4_;
  for (int k = 0; k < NF; k++) {
    if (g_ok[k] && g_success[k] && g_requests[k] > 0) ENSURES("a polled parameter takes the answered value", field(after, k) == g_answer[k]);
    else ENSURES("a parameter without an answer keeps its value", vc::same(field(after, k), field(before, k)));
  }
  for (int k : {0, 1, 2, 4, 5, 7, 8, 9, 10, 11, 12}) ENSURES("every parameter the planners need is polled", g_requests[k] == 1);
}

static void mission(mavros_msgs::WaypointList& l, long n) {
  vc::fill(l.waypoints, "wp", "i16@2,i8@4,x32@8,x32@12", n);
#ifndef VC_SYM
  for (auto& w : l.waypoints) {
    w.is_current = (*(uint8_t*)&w.is_current) % 5 == 0;
    w.command = w.command % 3 ? 178 : w.command;
    w.param1 = std::isfinite(w.param1) ? (int)std::fabs(std::fmod(w.param1 * 100, 4.f)) : w.param1;
  }
#endif
}
HARNESS(mission_speed) {
  AvoidanceNode node{ros::NodeHandle(), ros::NodeHandle()};
  g_speed0 = node.mission_item_speed_ = vc::any("speed");
  long n = vc::i64("n", 0, vc::pick(1000000, 9));
  mavros_msgs::WaypointList l;
  mission(l, n);
  const WP* a = l.waypoints.data();
  long c = vc::i64("current", 0, vc::pick(1000000, 9)), k = vc::i64("item", 0, vc::pick(1000000, 9));
#ifndef VC_SYM
  for (c = 0; c < n && !a[c].is_current;) c++;
  if (c < n) for (k = c; k > 0 && !speed_item(a[k]);) k--;
#endif
  REQUIRES(vc::forall(0, n, [&](long j) { return (*(const uint8_t*)&a[j].is_current) <= 1; }));
  // no float lies closer to 1 than this without being 1
  REQUIRES(vc::forall(0, n, [&](long j) { float p = a[j].param1; return (p == 1.f) | (p >= 1.f + 1e-8) | (p <= 1.f - 1e-8) | (p != p); }));
  node.missionCallback(l);
  float s = node.getMissionItemSpeed();
  if (vc::forall(0, n, [&](long j) { return !a[j].is_current; })) ENSURES("without a current item the mission speed is unchanged", vc::same(s, g_speed0));
  if (c < n && a[c].is_current && vc::forall(0, c, [&](long j) { return !a[j].is_current; })) {
    if (vc::forall(0, c + 1, [&](long j) { return !speed_item(a[j]); })) ENSURES("without a ground speed item up to the current one the mission speed is unchanged", vc::same(s, g_speed0));
    if (k <= c && speed_item(a[k]) && vc::forall(k + 1, c + 1, [&](long j) { return !speed_item(a[j]); })) {
      ENSURES("the mission speed is that of the last ground speed item up to the current one", vc::same(s, a[k].param2));
      COVER("speed item found");
    }
  }
}
