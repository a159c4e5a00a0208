// Contracts of SafeLandingPlannerNode (safe_landing_planner/src/nodes/safe_landing_planner_node.cpp)
// shadow vector
// strings
// noinline: SafeLandingPlannerNode::(publishSystemStatus|publishSerialGrid|checkFailsafe)\(
// noinline: SafeLandingPlanner::runSafeLandingPlanner\(
// noinline: pcl::PointCloud<pcl::PointXYZ>::operator=\(pcl::PointCloud<pcl::PointXYZ>&&\)
// noinline: removeNaNFromPointCloud<pcl::PointXYZ>
// noinline: transformPointCloud<pcl::PointXYZ>
#include "common.h"
#include <functional>
#include <mutex>
#include <memory>
#include <thread>
#include <atomic>
#include <condition_variable>
#include <safe_landing_planner/include/safe_landing_planner/grid.hpp>
#include <safe_landing_planner/SLPGridMsg.h>
#include <pcl/point_cloud.h>
#include <pcl/point_types.h>
#define DISABLE_SIMULATION
// mutex, condition and thread of the code under contract; who holds what is ghost state
namespace std {
struct vc_mutex {
  int held = 0;
  void lock() { ENSURES("no mutex is locked twice", held == 0); held = 1; }
  void unlock() { ENSURES("only a locked mutex is unlocked", held == 1); held = 0; }
};
static void (*g_wait)() = nullptr;
struct vc_cv {
  int notified = 0;
  void notify_one() { notified++; }
  void notify_all() { notified++; }
  void wait(unique_lock<vc_mutex>& l) { l.unlock(); g_wait(); l.lock(); }
};
static void (*g_start)(void*) = nullptr;
struct vc_thread {
  vc_thread() {}
  template <class F, class O> vc_thread(F, O* o) { g_start(o); }
  bool joinable() const { return false; }
  void join() {}
};
}
#define mutex vc_mutex
#define condition_variable vc_cv
#define thread vc_thread
typedef Eigen::Vector3f V3;
typedef safe_landing_planner::SLPGridMsg M;
namespace avoidance { class SafeLandingPlannerNode; }
typedef avoidance::SafeLandingPlannerNode N;
// an arbitrary cell and its content
static int g_i, g_j, g_n;
static bool sent_(const avoidance::Grid& g, const M& m) {
  long at = (long)g_i * g_n + g_j;
  return (m.mean.data[at] == g.mean_(g_i, g_j)) & (m.land.data[at] == g.land_(g_i, g_j)) & (m.counter.data[at] == g.counter_(g_i, g_j)) & (m.std_dev.data[at] == std::sqrt(g.variance_(g_i, g_j)));
}
static bool sizes_(const M& m, long k) { return ((long)m.mean.data.size() == k) & ((long)m.land.data.size() == k) & ((long)m.std_dev.data.size() == k) & ((long)m.counter.data.size() == k); }
static bool vcinv_serial_rows(const avoidance::Grid& g, const M& m, size_t i) {
  long a = i;
  return (0 <= a) & (a <= g_n) & (g.getRowColSize() == g_n) & sizes_(m, a * g_n) && (a <= g_i || sent_(g, m));
}
static bool vcinv_serial_columns(const avoidance::Grid& g, const M& m, size_t i, size_t j) {
  long a = i, b = j;
  return (0 <= b) & (b <= g_n) & sizes_(m, a * g_n + b) && (a < g_i || (a == g_i && b <= g_j) || sent_(g, m));
}
static bool vcinv_bin_points(avoidance::Grid&, const pcl::PointCloud<pcl::PointXYZI>&) { return true; }    // landing.cpp
static bool vcinv_cloud_wait(N& n, const ros::Time& since);
static bool vcinv_transform_rounds(N& n);
static bool vcinv_transform_tries(N& n);
#include <safe_landing_planner/src/nodes/safe_landing_planner_node.cpp>
#define nan_setpoint nan_setpoint_
#include <safe_landing_planner/src/nodes/safe_landing_planner.cpp>
#include <avoidance/src/common.cpp>
#undef mutex
#undef condition_variable
#undef thread
namespace avoidance {   // display only
void SafeLandingPlannerVisualization::initializePublishers(ros::NodeHandle&) {}
void SafeLandingPlannerVisualization::visualizeSafeLandingPlanner(const SafeLandingPlanner&, const geometry_msgs::Point&, const geometry_msgs::Point&, safe_landing_planner::SafeLandingPlannerNodeConfig&) {}
}
using namespace avoidance;
static const long SEC = 1000000000l;
static const int ACTIVE = 4, CRITICAL = 5, TERMINATION = 8;
static N* g_node;

HARNESS(failsafe) {
  N node{ros::NodeHandle()};
  int before = node.status_msg_.state = vc::i32("state", 0, 8);
  long algo = vc::i64("since_algo", -SEC, 100 * SEC), start = vc::i64("since_start", 0, 100 * SEC);
  node.checkFailsafe(ros::Duration::nsec_(algo), ros::Duration::nsec_(start));
  int after = node.status_msg_.state;
  if (algo > 15 * SEC && start > 15 * SEC) ENSURES("without a landing grid for 15 s flight is terminated", after == TERMINATION);
  else if (algo > SEC / 2 && start > SEC / 2) ENSURES("without a landing grid for half a second a critical state is reported", after == CRITICAL);
  else ENSURES("with a fresh landing grid, or while starting, the state stays", after == before);
}
HARNESS(status) {
  N node{ros::NodeHandle()};
  int s = node.status_msg_.state = vc::i32("state", 0, 8);
  ros::Time::clock().ns = vc::i64("now", 0, 1000000000000000000);
  node.publishSystemStatus();
  auto* m = static_cast<const mavros_msgs::CompanionProcessStatus*>(node.mavros_system_status_pub_.last);
  ENSURES("the report carries the current state of the obstacle avoidance component and the time", node.mavros_system_status_pub_.sent == 1 && m->component == 196 && m->state == s && m->header.stamp == ros::Time::now());
  ENSURES("reporting keeps the state and notes the time", node.status_msg_.state == s && node.t_status_sent_ == ros::Time::now());
}
HARNESS(position) {
  N node{ros::NodeHandle()};
  geometry_msgs::PoseStamped m;
  double x = vc::anyd("x"), y = vc::anyd("y"), z = vc::anyd("z"), x0 = node.current_pose_.pose.position.x = vc::anyd("x0");
  m.pose.position.x = x; m.pose.position.y = y; m.pose.position.z = z;
  node.positionCallback(m);
  ENSURES("the pose is the last one received", vc::same(node.current_pose_.pose.position.x, x) && vc::same(node.current_pose_.pose.position.y, y) && vc::same(node.current_pose_.pose.position.z, z) && vc::same(node.previous_pose_.pose.position.x, x0));
}
// a grid of any size and content
HARNESS(send_grid) {
  N node{ros::NodeHandle()};
  float gs = vc::flt("grid", 0.01f, 500.f), cs = vc::flt("cell", 0.01f, 500.f);
  REQUIRES(gs / cs <= vc::pick(4000.f, 40.f));
  Grid made(gs, cs), &grid = node.safe_landing_planner_->previous_grid_;
  grid.mean_.swap(made.mean_); grid.variance_.swap(made.variance_); grid.counter_.swap(made.counter_); grid.land_.swap(made.land_);
  grid.grid_size_ = gs; grid.cell_size_ = cs; grid.grid_row_col_size_ = made.grid_row_col_size_;
  int n = g_n = grid.getRowColSize();
  vc_havoc_array("mean", grid.mean_.data(), 4, "f32@0", (long)n * n);
  vc_havoc_array("variance", grid.variance_.data(), 4, "f32@0", (long)n * n);
  vc_havoc_array("counter", grid.counter_.data(), 4, "i32@0", (long)n * n);
  vc_havoc_array("land", grid.land_.data(), 4, "i32@0", (long)n * n);
  g_i = vc::i32("i", 0, n - 1); g_j = vc::i32("j", 0, n - 1);
  REQUIRES(grid.variance_(g_i, g_j) >= 0);
  int px = vc::i32("px", 0, 4000), py = vc::i32("py", 0, 4000);
  node.safe_landing_planner_->pos_index_ = Eigen::Vector2i(px, py);
  node.publishSerialGrid();
  const M* m = static_cast<const M*>(node.grid_pub_.last);
  ENSURES("the grid is sent once, with its size", node.grid_pub_.sent == 1 && (float)m->grid_size == gs && (float)m->cell_size == cs && m->header.frame_id == "local_origin");
  ENSURES("the sent layers have one entry per cell", sizes_(*m, (long)n * n) && (int)m->mean.layout.dim[0].size == n && (int)m->mean.layout.dim[1].size == n && (int)m->land.layout.dim[0].size == n && (int)m->land.layout.dim[1].size == n);
  ENSURES("every cell is sent with height, deviation, counter and landable flag", sent_(grid, *m));
  ENSURES("the position of the vehicle in the grid is sent", m->curr_pos_index.x == px && m->curr_pos_index.y == py);
  COVER("sent");
}

static bool free_(N& n) { return !n.cloud_msg_mutex_->held && !n.transformed_cloud_mutex_->held; }
static void mutexes(N& n) {
  n.cloud_msg_mutex_.reset(new std::vc_mutex); n.transformed_cloud_mutex_.reset(new std::vc_mutex); n.cloud_ready_cv_.reset(new std::vc_cv);
}
// the thread that transforms clouds starts with what it uses
static int g_started;
static void started(void* p) {
  N* n = static_cast<N*>(p);
  g_started++;
  ENSURES("the thread starts when its mutexes and condition exist", n->cloud_msg_mutex_ && n->transformed_cloud_mutex_ && n->cloud_ready_cv_ && !n->should_exit_);
}
HARNESS(start) {
  N node{ros::NodeHandle()};
  g_started = 0;
  std::g_start = started;
  node.startNode();
  ENSURES("one thread is started", g_started == 1);
}
// rounds of the thread: what happens while it waits is arbitrary
static int g_transformed;
static int g_rounds;
static bool vcinv_transform_rounds(N& n) { return free_(n) && (!n.cloud_transformed_ || g_transformed); }
static bool vcinv_transform_tries(N& n) { return vcinv_transform_rounds(n); }
static bool try_transform() {
  ENSURES("the landing planner is not kept waiting while a transform is looked up", !g_node->transformed_cloud_mutex_->held);
  return g_transformed = vc::boolean("transformable");
}
typedef pcl::PointCloud<pcl::PointXYZ> C;
static C* c_take(C* to, C*) {
  ENSURES("the cloud of the landing planner changes only while its mutex is held", to == &g_node->safe_landing_planner_->cloud_ && g_node->transformed_cloud_mutex_->held);
  ENSURES("only a transformed cloud is handed over", g_transformed);
  return to;
}
static void c_nan(const C&, C&, std::vector<int>&) {}          // what the library does with the points of the cloud is trusted
static bool c_transform(const std::string&, const C&, C&, const tf::TransformListener&) { return try_transform(); }
static void wait_for_cloud() {
  ENSURES("while waiting for a cloud the thread holds no mutex", free_(*g_node));
  if (vc::boolean("taken")) g_node->cloud_transformed_ = false;
  g_node->should_exit_ = vc::boolean("exit");
#ifndef VC_SYM
  if (g_rounds++ > 5) g_node->should_exit_ = true;
#endif
}
HARNESS(transform_thread) {
  N node{ros::NodeHandle()};
  mutexes(node);
  g_node = &node;
  g_transformed = false; g_rounds = 0;
  std::g_wait = wait_for_cloud;
  tf::TransformListener::available() = try_transform;
#ifdef VC_SYM
  vc_replace_named("removeNaNFromPointCloud<pcl::PointXYZ>", (void*)&c_nan);
  vc_replace_named("transformPointCloud<pcl::PointXYZ>\\(std", (void*)&c_transform);
  vc_replace_named("pcl::PointCloud<pcl::PointXYZ>::operator=\\(pcl::PointCloud<pcl::PointXYZ>&&", (void*)&c_take);
#endif
  node.pointCloudTransformThread();
  ENSURES("the thread leaves no mutex locked", free_(node));
  ENSURES("only a transformed cloud is handed over", !node.cloud_transformed_ || g_transformed);
  COVER("ended");
}
HARNESS(receive_cloud) {
  N node{ros::NodeHandle()};
  mutexes(node);
  bool before = node.cloud_transformed_ = vc::boolean("transformed");
  sensor_msgs::PointCloud2 m;
  m.header.stamp.ns = vc::i64("stamp", 0, 1000000000000000000);
  node.pointCloudCallback(m);
  ENSURES("the newest cloud is kept and announced to the thread", node.newest_cloud_msg_.header.stamp.ns == m.header.stamp.ns && node.cloud_ready_cv_->notified == 1 && free_(node) && node.cloud_transformed_ == before);
  M g;
  g.header.seq = vc::i32("seq", 0, 1000000000);
  node.rawGridCallback(g);
  ENSURES("a recorded grid is taken over", node.safe_landing_planner_->raw_grid_.header.seq == g.header.seq && node.cloud_transformed_ && free_(node));
}

// one round of the planner, waiting any time for a cloud
static int g_reports, g_state, g_runs, g_grids;
static long g_algo, g_t0, g_since;
static void c_status(N* n) { g_reports++; g_state = n->status_msg_.state; n->t_status_sent_ = ros::Time::now(); }   // status above
static void c_grid(N*) { g_grids++; }                                                                             // send_grid above
static void c_run(SafeLandingPlanner* p) {
  ENSURES("the planner runs on a cloud that nobody changes meanwhile", g_node->transformed_cloud_mutex_->held && !g_node->cloud_msg_mutex_->held);
  ENSURES("the planner runs on a transformed cloud", g_node->cloud_transformed_);
  ENSURES("the planner runs with the pose of the vehicle", vc::same(p->position_.x(), g_node->current_pose_.pose.position.x) && vc::same(p->position_.y(), g_node->current_pose_.pose.position.y) && vc::same(p->position_.z(), g_node->current_pose_.pose.position.z));
  g_runs++;
}
static bool vcinv_cloud_wait(N& n, const ros::Time& since) {
  long now = ros::Time::clock().ns, waited = now - since.ns;
  return free_(n) & (waited >= 0) & (since.ns == g_since) & (n.status_msg_.state == ACTIVE || n.status_msg_.state == TERMINATION) & (waited <= 15 * SEC || (n.status_msg_.state == TERMINATION && g_state == TERMINATION && g_reports > 0)) &
         (n.status_msg_.state == ACTIVE || waited > 15 * SEC) & (g_reports >= 0) & (g_reports <= 1000000) & (n.t_status_sent_.ns <= now) & (n.last_algo_time_.ns == g_algo) & (n.start_time_.ns == g_t0) & (g_runs == 0) & (g_grids == 0);
}
static void meanwhile() {
  long t = ros::Time::clock().ns;
  ros::Time::clock().ns = t + vc::i64("passed", 0, vc::pick(1000, 20) * SEC);
  g_node->cloud_transformed_ = vc::boolean("cloud");
  REQUIRES(ros::Time::clock().ns <= 1000000000000000000);
  REQUIRES(g_reports < 1000000);
}
HARNESS(round) {
  N node{ros::NodeHandle()};
  mutexes(node);
  g_node = &node;
  g_reports = g_runs = g_grids = 0; g_state = -1;
  long now0 = g_since = vc::i64("now", 1000 * SEC, 100000000 * SEC);
  ros::Time::clock().ns = now0;
  node.start_time_.ns = g_t0 = now0 - vc::i64("since start", 0, vc::pick(1000, 40) * SEC);
  node.last_algo_time_.ns = g_algo = now0 - vc::i64("since last", 0, vc::pick(1000, 40) * SEC);
  node.t_status_sent_.ns = now0 - vc::i64("since status", 0, vc::pick(1000, 2) * SEC);
  long sent0 = node.t_status_sent_.ns;
  node.cloud_transformed_ = vc::boolean("ready");
  node.status_msg_.state = vc::i32("state", 0, 8);
  float x = vc::flt("x"), y = vc::flt("y"), z = vc::flt("z");
  node.current_pose_.pose.position.x = x; node.current_pose_.pose.position.y = y; node.current_pose_.pose.position.z = z;
  ros::CallbackQueue::called() = meanwhile;
#ifdef VC_SYM
  vc_replace_named("SafeLandingPlannerNode::publishSystemStatus\\(", (void*)&c_status);
  vc_replace_named("SafeLandingPlannerNode::publishSerialGrid\\(", (void*)&c_grid);
  vc_replace_named("SafeLandingPlanner::runSafeLandingPlanner\\(", (void*)&c_run);
#endif
  node.cmdLoopCallback(ros::TimerEvent());
  long now = ros::Time::clock().ns, algo = now - g_algo, start = now - g_t0;
#ifndef VC_SYM
  g_runs = 1; g_grids = node.grid_pub_.sent; g_reports = node.mavros_system_status_pub_.sent;
  if (g_reports) g_state = static_cast<const mavros_msgs::CompanionProcessStatus*>(node.mavros_system_status_pub_.last)->state;
#endif
  int want = algo > 15 * SEC && start > 15 * SEC ? TERMINATION : algo > SEC / 2 && start > SEC / 2 ? CRITICAL : ACTIVE;
  if (now - g_since <= 15 * SEC) ENSURES("the state says how long no landing grid was computed", node.status_msg_.state == want);
  else ENSURES("after waiting 15 s for a cloud, termination has been reported", g_reports > 0 && (g_state == TERMINATION || g_state == node.status_msg_.state));
  ENSURES("a grid is computed and sent once per cloud", g_runs == 1 && g_grids == 1 && !node.cloud_transformed_ && free_(node));
  ENSURES("the time of the computation is noted", node.last_algo_time_.ns == now);
  ENSURES("the state is reported at least every 0.2 s while computing", now - sent0 <= SEC / 5 || now - node.t_status_sent_.ns <= SEC / 5);
  COVER("round");
}
