// Contracts of the trajectory messages and frame conversions in avoidance/src/common.cpp and avoidance/include/avoidance/common.h
#include "common.h"
#include <avoidance/src/common.cpp>
using namespace avoidance;
typedef Eigen::Vector3f V3;
static bool nan3(double a, double b, double c) { return (a != a) & (b != b) & (c != c); }
static bool unused(const mavros_msgs::PositionTarget& p) {
  return nan3(p.position.x, p.position.y, p.position.z) & nan3(p.velocity.x, p.velocity.y, p.velocity.z) &
         nan3(p.acceleration_or_force.x, p.acceleration_or_force.y, p.acceleration_or_force.z) & nan3(p.yaw, p.yaw_rate, p.yaw);
}
// a message with arbitrary previous content
static void dirty(mavros_msgs::PositionTarget& p) {
  p.position.x = vc::dbl("old"); p.position.y = vc::dbl("old"); p.position.z = vc::dbl("old");
  p.velocity.x = vc::dbl("old"); p.velocity.y = vc::dbl("old"); p.velocity.z = vc::dbl("old");
  p.acceleration_or_force.x = vc::dbl("old"); p.acceleration_or_force.y = vc::dbl("old"); p.acceleration_or_force.z = vc::dbl("old");
  p.yaw = vc::flt("old"); p.yaw_rate = vc::flt("old");
}
static void dirty(mavros_msgs::Trajectory& t) {
  dirty(t.point_1); dirty(t.point_2); dirty(t.point_3); dirty(t.point_4); dirty(t.point_5);
  for (int i = 0; i < 5; i++) { t.point_valid[i] = vc::i32("old_valid", 0, 1); t.time_horizon[i] = vc::flt("old"); }
  t.type = vc::i32("old_type", 0, 255);
}

HARNESS(waypoint_message) {
  mavros_msgs::Trajectory t;
  dirty(t);
  geometry_msgs::PoseStamped pose;
  // a setpoint component may be NaN: "not commanded"
  pose.pose.position.x = vc::anyd("px"); pose.pose.position.y = vc::anyd("py"); pose.pose.position.z = vc::anyd("pz");
  float yaw = vc::flt("yaw", -M_PI_F, M_PI_F);
  V3 dummy = V3::Zero(), o2;
  Eigen::Quaternionf q;
  createPoseMsg(o2, q, dummy, yaw);
  pose.pose.orientation = toQuaternion(q);
  geometry_msgs::Twist v;
  v.linear.x = vc::anyd("vx"); v.linear.y = vc::anyd("vy"); v.linear.z = vc::anyd("vz"); v.angular.z = vc::anyd("wz");
  ros::Time::clock().ns = vc::i64("now", 0, 1000000000000000000);
  transformToTrajectory(t, pose, v);
  ENSURES("the message is stamped with the current time", t.header.stamp == ros::Time::now());
  ENSURES("the message is a waypoint list with only the first point valid",
          t.type == 0 && t.point_valid[0] == 1 && t.point_valid[1] == 0 && t.point_valid[2] == 0 && t.point_valid[3] == 0 && t.point_valid[4] == 0);
  ENSURES("the first point carries the setpoint position", vc::same(t.point_1.position.x, pose.pose.position.x) && vc::same(t.point_1.position.y, pose.pose.position.y) && vc::same(t.point_1.position.z, pose.pose.position.z));
  ENSURES("the first point carries the setpoint velocity", vc::same(t.point_1.velocity.x, v.linear.x) && vc::same(t.point_1.velocity.y, v.linear.y) && vc::same(t.point_1.velocity.z, v.linear.z));
  const geometry_msgs::Vector3& a = t.point_1.acceleration_or_force;
  ENSURES("the first point commands no acceleration", nan3(a.x, a.y, a.z));
  float y = t.point_1.yaw;
  ENSURES("the first point carries the yaw of the setpoint", vc::eq(std::cos(y), std::cos(yaw), 1) && vc::eq(std::sin(y), std::sin(yaw), 1));
  ENSURES("the first point carries the yaw rate, in the autopilot's direction of rotation", vc::same(t.point_1.yaw_rate, -(float)v.angular.z));
  ENSURES("the unused points command nothing", unused(t.point_2) && unused(t.point_3) && unused(t.point_4) && unused(t.point_5));
  for (int i = 0; i < 5; i++) { float h = t.time_horizon[i]; ENSURES("a waypoint message has no time horizon", h != h); }
}

HARNESS(bezier_message) {
  mavros_msgs::Trajectory t;
  dirty(t);
  std::array<Eigen::Vector4d, 5> c;
  float M = vc::pick(vc::INF, 1000.f);
  for (int i = 0; i < 5; i++) {
    float x = vc::flt("cx", -M, M), y = vc::flt("cy", -M, M), z = vc::flt("cz", -M, M), w = vc::flt("cyaw", -M, M);
    c[i] = Eigen::Vector4d(x, y, z, w);
  }
  float d = vc::flt("duration");
  ros::Time::clock().ns = vc::i64("now", 0, 1000000000000000000);
  transformToBezier(t, c, d);
  ENSURES("the message is stamped with the current time", t.header.stamp == ros::Time::now());
  const mavros_msgs::PositionTarget* p[5] = {&t.point_1, &t.point_2, &t.point_3, &t.point_4, &t.point_5};
  ENSURES("the message is a Bezier curve", t.type == 1);
  for (int i = 0; i < 5; i++) {
    ENSURES("every control point is valid", t.point_valid[i] == 1);
    ENSURES("control points are converted between the frames: x and y swapped, z negated",
            vc::eq(p[i]->position.x, c[i].y()) && vc::eq(p[i]->position.y, c[i].x()) && vc::eq(p[i]->position.z, -c[i].z()));
    ENSURES("the yaw of a control point is a quarter turn minus the yaw", vc::eq(p[i]->yaw, M_PI / 2 - c[i].w()));
    float h = t.time_horizon[i];
    ENSURES("the duration is the horizon of the last control point only", i == 4 ? h == d : h != h);
  }
}

HARNESS(frame_vectors) {
  V3 v(vc::any("x"), vc::any("y"), vc::any("z"));
  V3 n = toNED(v), e = toENU(v);
  ENSURES("ENU to NED swaps x and y and negates z", vc::same(n, V3(v.y(), v.x(), -v.z())));
  ENSURES("NED to ENU swaps x and y and negates z", vc::same(e, V3(v.y(), v.x(), -v.z())));
  ENSURES("converting there and back is the identity", vc::same(toENU(n), v) && vc::same(toNED(e), v));
  float M = vc::pick(vc::INF, 1000.f);
  float a = vc::flt("a", -M, M);
  ENSURES("yaw conversions are inverses", vc::eq(yawToENUdeg(yawToNEDdeg(a)), a) && vc::eq(yawToENUrad(yawToNEDrad(a)), a));
  ENSURES("pitch conversions are inverses", vc::eq(pitchToENU(pitchtoNED(a)), a));
  ENSURES("yaw is measured from north instead of east, in the other direction", vc::eq(yawToNEDdeg(a), 90.f - a) && vc::eq(yawToNEDrad(a), M_PI / 2 - a) && vc::eq(pitchtoNED(a), -a));
}

HARNESS(message_types) {
  V3 v(vc::any("x"), vc::any("y"), vc::any("z"));
  ENSURES("points survive conversion to messages and back", vc::same(toEigen(toPoint(v)), v) && vc::same(toEigen(toVector3(v)), v));
  ENSURES("points survive conversion to clouds and back", vc::same(toEigen(toXYZ(v)), v) && vc::same(toEigen(toXYZI(v, 3.f)), v));
  float it = vc::any("intensity");
  pcl::PointXYZI p = toXYZI(v, it), p2 = toXYZI(v.x(), v.y(), v.z(), it), p3 = toXYZI(toXYZ(v), it);
  ENSURES("the age of a cloud point survives conversion", vc::same(p.intensity, it) && vc::same(p2.intensity, it) && vc::same(p3.intensity, it));
  ENSURES("the position of a cloud point survives conversion", vc::same(toEigen(p2), v) && vc::same(toEigen(p3), v));
  Eigen::Quaternionf q(vc::any("qw"), vc::any("qx"), vc::any("qy"), vc::any("qz"));
  Eigen::Quaternionf r = toEigen(toQuaternion(q));
  ENSURES("orientations survive conversion to messages and back", vc::same(r.w(), q.w()) && vc::same(r.x(), q.x()) && vc::same(r.y(), q.y()) && vc::same(r.z(), q.z()));
  V3 w(vc::any("wx"), vc::any("wy"), vc::any("wz"));
  geometry_msgs::Twist t = toTwist(v, w);
  ENSURES("a twist keeps linear and angular parts", vc::same(toEigen(t.linear), v) && vc::same(toEigen(t.angular), w));
  geometry_msgs::PoseStamped ps = toPoseStamped(v, q);
  Eigen::Quaternionf s = toEigen(ps.pose.orientation);
  ENSURES("a pose keeps position and orientation", vc::same(toEigen(ps.pose.position), v) && vc::same(s.w(), q.w()) && vc::same(s.x(), q.x()) && vc::same(s.y(), q.y()) && vc::same(s.z(), q.z()));
}

static Eigen::Vector3d rot(const Eigen::Quaterniond& q, const Eigen::Vector3d& v) {
  Eigen::Vector3d u(q.x(), q.y(), q.z());
  double w = q.w();
  return 2.0 * u.dot(v) * u + (w * w - u.dot(u)) * v + 2.0 * w * u.cross(v);
}
static bool vnear(const Eigen::Vector3d& a, const Eigen::Vector3d& b) { return vc::near(a.x(), b.x(), 20) && vc::near(a.y(), b.y(), 20) && vc::near(a.z(), b.z(), 20); }
static Eigen::Quaterniond quat() {
  double w = vc::dbl("qw", -1, 1), x = vc::dbl("qx", -1, 1), y = vc::dbl("qy", -1, 1), z = vc::dbl("qz", -1, 1);
  return Eigen::Quaterniond(w, x, y, z);
}
// the attitude that turns the forward-right-down body axes to the same directions (north, east, down) as q turns the
// forward-left-up body axes to (east, north, up); h*h = 1/2
static Eigen::Quaterniond swapped(const Eigen::Quaterniond& q, double h) {
  return Eigen::Quaterniond(-h * (q.w() + q.z()), -h * (q.x() + q.y()), h * (q.y() - q.x()), h * (q.z() - q.w()));
}
HARNESS(attitude_frames) {
  Eigen::Quaterniond q = quat();
#ifdef VC_SYM
  double h = vc::dbl("h", 0, 1);
  REQUIRES(2.0 * h * h == 1.0);
#else
  double h = std::sqrt(0.5);
#endif
  Eigen::Quaterniond n = swapped(q, h);
  for (int k = 0; k < 3; k++) {
    Eigen::Vector3d b = Eigen::Vector3d::Unit(k), b2(b.x(), -b.y(), -b.z());
    Eigen::Vector3d u = rot(q, b), r = rot(n, b2);
    LEMMA("the swapped attitude turns the mirrored body axes to the mirrored directions", vc::eq(r.x(), u.y(), 4) && vc::eq(r.y(), u.x(), 4) && vc::eq(r.z(), -u.z(), 4));
  }
}
HARNESS(orientation_ned) {
  Eigen::Quaterniond q = quat();
  Eigen::Quaterniond n = orientationToNED(q), e = orientationToENU(q), s = swapped(q, 0.70710678118654752);
  bool np = vc::near(n.w(), s.w(), 2) && vc::near(n.x(), s.x(), 2) && vc::near(n.y(), s.y(), 2) && vc::near(n.z(), s.z(), 2);
  bool nm = vc::near(n.w(), -s.w(), 2) && vc::near(n.x(), -s.x(), 2) && vc::near(n.y(), -s.y(), 2) && vc::near(n.z(), -s.z(), 2);
  bool ep = vc::near(e.w(), s.w(), 2) && vc::near(e.x(), s.x(), 2) && vc::near(e.y(), s.y(), 2) && vc::near(e.z(), s.z(), 2);
  bool em = vc::near(e.w(), -s.w(), 2) && vc::near(e.x(), -s.x(), 2) && vc::near(e.y(), -s.y(), 2) && vc::near(e.z(), -s.z(), 2);
  ENSURES("the NED attitude turns the body axes to the same directions", np || nm);
  ENSURES("the ENU attitude turns the body axes to the same directions", ep || em);
  Eigen::Quaterniond r = orientationToENU(n);
  bool p = vc::near(r.w(), q.w(), 2) && vc::near(r.x(), q.x(), 2) && vc::near(r.y(), q.y(), 2) && vc::near(r.z(), q.z(), 2);
  bool m = vc::near(r.w(), -q.w(), 2) && vc::near(r.x(), -q.x(), 2) && vc::near(r.y(), -q.y(), 2) && vc::near(r.z(), -q.z(), 2);
  ENSURES("converting an attitude to NED and back returns the same attitude", p || m);
}
