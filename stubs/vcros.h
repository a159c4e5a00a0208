// Stand-ins for the ROS, tf, PCL and message types the code under contract uses: their data members and documented
// behaviour, nothing else.  Trusted (listed in every evidence file).
#pragma once
#include <Eigen/Core>
#include <array>
#include <ctime>
#include <iomanip>
#include <iostream>
#include <Eigen/Geometry>
#include <cfloat>
#include <climits>
#include <cmath>
#include <cstdint>
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include <deque>
#include <map>
#define BOOST_BIND_GLOBAL_PLACEHOLDERS
#include <boost/bind.hpp>
#include <mutex>
namespace boost { typedef std::recursive_mutex recursive_mutex; }

namespace vcs {
// shared pointer without reference counting (nothing is ever freed)
template <class T>
struct ptr {
  T* p = nullptr;
  ptr() {}
  ptr(T* q) : p(q) {}
  ptr(std::nullptr_t) {}
  template <class U> ptr(const ptr<U>& o) : p(o.p) {}
  T* get() const { return p; }
  T* operator->() const { return p; }
  T& operator*() const { return *p; }
  explicit operator bool() const { return p != nullptr; }
  void reset(T* q = nullptr) { p = q; }
};
#ifdef VC_SYM
// the text of names (frames, node names, ...) plays no role for the contracts: only literals are tracked
struct str {
  const char* p = "";
  str() {}
  str(const char* q) : p(q) {}
  str(const std::string&) : p("?") {}
  operator std::string() const { return std::string(p); }
  const char* c_str() const { return p; }
  bool empty() const { return *p == 0; }
  size_t size() const { return 1; }
};
inline std::string operator+(const str&, const std::string& b) { return b; }
inline std::string operator+(const std::string& a, const str&) { return a; }
inline std::string operator+(const str& a, const char*) { return a; }
inline std::string operator+(const char*, const str& a) { return a; }
inline bool operator==(const str& a, const str& b) { const char *x = a.p, *y = b.p; while (*x && *x == *y) { x++; y++; } return *x == *y; }
inline bool operator!=(const str& a, const str& b) { return !(a == b); }
#else
typedef std::string str;
#endif
}  // namespace vcs

#define ROS_INFO(...) ((void)0)
#define ROS_WARN(...) ((void)0)
#define ROS_ERROR(...) ((void)0)
#define ROS_DEBUG(...) ((void)0)
#define ROS_FATAL(...) ((void)0)
#define ROS_INFO_ONCE(...) ((void)0)
#define ROS_WARN_ONCE(...) ((void)0)
#define ROS_ERROR_ONCE(...) ((void)0)
#define ROS_DEBUG_ONCE(...) ((void)0)
#define ROS_INFO_THROTTLE(...) ((void)0)
#define ROS_WARN_THROTTLE(...) ((void)0)
#define ROS_ERROR_THROTTLE(...) ((void)0)
#define ROS_DEBUG_THROTTLE(...) ((void)0)
#define ROS_INFO_STREAM(...) ((void)0)
#define ROS_WARN_STREAM(...) ((void)0)
#define ROS_ERROR_STREAM(...) ((void)0)
#define ROS_INFO_NAMED(...) ((void)0)
#define ROS_WARN_NAMED(...) ((void)0)
#define ROS_ERROR_NAMED(...) ((void)0)
#define ROSCONSOLE_DEFAULT_NAME "ros"
#define NODELET_DEBUG(...) ((void)0)
#define NODELET_INFO(...) ((void)0)
#define NODELET_ERROR(...) ((void)0)
#define PLUGINLIB_EXPORT_CLASS(...)

namespace ros {
namespace console {
namespace levels { enum Level { Debug, Info, Warn, Error, Fatal }; }
inline bool set_logger_level(const std::string&, levels::Level) { return true; }
inline void notifyLoggerLevelsChanged() {}
}  // namespace console

// Time and duration are a whole number of nanoseconds, as in ROS (whose sec/nsec pair is the same number).
struct Duration {
  int64_t ns = 0;
  Duration() {}
  explicit Duration(double t) : ns((int64_t)std::floor(t * 1e9 + 0.5)) {}
  Duration(int32_t s, int32_t n) : ns((int64_t)s * 1000000000LL + n) {}
  double toSec() const { return 1e-9 * (double)ns; }
  int64_t toNSec() const { return ns; }
  Duration& fromSec(double t) { *this = Duration(t); return *this; }
  Duration& fromNSec(int64_t t) { ns = t; return *this; }
  static Duration nsec_(int64_t n) { Duration d; d.ns = n; return d; }
  Duration operator+(const Duration& o) const { return nsec_(ns + o.ns); }
  Duration operator-(const Duration& o) const { return nsec_(ns - o.ns); }
  Duration operator-() const { return nsec_(-ns); }
  Duration operator*(double f) const { return Duration(toSec() * f); }
  Duration& operator+=(const Duration& o) { ns += o.ns; return *this; }
  Duration& operator-=(const Duration& o) { ns -= o.ns; return *this; }
  bool operator<(const Duration& o) const { return ns < o.ns; }
  bool operator>(const Duration& o) const { return ns > o.ns; }
  bool operator<=(const Duration& o) const { return ns <= o.ns; }
  bool operator>=(const Duration& o) const { return ns >= o.ns; }
  bool operator==(const Duration& o) const { return ns == o.ns; }
  bool operator!=(const Duration& o) const { return ns != o.ns; }
  bool sleep() const { return true; }
  bool isZero() const { return ns == 0; }
};
typedef Duration WallDuration;
struct Time {
  int64_t ns = 0;
  Time() {}
  explicit Time(double t) : ns((int64_t)std::floor(t * 1e9 + 0.5)) {}
  Time(uint32_t s, uint32_t n) : ns((int64_t)s * 1000000000LL + n) {}
  static Time nsec_(int64_t n) { Time t; t.ns = n; return t; }
  static Time& clock() { static Time t; return t; }     // set by the harness
  static Time now() { return clock(); }
  static void init() {}
  static bool isValid() { return true; }
  double toSec() const { return 1e-9 * (double)ns; }
  uint64_t toNSec() const { return (uint64_t)ns; }
  Time& fromSec(double t) { *this = Time(t); return *this; }
  Time& fromNSec(uint64_t t) { ns = (int64_t)t; return *this; }
  bool isZero() const { return ns == 0; }
  Duration operator-(const Time& o) const { return Duration::nsec_(ns - o.ns); }
  Time operator+(const Duration& d) const { return nsec_(ns + d.ns); }
  Time operator-(const Duration& d) const { return nsec_(ns - d.ns); }
  Time& operator+=(const Duration& d) { ns += d.ns; return *this; }
  bool operator<(const Time& o) const { return ns < o.ns; }
  bool operator>(const Time& o) const { return ns > o.ns; }
  bool operator<=(const Time& o) const { return ns <= o.ns; }
  bool operator>=(const Time& o) const { return ns >= o.ns; }
  bool operator==(const Time& o) const { return ns == o.ns; }
  bool operator!=(const Time& o) const { return ns != o.ns; }
};
typedef Time WallTime;
struct Rate { Rate(double) {} bool sleep() { return true; } };
struct TimerEvent { Time current_real, current_expected, last_real; };
struct CallbackQueue {
  static void (*&called())() { static void (*f)() = nullptr; return f; }      // what happens meanwhile: set by the harness
  void callAvailable(WallDuration = WallDuration()) { if (called()) called()(); }
};
inline CallbackQueue* getGlobalCallbackQueue() { static CallbackQueue q; return &q; }
struct Publisher {
  int sent = 0;
  std::string getTopic() const { return ""; }
  unsigned getNumSubscribers() const { return 1; }
  const void* last = nullptr;     // copy of the last message
  template <class M> void publish(const M& m) const { Publisher* t = const_cast<Publisher*>(this); t->sent++; t->last = new M(m); }
};
struct Subscriber { void shutdown() {} };
struct Timer { void stop() {} void start() {} };
struct TimerOptions { template <class F> TimerOptions(Duration, F, CallbackQueue*) {} };
struct ServiceClient { bool (*handler)(void*) = nullptr; template <class M> bool call(M& m) { return handler ? handler(&m) : false; } };
struct ServiceServer {};
struct AsyncSpinner { AsyncSpinner(int, CallbackQueue* = nullptr) {} void start() {} void stop() {} };
struct TransportHints { TransportHints& tcpNoDelay() { return *this; } };
struct NodeHandle {
  NodeHandle() {}
  NodeHandle(const std::string&) {}
  NodeHandle(const char*) {}
  template <class M> Publisher advertise(const char*, int, bool = false) { return Publisher(); }
  template <class M> Publisher advertise(const std::string&, int, bool = false) { return Publisher(); }
  template <class... A> Subscriber subscribe(A...) { return Subscriber(); }
  template <class M, class... A> Subscriber subscribe(A...) { return Subscriber(); }
  template <class M> ServiceClient serviceClient(const char*) { return ServiceClient(); }
  template <class M> ServiceClient serviceClient(const std::string&) { return ServiceClient(); }
  template <class... A> Timer createTimer(A...) { return Timer(); }
  template <class... A> Timer createTimer(const TimerOptions&) { return Timer(); }
  template <class T> bool getParam(const char*, T&) const { return false; }
  template <class T> bool getParam(const std::string&, T&) const { return false; }
  template <class T> void param(const char*, T& v, const T& d) const { v = d; }
  template <class T, class D> void param(const char*, T& v, const D& d) const { v = d; }
  template <class T> bool setParam(const std::string&, const T&) const { return true; }
  bool hasParam(const std::string&) const { return false; }
  void setCallbackQueue(CallbackQueue*) {}
  std::string getNamespace() const { return ""; }
};
template <class... A> inline void init(A&&...) {}
inline bool ok() { return true; }
inline void spin() {}
inline void spinOnce() {}
inline void shutdown() {}
namespace this_node { inline std::string getName() { return "node"; } }
namespace names { inline std::map<std::string, std::string> getRemappings() { return {}; } }
}  // namespace ros

namespace std_msgs {
struct Header { uint32_t seq = 0; ros::Time stamp; vcs::str frame_id; };
struct ColorRGBA { float r = 0, g = 0, b = 0, a = 0; };
struct UInt32 { uint32_t data = 0; };
struct Bool { uint8_t data = 0; };
struct Float64 { double data = 0; };
struct String { std::string data; };
struct MultiArrayDimension { uint32_t size = 0; vcs::str label; uint32_t stride = 0; };
struct MultiArrayLayout { std::vector<MultiArrayDimension> dim; uint32_t data_offset = 0; };
struct Float64MultiArray { MultiArrayLayout layout; std::vector<double> data; };
struct Int64MultiArray { MultiArrayLayout layout; std::vector<int64_t> data; };
}  // namespace std_msgs

#define VCS_PTRS(T) typedef vcs::ptr<T> Ptr; typedef vcs::ptr<T const> ConstPtr;
namespace geometry_msgs {
struct Point { double x = 0, y = 0, z = 0; VCS_PTRS(Point) };
struct Point32 { float x = 0, y = 0, z = 0; };
struct Vector3 { double x = 0, y = 0, z = 0; };
struct Quaternion { double x = 0, y = 0, z = 0, w = 0; };
struct Pose { Point position; Quaternion orientation; };
struct PoseStamped { std_msgs::Header header; Pose pose; VCS_PTRS(PoseStamped) };
struct PoseArray { std_msgs::Header header; std::vector<Pose> poses; };
struct PointStamped { std_msgs::Header header; Point point; VCS_PTRS(PointStamped) };
struct Vector3Stamped { std_msgs::Header header; Vector3 vector; };
struct Twist { Vector3 linear, angular; VCS_PTRS(Twist) };
struct TwistStamped { std_msgs::Header header; Twist twist; VCS_PTRS(TwistStamped) };
struct Transform { Vector3 translation; Quaternion rotation; };
struct TransformStamped { std_msgs::Header header; vcs::str child_frame_id; Transform transform; };
}  // namespace geometry_msgs

namespace nav_msgs {
struct Path { std_msgs::Header header; std::vector<geometry_msgs::PoseStamped> poses; VCS_PTRS(Path) };
struct GridCells { std_msgs::Header header; float cell_width = 0, cell_height = 0; std::vector<geometry_msgs::Point> cells; };
struct MapMetaData { float resolution = 0; uint32_t width = 0, height = 0; geometry_msgs::Pose origin; };
struct OccupancyGrid { std_msgs::Header header; MapMetaData info; std::vector<int8_t> data; };
struct Odometry { std_msgs::Header header; };
}  // namespace nav_msgs

namespace sensor_msgs {
struct PointField { enum { INT8 = 1, UINT8, INT16, UINT16, INT32, UINT32, FLOAT32, FLOAT64 }; vcs::str name; uint32_t offset = 0, count = 0; uint8_t datatype = 0; };
struct PointCloud2 {
  std_msgs::Header header; uint32_t height = 0, width = 0; std::vector<PointField> fields; bool is_bigendian = false;
  uint32_t point_step = 0, row_step = 0; std::vector<uint8_t> data; bool is_dense = false; VCS_PTRS(PointCloud2)
};
struct LaserScan {
  std_msgs::Header header; float angle_min = 0, angle_max = 0, angle_increment = 0, time_increment = 0, scan_time = 0, range_min = 0, range_max = 0;
  std::vector<float> ranges, intensities; VCS_PTRS(LaserScan)
};
struct Image { std_msgs::Header header; uint32_t height = 0, width = 0; vcs::str encoding; uint8_t is_bigendian = 0; uint32_t step = 0; std::vector<uint8_t> data; VCS_PTRS(Image) };
struct CameraInfo { std_msgs::Header header; uint32_t height = 0, width = 0; VCS_PTRS(CameraInfo) double K[9] = {}; };
struct Range { std_msgs::Header header; float range = 0; };
struct Imu { std_msgs::Header header; };
namespace image_encodings { static const char* const MONO8 = "mono8"; static const char* const RGB8 = "rgb8"; }
}  // namespace sensor_msgs

namespace mavros_msgs {
struct PositionTarget {
  std_msgs::Header header; uint8_t coordinate_frame = 0; uint16_t type_mask = 0; geometry_msgs::Point position; geometry_msgs::Vector3 velocity, acceleration_or_force;
  float yaw = 0, yaw_rate = 0;
};
struct Trajectory {
  enum { MAV_TRAJECTORY_REPRESENTATION_WAYPOINTS = 0, MAV_TRAJECTORY_REPRESENTATION_BEZIER = 1 };
  std_msgs::Header header; uint8_t type = 0; PositionTarget point_1, point_2, point_3, point_4, point_5; std::array<uint8_t, 5> point_valid{}; std::array<uint16_t, 5> command{}; std::array<float, 5> time_horizon{};
  VCS_PTRS(Trajectory)
};
struct Altitude { std_msgs::Header header; float monotonic = 0, amsl = 0, local = 0, relative = 0, terrain = 0, bottom_clearance = 0; VCS_PTRS(Altitude) };
struct State { std_msgs::Header header; bool connected = false, armed = false, guided = false, manual_input = false; vcs::str mode; uint8_t system_status = 0; VCS_PTRS(State) };
struct ParamValue { int64_t integer = 0; double real = 0; };
#ifdef VC_SYM
struct Param { std_msgs::Header header; std::string param_id; ParamValue value; };
#else
struct Param { std_msgs::Header header; std::string param_id; ParamValue value; };
#endif
struct ParamGet { struct Request { std::string param_id; } request; struct Response { bool success = false; ParamValue value; } response; };
struct SetMode { struct Request { std::string custom_mode; } request; struct Response { bool mode_sent = false; } response; };
struct CommandBool { struct Request { bool value = false; } request; struct Response { bool success = false; } response; };
struct Waypoint { uint8_t frame = 0; uint16_t command = 0; bool is_current = false, autocontinue = false; float param1 = 0, param2 = 0, param3 = 0, param4 = 0; double x_lat = 0, y_long = 0, z_alt = 0; };
struct WaypointList { uint16_t current_seq = 0; std::vector<Waypoint> waypoints; };
struct CompanionProcessStatus { std_msgs::Header header; uint8_t state = 0, component = 0; };
}  // namespace mavros_msgs

namespace visualization_msgs {
struct Marker {
  enum { ARROW = 0, CUBE, SPHERE, CYLINDER, LINE_STRIP, LINE_LIST, CUBE_LIST, SPHERE_LIST, POINTS, TEXT_VIEW_FACING, MESH_RESOURCE, TRIANGLE_LIST };
  enum { ADD = 0, MODIFY = 0, DELETE = 2, DELETEALL = 3 };
  std_msgs::Header header; vcs::str ns; int32_t id = 0, type = 0, action = 0; geometry_msgs::Pose pose; geometry_msgs::Vector3 scale; std_msgs::ColorRGBA color;
  ros::Duration lifetime; bool frame_locked = false; std::vector<geometry_msgs::Point> points; std::vector<std_msgs::ColorRGBA> colors; vcs::str text, mesh_resource;
  bool mesh_use_embedded_materials = false; VCS_PTRS(Marker)
};
struct MarkerArray { std::vector<Marker> markers; VCS_PTRS(MarkerArray) };
}  // namespace visualization_msgs

namespace tf {
typedef double tfScalar;
struct Vector3 {
  double v[4] = {0, 0, 0, 0};
  Vector3() {}
  Vector3(double x, double y, double z) { v[0] = x; v[1] = y; v[2] = z; }
  double x() const { return v[0]; } double y() const { return v[1]; } double z() const { return v[2]; }
  double getX() const { return v[0]; } double getY() const { return v[1]; } double getZ() const { return v[2]; }
  void setX(double a) { v[0] = a; } void setY(double a) { v[1] = a; } void setZ(double a) { v[2] = a; }
  Vector3 operator*(double s) const { return Vector3(v[0] * s, v[1] * s, v[2] * s); }
  double length() const { return std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]); }
  Vector3& normalize() { double l = length(); v[0] /= l; v[1] /= l; v[2] /= l; return *this; }
  Vector3& operator*=(double k) { v[0] *= k; v[1] *= k; v[2] *= k; return *this; }
  Vector3 operator+(const Vector3& o) const { return Vector3(v[0] + o.v[0], v[1] + o.v[1], v[2] + o.v[2]); }
  Vector3 operator-(const Vector3& o) const { return Vector3(v[0] - o.v[0], v[1] - o.v[1], v[2] - o.v[2]); }
};
struct Quaternion {
  double q[4] = {0, 0, 0, 1};
  Quaternion() {}
  Quaternion(double x, double y, double z, double w) { q[0] = x; q[1] = y; q[2] = z; q[3] = w; }
  double x() const { return q[0]; } double y() const { return q[1]; } double z() const { return q[2]; } double w() const { return q[3]; }
  double getX() const { return q[0]; } double getY() const { return q[1]; } double getZ() const { return q[2]; } double getW() const { return q[3]; }
  void setRPY(double r, double p, double y) {
    double cy = std::cos(y / 2), sy = std::sin(y / 2), cp = std::cos(p / 2), sp = std::sin(p / 2), cr = std::cos(r / 2), sr = std::sin(r / 2);
    q[0] = sr * cp * cy - cr * sp * sy; q[1] = cr * sp * cy + sr * cp * sy; q[2] = cr * cp * sy - sr * sp * cy; q[3] = cr * cp * cy + sr * sp * sy;
  }
  // spherical interpolation; only its end points are specified here: equal to this at t = 0, to o at t = 1
  Quaternion slerp(const Quaternion& o, double t) const {
    return Quaternion(q[0] + (o.q[0] - q[0]) * t, q[1] + (o.q[1] - q[1]) * t, q[2] + (o.q[2] - q[2]) * t, q[3] + (o.q[3] - q[3]) * t);
  }
};
struct Matrix3x3 { Matrix3x3(const Quaternion&) {} void getRPY(double& r, double& p, double& y) const { r = p = y = 0; } };
struct Transform {
  Vector3 origin; Quaternion rotation;
  Transform() {}
  Transform(const Quaternion& r, const Vector3& o = Vector3()) : origin(o), rotation(r) {}
  const Vector3& getOrigin() const { return origin; }
  Vector3& getOrigin() { return origin; }
  Quaternion getRotation() const { return rotation; }
  void setOrigin(const Vector3& o) { origin = o; }
  void setRotation(const Quaternion& r) { rotation = r; }
  void setIdentity() { origin = Vector3(); rotation = Quaternion(); }
};
struct StampedTransform : Transform {
  ros::Time stamp_; vcs::str frame_id_, child_frame_id_;
  StampedTransform() {}
  StampedTransform(const Transform& t, const ros::Time& s, const std::string& f, const std::string& c) : Transform(t), stamp_(s), frame_id_(f), child_frame_id_(c) {}
};
struct TransformException { const char* what() const { return ""; } };
struct Transformer { static const int DEFAULT_CACHE_TIME = 10; };
struct TransformListener {
  TransformListener() {}
  TransformListener(ros::Duration, bool = true) {}
  static bool (*&available())() { static bool (*f)() = nullptr; return f; }   // set by the harness
  bool canTransform(const std::string&, const std::string&, const ros::Time&) const { return available() ? available()() : true; }
  void lookupTransform(const std::string&, const std::string&, const ros::Time&, StampedTransform&) const {}
  bool waitForTransform(const std::string&, const std::string&, const ros::Time&, const ros::Duration&) const { return true; }
  template <class M> void transformPose(const std::string&, const M& a, M& b) const { b = a; }
  template <class M> void transformVector(const std::string&, const ros::Time&, const M& a, const std::string&, M& b) const { b = a; }
  template <class M> void transformPoint(const std::string&, const M& a, M& b) const { b = a; }
};
inline double getYaw(const geometry_msgs::Quaternion& q) { return std::atan2(2 * (q.w * q.z + q.x * q.y), 1 - 2 * (q.y * q.y + q.z * q.z)); }
inline geometry_msgs::Quaternion createQuaternionMsgFromYaw(double yaw) { geometry_msgs::Quaternion q; q.z = std::sin(yaw / 2); q.w = std::cos(yaw / 2); return q; }
inline void pointTFToMsg(const Vector3& a, geometry_msgs::Point& b) { b.x = a.x(); b.y = a.y(); b.z = a.z(); }
inline void pointMsgToTF(const geometry_msgs::Point& a, Vector3& b) { b = Vector3(a.x, a.y, a.z); }
}  // namespace tf

namespace pcl {
struct PCLHeader { uint32_t seq = 0; uint64_t stamp = 0; vcs::str frame_id; };
struct PointXYZ {
  float x = 0, y = 0, z = 0, pad_ = 1;
  PointXYZ() {}
  PointXYZ(float a, float b, float c) : x(a), y(b), z(c) {}
};
struct PointXYZI {
  float x = 0, y = 0, z = 0, pad_ = 1, intensity = 0;
  PointXYZI() {}
};
template <class P> inline bool isFinite(const P& p) { return std::isfinite(p.x) && std::isfinite(p.y) && std::isfinite(p.z); }
template <class P>
struct PointCloud {
  typedef vcs::ptr<PointCloud<P>> Ptr;
  typedef vcs::ptr<PointCloud<P> const> ConstPtr;
  typedef typename std::vector<P>::iterator iterator;
  typedef typename std::vector<P>::const_iterator const_iterator;
  PCLHeader header; std::vector<P> points; uint32_t width = 0, height = 0; bool is_dense = true;
  void push_back(const P& p) { points.push_back(p); width = points.size(); height = 1; }
  size_t size() const { return points.size(); }
  bool empty() const { return points.empty(); }
  void clear() { points.clear(); width = height = 0; }
  void reserve(size_t n) { points.reserve(n); }
  void resize(size_t n) { points.resize(n); width = n; height = 1; }
  iterator begin() { return points.begin(); }
  iterator end() { return points.end(); }
  const_iterator begin() const { return points.begin(); }
  const_iterator end() const { return points.end(); }
  P& operator[](size_t i) { return points[i]; }
  const P& operator[](size_t i) const { return points[i]; }
  P& at(size_t i) { return points.at(i); }
  const P& at(size_t i) const { return points.at(i); }
  void swap(PointCloud& o) { std::swap(*this, o); }
  Ptr makeShared() const { return Ptr(new PointCloud(*this)); }
  PointCloud& operator+=(const PointCloud& o) { for (const P& p : o.points) points.push_back(p); width = points.size(); height = 1; return *this; }
};
template <class P> inline void fromROSMsg(const sensor_msgs::PointCloud2&, PointCloud<P>&) {}
template <class P> inline void toROSMsg(const PointCloud<P>&, sensor_msgs::PointCloud2&) {}
template <class P> inline void removeNaNFromPointCloud(const PointCloud<P>& in, PointCloud<P>& out, std::vector<int>& idx) {
  PointCloud<P> r; idx.clear();
  for (size_t i = 0; i < in.points.size(); i++) if (isFinite(in.points[i])) { r.points.push_back(in.points[i]); idx.push_back(i); }
  r.width = r.points.size(); r.height = 1; out = r;
}
}  // namespace pcl
namespace pcl_conversions {
inline void toPCL(const ros::Time& a, uint64_t& b) { b = a.toNSec() / 1000; }
inline ros::Time fromPCL(uint64_t a) { return ros::Time::nsec_((int64_t)a * 1000); }
inline std_msgs::Header fromPCL(const pcl::PCLHeader& a) { std_msgs::Header h; h.stamp = fromPCL(a.stamp); h.frame_id = a.frame_id; return h; }
}  // namespace pcl_conversions
namespace pcl_ros {
template <class P> inline bool transformPointCloud(const std::string&, const pcl::PointCloud<P>& a, pcl::PointCloud<P>& b, const tf::TransformListener& l) { if (!l.canTransform("", "", ros::Time())) return false; b = a; return true; }
template <class P> inline void transformPointCloud(const pcl::PointCloud<P>& a, pcl::PointCloud<P>& b, const tf::Transform&) { b = a; }
inline void transformPointCloud(const std::string&, const tf::Transform&, const sensor_msgs::PointCloud2& a, sensor_msgs::PointCloud2& b) { b = a; }
}  // namespace pcl_ros

namespace dynamic_reconfigure {
template <class C> struct Server {
  typedef std::function<void(C&, uint32_t)> CallbackType;
  Server() {}
  template <class... A> Server(A&&...) {}
  template <class F> void setCallback(const F&) {}
};
}  // namespace dynamic_reconfigure
namespace nodelet {
struct Nodelet { virtual ~Nodelet() {} virtual void onInit() {} ros::NodeHandle& getNodeHandle() const { static ros::NodeHandle n; return n; } ros::NodeHandle& getPrivateNodeHandle() const { static ros::NodeHandle n; return n; } std::string getName() const { return ""; } };
}  // namespace nodelet
namespace octomap {
struct point3d { float v[3] = {0, 0, 0}; point3d() {} point3d(float x, float y, float z) { v[0] = x; v[1] = y; v[2] = z; } float x() const { return v[0]; } float y() const { return v[1]; } float z() const { return v[2]; } };
typedef point3d OcTreeKey_;
inline double probability(double l) { return 1. - (1. / (1. + std::exp(l))); }
inline float logodds(double p) { return (float)std::log(p / (1 - p)); }
struct OcTreeNode { float value = 0; float getLogOdds() const { return value; } float getValue() const { return value; } double getOccupancy() const { return probability(value); } void setLogOdds(float v) { value = v; } };
struct AbstractOcTree { virtual ~AbstractOcTree() {} };
struct OcTree : AbstractOcTree {
  OcTree(double r = 1) : res(r) {}
  double res;
  OcTreeNode* node = nullptr;          // set by the harness: the node every search finds
  OcTreeNode* search(double, double, double, unsigned = 0) const { return node; }
  double getResolution() const { return res; }
  bool isNodeOccupied(const OcTreeNode* n) const { return n->value >= 0; }
  bool isNodeOccupied(const OcTreeNode& n) const { return n.value >= 0; }
};
}  // namespace octomap
namespace octomap_msgs {
struct Octomap { std_msgs::Header header; double resolution = 1; bool binary = false; };
inline octomap::AbstractOcTree* msgToMap(const Octomap&) { return nullptr; }
inline octomap::AbstractOcTree* fullMsgToMap(const Octomap&) { return nullptr; }
}  // namespace octomap_msgs
