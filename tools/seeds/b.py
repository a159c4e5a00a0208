PRE = r'''
#include <cstdio>
#include <cmath>
#include <cstdlib>
#include "avoidance/src/common.cpp"
#include "avoidance/src/histogram.cpp"
using namespace avoidance;
#define CHECK(c) do { if (!(c)) { printf("broken: %s\n", #c); return 1; } } while (0)
'''
C = 'avoidance/src/common.cpp'
BUGS = [
dict(id='A01-yawrate-wrap', property='A01', stubs=True, edits=[(C, "  desired_yaw = wrapAngleToPlusMinusPI(desired_yaw);\n  float yaw_vel1", "  if (desired_yaw > M_PI_F) desired_yaw -= 2.0f * M_PI_F;\n  float yaw_vel1")],
 needs='a desired heading below minus half a turn', breaks='the yaw rate is more than half a turn and in the wrong direction for headings that need wrapping from below',
 demo=PRE + r'''
int main() { for (float d = -9.f; d < 9.f; d += 0.1f) for (float c = -3.f; c < 3.f; c += 0.1f) CHECK(std::fabs(getAngularVelocity(d, c)) <= M_PI / 2 + 1e-3); return 0; }
'''),
dict(id='A02-wrap-zenith', property='A02', stubs=True, edits=[(C, "    if (p_pol.z < 0.f)\n      p_pol.z += 180.f;", "    if (p_pol.z < 0.f && p_pol.e >= 0.f)\n      p_pol.z += 180.f;")],
 needs='an elevation that wraps below the nadir together with a negative azimuth', breaks='wrapping leaves the azimuth outside its range',
 demo=PRE + r'''
int main() { for (int e = -350; e < 350; e += 7) for (int z = -350; z < 350; z += 7) { PolarPoint p(e, z, 1.f); wrapPolar(p); CHECK(p.z >= -180.f && p.z <= 180.f && p.e >= -90.f && p.e <= 90.f); } return 0; }
'''),
dict(id='A03-edge-other', property='A03', stubs=True, edits=[(C, "    if (wrapAngleToPlusMinus180(p_pol.z - fov_vec[idx].yaw_deg) > 0.0f) {", "    if (p_pol.z - fov_vec[idx].yaw_deg > 0.0f) {")],
 needs='a camera looking backward, with a direction on the other side of +-180 degrees than its centre', breaks='the wrong side of the camera is tested for being an outer edge',
 demo=PRE + r'''
int main() { std::vector<FOV> v; v.push_back(FOV(170.f, 0.f, 60.f, 40.f)); v.push_back(FOV(110.f, 0.f, 64.f, 40.f)); int i; PolarPoint p(0.f, -165.f, 1.f);
  CHECK(isOnEdgeOfFOV(v, p, i) && i == 0); return 0; }
'''),
dict(id='A04-ascending', property='A04', stubs=True, edits=[(C, "    if (cloud.points[j].y < y_min) {", "    if (cloud.points[j].y <= x_min && cloud.points[j].y < y_min) {")],
 needs='a cloud whose smallest y coordinate is larger than its smallest x coordinate', breaks='the point of smallest y is not reported',
 demo=PRE + r'''
int main() { pcl::PointCloud<pcl::PointXYZ> c; c.push_back(pcl::PointXYZ(-5, 3, 1)); c.push_back(pcl::PointXYZ(1, 1, 2)); auto m = removeNaNAndGetMaxima(c);
  bool ok = false; for (auto p : m) ok |= p.y == 1; CHECK(ok && m.size() == 6); return 0; }
'''),
dict(id='A07-yawrate', property='A07', stubs=True, edits=[(C, "  obst_avoid.point_1.yaw_rate = -vel.angular.z;", "  obst_avoid.point_1.yaw_rate = std::isfinite(vel.angular.z) ? -vel.angular.z : 0.0;")],
 needs='a setpoint whose yaw rate is not commanded (NaN)', breaks='an uncommanded yaw rate is sent to the autopilot as a commanded zero',
 demo=PRE + r'''
int main() { mavros_msgs::Trajectory t; geometry_msgs::PoseStamped p; geometry_msgs::Twist v; p.pose.orientation.w = 1; v.angular.z = NAN; transformToTrajectory(t, p, v); CHECK(std::isnan(t.point_1.yaw_rate)); return 0; }
'''),
]
