// Contracts of avoidance::TreeNode (local_planner/src/nodes/tree_node.cpp)
#include "vc.h"
#include <local_planner/src/nodes/tree_node.cpp>
using namespace avoidance;

HARNESS(tree_node) {
  TreeNode d;
  ENSURES("a default node is an open, cost-free root at the origin", d.getPosition() == Eigen::Vector3f(0, 0, 0) && d.getVelocity() == Eigen::Vector3f(0, 0, 0) && d.total_cost_ == 0.f && d.heuristic_ == 0.f && d.origin_ == 0 && !d.closed_ && d.depth_ == 0);
  int from = vc::i32("from");
  Eigen::Vector3f p(vc::flt("px"), vc::flt("py"), vc::flt("pz")), v(vc::flt("vx"), vc::flt("vy"), vc::flt("vz"));
  TreeNode n(from, p, v);
  ENSURES("a new node keeps its parent, position and velocity and is open and cost-free", n.getPosition() == p && n.getVelocity() == v && n.origin_ == from && n.total_cost_ == 0.f && n.heuristic_ == 0.f && !n.closed_ && n.depth_ == 0);
  float h = vc::flt("h"), c = vc::flt("c");
  n.setCosts(h, c);
  ENSURES("setting the costs stores heuristic and total cost and nothing else", n.heuristic_ == h && n.total_cost_ == c && n.getPosition() == p && n.getVelocity() == v && n.origin_ == from && !n.closed_ && n.depth_ == 0);
}
