// M03: pose_transform node on random poses and frame trees.
#include "node.h"
#include <geometry_msgs/PoseWithCovarianceStamped.h>
#include <geometry_msgs/TransformStamped.h>
#include <tf2_ros/buffer.h>
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <cmath>
typedef geometry_msgs::PoseWithCovarianceStamped Pose;
typedef Eigen::Vector3d V;
typedef Eigen::Quaterniond Q;
static Q rot(vf::Rng& r)
{
  return Q(Eigen::AngleAxisd(r.u(-3.1, 3.1), V::UnitZ()) * Eigen::AngleAxisd(r.p(0.5) ? 0 : r.u(-1, 1), V::UnitY()) * Eigen::AngleAxisd(r.p(0.5) ? 0 : r.u(-1, 1), V::UnitX()));
}
static void body(vf::Rng& r, long)
{
  auto& core = node::core();
  core.reset();
  std::string to = "map";
  if (r.p(0.6))
    core.setParam("/pose_transform/to_frame", to = r.pick({ "target", "map_ground", "map" }));
  std::vector<Pose> got;
  core.observe<Pose>("/pose_out", [&](const Pose& p) { got.push_back(p); });
  bool spun = false;
  node::spinWith([&]()
  {
    spun = true;
    V p(0, 0, 0);
    Q q(1, 0, 0, 0);
    bool known = false;
    std::string parent = to, child = "src";
    bool reverse = false, st = false;
    uint64_t h = 0;
    const int steps = r.i(2, 12);
    for (int i = 0; i < steps; i++)
    {
      node::advance(r.u(0.01, 1));
      if (i == 0 || r.p(0.4))
      {
        shim::TfTree::get().links.clear();
        known = r.p(0.8);
        reverse = r.p(0.3);
        st = r.p(0.3);
        p = V(r.u(-50, 50), r.u(-50, 50), r.u(-5, 5));
        q = rot(r);
        if (known)
          for (int k = 0; k < 2; k++)
          {
            geometry_msgs::TransformStamped m;
            // an older, different transform has to be ignored in favour of the latest
            const V pk = k == 0 ? V(p + V(1, 2, 3)) : p;
            const V pp = reverse ? V(-(q.inverse() * pk)) : pk;
            const Q qq = reverse ? q.inverse() : q;
            m.header.stamp = core.now - ros::Duration(k == 0 ? 1.0 : r.u(0, 0.5));
            m.header.frame_id = reverse ? "src" : to;
            m.child_frame_id = reverse ? to : "src";
            m.transform.translation.x = pp.x();
            m.transform.translation.y = pp.y();
            m.transform.translation.z = pp.z();
            m.transform.rotation.x = qq.x();
            m.transform.rotation.y = qq.y();
            m.transform.rotation.z = qq.z();
            m.transform.rotation.w = qq.w();
            if (k == 1 || !st)
              shim::TfTree::get().set(m, st);
          }
      }
      Pose in;
      const bool own = r.p(0.1);
      in.header.frame_id = own ? to : r.p(0.05) ? "unknown" : "src";
      in.header.stamp = r.p(0.1) ? ros::Time(0) : core.now + ros::Duration(r.u(-3, 1));
      in.header.seq = i;
      const V ip(r.u(-50, 50), r.u(-50, 50), r.u(-5, 5));
      const Q iq = rot(r);
      in.pose.pose.position.x = ip.x();
      in.pose.pose.position.y = ip.y();
      in.pose.pose.position.z = ip.z();
      in.pose.pose.orientation.x = iq.x();
      in.pose.pose.orientation.y = iq.y();
      in.pose.pose.orientation.z = iq.z();
      in.pose.pose.orientation.w = iq.w();
      for (int k = 0; k < 36; k++)
        in.pose.covariance[k] = r.u(-1, 1);
      got.clear();
      core.send("/pose_in", in);
      core.drain();
      vf::evaluated(1);
      const bool avail = in.header.frame_id == "src" ? known : own ? known : false;
      if (!avail)
      {
        vf::count("poses without transform", 1);
        if (!own)
          VF_CHECK(got.empty(), "no-transform", "%zu poses published without a transform from %s to %s", got.size(), in.header.frame_id.c_str(), to.c_str());
        continue;
      }
      vf::count("poses", 1);
      if (!VF_OK(got.size() == 1, "once", "%zu poses published for one pose in %s", got.size(), in.header.frame_id.c_str()))
        continue;
      const V wp = own ? ip : V(q * ip + p);
      const Q wq = own ? iq : q * iq;
      const auto& o = got[0].pose.pose;
      VF_CHECK(got[0].header.frame_id == to, "frame", "pose published in %s instead of %s", got[0].header.frame_id.c_str(), to.c_str());
      VF_CHECK((V(o.position.x, o.position.y, o.position.z) - wp).norm() < 1e-6, "position", "(%g, %g, %g) instead of (%g, %g, %g)", o.position.x, o.position.y, o.position.z, wp.x(), wp.y(), wp.z());
      VF_CHECK(std::fabs(std::fabs(Q(o.orientation.w, o.orientation.x, o.orientation.y, o.orientation.z).dot(wq)) - 1) < 1e-9, "orientation", "orientation differs by %g rad",
               Q(o.orientation.w, o.orientation.x, o.orientation.y, o.orientation.z).angularDistance(wq));
      VF_CHECK(got[0].pose.covariance == in.pose.covariance, "covariance", "covariance has changed");
      h = vf::hashAdd(h, wp.x());
      vf::nontrivial(h);
    }
  });
  VF_CHECK(spun, "not-running", "the node does not wait for poses");
}
int main(int argc, char** argv)
{
  return vf::run(argc, argv, body);
}
