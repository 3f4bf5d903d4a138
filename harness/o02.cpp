// O02: tf_projection node on arbitrary frame trees and options against an independent projection.
#include "node.h"
#include <geometry_msgs/TransformStamped.h>
#include <tf2_ros/buffer.h>
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <cmath>
typedef Eigen::Vector3d V;
typedef Eigen::Quaterniond Q;
struct T
{
  V p = V::Zero();
  Q q = Q::Identity();
  T inv() const
  {
    T r;
    r.q = q.inverse();
    r.p = -(r.q * p);
    return r;
  }
  T operator*(const T& b) const
  {
    T r;
    r.q = q * b.q;
    r.p = q * b.p + p;
    return r;
  }
};
static T rnd(vf::Rng& r, double tilt, double xy, double z)
{
  T t;
  t.p = V(r.u(-xy, xy), r.u(-xy, xy), r.u(-z, z));
  t.q = Q(Eigen::AngleAxisd(r.u(-3.1, 3.1), V::UnitZ()) * Eigen::AngleAxisd(r.u(-tilt, tilt), V::UnitY()) * Eigen::AngleAxisd(r.u(-tilt, tilt), V::UnitX()));
  return t;
}
static double heading(const Q& q)
{
  const V x = q * V::UnitX();
  return std::atan2(x.y(), x.x());
}
static double wrap(double a)
{
  return std::remainder(a, 2 * M_PI);
}
static void body(vf::Rng& r, long)
{
  auto& core = node::core();
  core.reset();
  const std::string ns = "/tf_projection";
  std::string source = "base_link", surface = "map", parent = "map", projected = "base_link_projected";
  if (r.p(0.7))
  {
    source = "src";
    surface = "surf";
    parent = r.p(0.3) ? "surf" : "par";
    projected = "proj";
    const bool old = r.p(0.2);
    core.setParam(ns + (old ? "/base_link_frame" : "/source_frame"), source);
    core.setParam(ns + (old ? "/projection_frame" : "/projection_surface_frame"), surface);
    core.setParam(ns + (old ? "/target_frame" : "/parent_frame"), parent);
    core.setParam(ns + (old ? "/frame" : "/projected_frame"), projected);
  }
  const double hz = r.pick({10.0, 20.0, 5.0}), tol = r.p(0.3) ? 0.1 : r.u(0, 0.5);
  const bool flat = r.p(0.3), posture = r.p(0.5), align = r.p(0.4);
  core.setParam(ns + "/hz", hz);
  core.setParam(ns + "/tf_tolerance", tol);
  core.setParam(ns + "/flat", flat);
  core.setParam(ns + "/project_posture", posture);
  core.setParam(ns + "/align_all_posture_to_source", align);
  const bool static_source = r.p(0.2), level_parent = r.p(0.5);
  const double tilt = r.p(0.2) ? 0 : r.u(0, 1.2);
  bool have_source = true, have_parent = true;
  // parent -> surface and surface -> source
  T ps, sb;
  ros::Time stamp;
  long outs = 0, statics = 0;
  std::vector<std::pair<geometry_msgs::TransformStamped, bool>> got;
  core.observe<geometry_msgs::TransformStamped>("/tf", [&](const geometry_msgs::TransformStamped& t)
                                                { got.push_back({t, false}); });
  core.observe<geometry_msgs::TransformStamped>("/tf_static", [&](const geometry_msgs::TransformStamped& t)
                                                { got.push_back({t, true}); });
  node::spinWith([&]()
                 {
    auto set = [&](const std::string& p, const std::string& c, const T& t, const ros::Time& at, bool st)
    {
      geometry_msgs::TransformStamped m;
      m.header.stamp = at;
      m.header.frame_id = p;
      m.child_frame_id = c;
      m.transform.translation.x = t.p.x();
      m.transform.translation.y = t.p.y();
      m.transform.translation.z = t.p.z();
      m.transform.rotation.w = t.q.w();
      m.transform.rotation.x = t.q.x();
      m.transform.rotation.y = t.q.y();
      m.transform.rotation.z = t.q.z();
      shim::TfTree::get().set(m, st);
    };
    node::advance(0.5 / hz);
    const int steps = r.i(3, 12);
    for (int i = 0; i < steps; i++)
    {
      have_source = r.p(0.9);
      have_parent = r.p(0.9) || parent == surface;
      ps = parent == surface ? T() : rnd(r, level_parent ? 0 : tilt, 20, 3);
      sb = rnd(r, tilt, 30, 5);
      stamp = core.now - ros::Duration(r.u(0, 0.2));
      shim::TfTree::get().links.clear();
      // a parent that moves: the projection belongs to the time of the source
      T ps0 = ps, ps1 = ps;
      ps0.p += V(1, 2, 0);
      ps1.p -= V(1, 2, 0);
      // the tree may hang either way round
      const bool reverse = r.p(0.3);
      if (have_source)
      {
        if (reverse)
          set(source, surface, sb.inv(), stamp, static_source);
        else
          set(surface, source, sb, stamp, static_source);
      }
      if (have_parent && parent != surface)
      {
        if (static_source)
          set(reverse ? surface : parent, reverse ? parent : surface, reverse ? ps.inv() : ps, stamp, true);
        else if (!reverse)
        {
          set(parent, surface, ps0, stamp - ros::Duration(0.3), false);
          set(parent, surface, ps1, stamp + ros::Duration(0.3), false);
        }
        else
        {
          // source is the root: surface hangs below it, parent below surface
          set(surface, parent, ps.inv(), stamp - ros::Duration(0.1), false);
          set(surface, parent, ps.inv(), stamp, false);
        }
      }
      got.clear();
      node::advance(1 / hz);
      core.drain();
      vf::evaluated(1);
      const bool expect = have_source && have_parent;
      VF_CHECK(got.size() == (expect ? 1 : 0), expect ? "projection not published once" : "projection published without transforms", "%zu", got.size());
      if (!expect)
        vf::count("missing transforms");
      if (got.size() != 1)
        continue;
      outs++;
      const auto& m = got[0].first;
      VF_CHECK(m.header.frame_id == parent && m.child_frame_id == projected, "frames of the projection", "%s %s", m.header.frame_id.c_str(), m.child_frame_id.c_str());
      VF_CHECK(got[0].second == static_source, "static or not", "%d for %d", got[0].second, static_source);
      if (static_source)
        statics++;
      else
        VF_CHECK(std::fabs((m.header.stamp - stamp).toSec() - tol) < 1e-6, "stamp of the projection", "%g ahead, tolerance %g", (m.header.stamp - stamp).toSec(), tol);
      T out;
      out.p = V(m.transform.translation.x, m.transform.translation.y, m.transform.translation.z);
      out.q = Q(m.transform.rotation.w, m.transform.rotation.x, m.transform.rotation.y, m.transform.rotation.z);
      VF_CHECK(std::fabs(out.q.norm() - 1) < 1e-5, "orientation is not normalised", "%g", out.q.norm());
      // in the surface frame
      const T s = ps.inv() * out;
      const double yaw = heading(sb.q);
      const double eps = 2e-5 * (1 + sb.p.norm() + ps.p.norm());
      VF_CHECK(std::fabs(s.p.z()) < eps, "projected frame is not on the surface", "%g above", s.p.z());
      if (!(posture && align))
        VF_CHECK(std::hypot(s.p.x() - sb.p.x(), s.p.y() - sb.p.y()) < eps, "projected frame is not below the source", "%g %g, source %g %g", s.p.x(), s.p.y(), sb.p.x(), sb.p.y());
      else
      {
        // the surface is taken as level to the source
        const V ex = sb.q * V::UnitX(), ey = sb.q * V::UnitY();
        const double a = sb.p.dot(ex), b = sb.p.dot(ey);
        const double x = a * std::cos(yaw) - b * std::sin(yaw), y = a * std::sin(yaw) + b * std::cos(yaw);
        VF_CHECK(std::hypot(s.p.x() - x, s.p.y() - y) < eps, "projected frame is not below the source (aligned)", "%g %g, expected %g %g", s.p.x(), s.p.y(), x, y);
      }
      if (flat)
      {
        const V up = out.q * V::UnitZ();
        VF_CHECK(up.z() > 1 - 1e-5, "flat frame is not level in the parent", "%g", up.z());
        // heading seen from the parent
        const double e = posture ? heading(ps.q * Q(Eigen::AngleAxisd(yaw, V::UnitZ()))) : heading(ps.q * sb.q);
        VF_CHECK(std::fabs(wrap(heading(out.q) - e)) < 1e-4, "heading of the flat frame", "%g, source %g", heading(out.q), e);
      }
      else if (posture)
      {
        const V up = s.q * V::UnitZ();
        VF_CHECK(up.z() > 1 - 1e-5, "projected posture is not level to the surface", "%g", up.z());
        VF_CHECK(std::fabs(wrap(heading(s.q) - yaw)) < 1e-4, "heading of the projected frame", "%g, source %g", heading(s.q), yaw);
      }
      else
        VF_CHECK(std::fabs(s.q.dot(sb.q)) > 1 - 1e-8, "orientation of the projected frame", "%g", std::fabs(s.q.dot(sb.q)));
    } });
  vf::count("projections", outs);
  vf::count("static projections", statics);
  if (flat && outs)
    vf::count("flat", outs);
  if (posture && align && outs)
    vf::count("aligned", outs);
  if (outs > 1)
    vf::nontrivial(vf::hashAdd(vf::hashAdd(outs, sb.p.x()), sb.p.y()));
}
int main(int argc, char** argv)
{
  return vf::run(argc, argv, body);
}
