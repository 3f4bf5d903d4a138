// O01: track_odometry node on arbitrary odometry and IMU histories against a reference of the fusion.
#include "node.h"
#include <geometry_msgs/TransformStamped.h>
#include <nav_msgs/Odometry.h>
#include <sensor_msgs/Imu.h>
#include <std_msgs/Float32.h>
#include <tf2_ros/buffer.h>
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <cmath>
typedef Eigen::Vector3d V;
typedef Eigen::Quaterniond Q;
static geometry_msgs::Quaternion msg(const Q& q)
{
  geometry_msgs::Quaternion m;
  m.w = q.w();
  m.x = q.x();
  m.y = q.y();
  m.z = q.z();
  return m;
}
static Q rpy(double r, double p, double y)
{
  return Q(Eigen::AngleAxisd(y, V::UnitZ()) * Eigen::AngleAxisd(p, V::UnitY()) * Eigen::AngleAxisd(r, V::UnitX()));
}
static double angle(const Q& a, const geometry_msgs::Quaternion& b)
{
  const Q q(b.w, b.x, b.y, b.z);
  if (std::fabs(q.norm() - 1) > 1e-6)
    return 1e9;
  return 2 * std::acos(std::min(1.0, std::fabs(a.dot(q))));
}
struct In
{
  ros::Time t;
  V p;
  Q qo, qi;
  V wi;
  double wo, vx;
};
static void body(vf::Rng& r, long)
{
  auto& core = node::core();
  core.reset();
  const std::string ns = "/track_odometry";
  const bool without = r.p(0.1);
  const bool use_kf = r.p(0.5), negative = r.p(0.3), publish_tf = r.p(0.8);
  const double tol = r.p(0.3) ? 0.01 : r.u(0, 0.2), zf = r.p(0.5) ? -1 : r.u(0.05, 3);
  const double sigma_odom = r.p(0.5) ? 0.005 : r.u(0.001, 0.1), sigma_predict = r.u(0.05, 2), tc = r.p(0.3) ? 1.0 : r.u(0, 3);
  const bool overwrite = r.p(0.5);
  const std::string base = without ? "base_link" : overwrite ? "base_x" : "base_o";
  core.setParam(ns + "/use_kf", use_kf);
  core.setParam(ns + "/enable_negative_slip", negative);
  core.setParam(ns + "/publish_tf", publish_tf);
  core.setParam(ns + "/tf_tolerance", tol);
  double ztc = zf;
  if (r.p(0.2))
  {
    const double f = r.pick({0.9, 0.99, 1.0, 0.5});
    core.setParam(ns + "/z_filter", f);
    ztc = f < 1 ? 0.01 / (1 - f) : -1;
  }
  else
    core.setParam(ns + "/z_filter_timeconst", zf);
  core.setParam(ns + "/sigma_odom", sigma_odom);
  core.setParam(ns + "/sigma_predict", sigma_predict);
  core.setParam(ns + "/predict_filter_tc", tc);
  core.setParam(ns + "/without_odom", without);
  if (!without && overwrite)
    core.setParam(ns + "/base_link_id", base);
  // mounting of the IMU
  const Q mount = r.p(0.2) ? Q::Identity() : r.p(0.3) ? rpy(M_PI, 0, 0) : rpy(r.u(-3, 3), r.u(-1.5, 1.5), r.u(-3, 3));
  bool tf_ok = true;
  auto setTf = [&]()
  {
    shim::TfTree::get().links.clear();
    if (!tf_ok)
      return;
    geometry_msgs::TransformStamped m;
    m.header.stamp = core.now;
    m.header.frame_id = base;
    m.child_frame_id = "imu";
    m.transform.translation.x = r.u(-0.2, 0.2);
    m.transform.rotation = msg(mount);
    shim::TfTree::get().set(m, true);
  };
  std::vector<In> ins;
  // --- reference
  bool has_prev = false;
  In raw_prev;
  V prev(0, 0, 0);
  double x = 0, s = 0.1;
  long outs = 0, scaled = 0, gaps = 0, tfs = 0, resets = 0;
  nav_msgs::Odometry last;
  core.observe<geometry_msgs::TransformStamped>("/tf", [&](const geometry_msgs::TransformStamped& t)
                                                {
    tfs++;
    const auto& p = last.pose.pose;
    VF_CHECK(publish_tf, "broadcast though disabled", "%s", t.child_frame_id.c_str());
    VF_CHECK(t.header.stamp == last.header.stamp && t.header.frame_id == last.header.frame_id && t.child_frame_id == last.child_frame_id && t.transform.translation.x == p.position.x && t.transform.translation.y == p.position.y &&
                 t.transform.translation.z == p.position.z && t.transform.rotation.w == p.orientation.w && t.transform.rotation.x == p.orientation.x && t.transform.rotation.y == p.orientation.y && t.transform.rotation.z == p.orientation.z,
             "broadcast transform differs from the published pose", "%g %g %g", t.transform.translation.x - p.position.x, t.transform.translation.y - p.position.y, t.transform.translation.z - p.position.z); });
  Q latest_imu = Q::Identity();
  core.observe<nav_msgs::Odometry>("/odom", [&](const nav_msgs::Odometry& o)
                                   {
    VF_CHECK(tfs == (publish_tf ? outs : 0), "pose without broadcast transform", "%ld of %ld", tfs, outs);
    outs++;
    vf::evaluated(1);
    last = o;
    const auto& p = o.pose.pose.position;
    VF_CHECK(std::isfinite(p.x) && std::isfinite(p.y) && std::isfinite(p.z), "position is not finite", "%g %g %g", p.x, p.y, p.z);
    VF_CHECK(o.child_frame_id == base && o.header.frame_id == "odom", "frames", "%s %s", o.header.frame_id.c_str(), o.child_frame_id.c_str());
    const V out(p.x, p.y, p.z);
    if (without)
    {
      VF_CHECK(angle(mount * latest_imu * mount.inverse(), o.pose.pose.orientation) < 1e-5, "orientation without odometry", "%g", angle(mount * latest_imu * mount.inverse(), o.pose.pose.orientation));
      VF_CHECK(std::hypot(p.x, p.y) < 1e-9 && std::fabs(p.z) <= std::fabs(prev.z()) + 1e-6 && p.z * prev.z() >= -1e-6 && (ztc > 0 || std::fabs(p.z - prev.z()) < 1e-6), "moved without odometry", "%g %g %g", p.x, p.y, p.z);
      VF_CHECK(std::fabs((o.header.stamp - core.now).toSec() - tol) < 1e-6, "stamp without odometry", "%g", (o.header.stamp - core.now).toSec());
      prev = out;
      return;
    }
    size_t j = ins.size();
    for (size_t k = ins.size(); k-- > 0;)
      if (std::fabs((o.header.stamp - ins[k].t).toSec() - tol) < 1e-6)
      {
        j = k;
        break;
      }
    VF_CHECK(j < ins.size(), "stamp", "not an input stamp plus the tolerance");
    if (j == ins.size())
      return;
    const In& in = ins[j];
    const Q qe = mount * in.qi * mount.inverse();
    VF_CHECK(angle(qe, o.pose.pose.orientation) < 1e-5, "orientation differs from the IMU", "%g rad", angle(qe, o.pose.pose.orientation));
    const V we = mount * in.wi;
    VF_CHECK((we - V(o.twist.twist.angular.x, o.twist.twist.angular.y, o.twist.twist.angular.z)).norm() < 1e-6, "angular velocity differs from the IMU", "%g %g %g", o.twist.twist.angular.x, o.twist.twist.angular.y, o.twist.twist.angular.z);
    VF_CHECK(o.twist.twist.linear.x == in.vx, "linear velocity changed", "%g %g", o.twist.twist.linear.x, in.vx);
    if (!has_prev)
      return;
    const double dt = (in.t - raw_prev.t).toSec();
    double wi = we.z(), ratio = 1;
    if (wi * in.wo < 0 && !negative)
      wi = in.wo;
    x -= x * std::min(1.0, dt * tc);
    s += dt * sigma_predict;
    if (std::fabs(in.wo) > 3 * sigma_odom)
      ratio = wi / in.wo;
    if (std::fabs(in.wo) >= sigma_odom)
    {
      const double m = (in.wo - wi) / (in.wo * std::fabs(in.wo)), d = in.wo * in.wo - sigma_odom * sigma_odom;
      const double sm = sigma_odom * std::fabs(2 * in.wo * sigma_odom / (d * d));
      const double k = s * s / (s * s + sm * sm);
      x += k * (m - x);
      s *= 1 - k;
    }
    const double factor = use_kf ? 1 - x : ratio;
    const V diff = in.p - raw_prev.p, u = qe * in.qo.inverse() * diff;
    V e = prev + factor * u;
    const double zb = e.z();
    const double eps = 1e-6 * (1 + e.norm() + u.norm() * std::fabs(factor));
    VF_CHECK(std::hypot(out.x() - e.x(), out.y() - e.y()) < eps, "displacement is not the turned and scaled measured one", "%g %g, expected %g %g, factor %g, moved %g, dt %g", out.x() - prev.x(), out.y() - prev.y(), e.x() - prev.x(), e.y() - prev.y(), factor, diff.norm(), dt);
    if (ztc <= 0)
      VF_CHECK(std::fabs(out.z() - zb) < eps, "height displacement", "%g, expected %g", out.z() - prev.z(), zb - prev.z());
    else
    {
      const double a = 1 - dt / ztc, b = std::exp(-dt / ztc), lo = std::max(0.0, std::min(a, b)), hi = b;
      VF_CHECK(zb > 0 ? out.z() > lo * zb - eps && out.z() < hi * zb + eps : out.z() < lo * zb + eps && out.z() > hi * zb - eps, "height filter", "%g from %g, dt %g of %g", out.z(), zb, dt, ztc);
    }
    if (std::fabs(factor - 1) > 1e-3 && diff.norm() > 1e-4)
      scaled++;
    if (dt > 0.5)
      gaps++;
    prev = out;
    raw_prev = in; });
  const int steps = r.i(50, 300);
  node::spinWith([&]()
                 {
    tf_ok = r.p(0.7);
    setTf();
    V p(r.u(-10, 10), r.u(-10, 10), r.u(-1, 1));
    Q qo = rpy(0, 0, r.u(-3, 3)), qi = rpy(r.u(-0.3, 0.3), r.u(-0.3, 0.3), r.u(-3, 3));
    const double period = r.u(0.008, 0.05), slip = r.p(0.3) ? 0 : r.u(-0.2, 0.4), gap = r.p(0.4) ? 0.02 : 0, outage = r.p(0.4) ? 0.05 : 0, noise = r.p(0.3) ? 0.1 : 0.002;
    double v = 0, w = 0;
    long processed = 0, alive = 0;
    for (int i = 0; i < steps; i++)
    {
      double h = period;
      if (r.p(gap))
        h += r.u(0, 8);
      node::advance(h + r.u(0, 1e-4));
      core.drain();
      if (r.p(outage))
        tf_ok = !tf_ok;
      setTf();
      if (r.p(0.1))
        v = r.u(-1, 1);
      if (r.p(0.1))
        w = r.p(0.3) ? 0 : r.u(-1.5, 1.5);
      if (without)
      {
        qi = qi * rpy(r.u(-0.02, 0.02), r.u(-0.02, 0.02), w * period);
        sensor_msgs::Imu m;
        m.header.stamp = core.now;
        m.header.frame_id = "imu";
        m.orientation = msg(qi);
        core.send<sensor_msgs::Imu>("/imu/data", m);
        if (tf_ok)
          latest_imu = qi;
        core.drain();
      }
      else
      {
        In in;
        in.t = core.now;
        in.wo = w + (r.p(0.5) ? r.u(-noise, noise) : 0);
        in.vx = v;
        qo = qo * rpy(0, 0, w * period);
        // never exactly zero: there the fusion is discontinuous
        const double wr = w * (1 - slip * std::fabs(w)) + (r.p(0.5) ? r.u(-noise, noise) : 1e-5);
        qi = qi * rpy(r.u(-0.01, 0.01), r.u(-0.01, 0.01), wr * period);
        p += qo * V(v * period, 0, r.p(0.1) ? r.u(-0.05, 0.05) : 0);
        if (r.p(0.01))
          p += V(r.u(-1, 1), r.u(-1, 1), 0);
        in.p = p;
        in.qo = qo;
        in.qi = qi;
        in.wi = mount.inverse() * V(r.u(-0.1, 0.1), r.u(-0.1, 0.1), wr);
        ins.push_back(in);
        if (ins.size() == 1)
        {
          has_prev = true;
          raw_prev = in;
          prev = in.p;
        }
        nav_msgs::Odometry o;
        o.header.stamp = in.t;
        o.header.frame_id = "odom";
        o.child_frame_id = overwrite ? "base_other" : base;
        o.pose.pose.position.x = p.x();
        o.pose.pose.position.y = p.y();
        o.pose.pose.position.z = p.z();
        o.pose.pose.orientation = msg(qo);
        o.twist.twist.linear.x = v;
        o.twist.twist.angular.z = in.wo;
        sensor_msgs::Imu m;
        m.header.stamp = in.t + ros::Duration(r.u(-0.0005, 0.0005));
        m.header.frame_id = "imu";
        m.orientation = msg(qi);
        m.angular_velocity.x = in.wi.x();
        m.angular_velocity.y = in.wi.y();
        m.angular_velocity.z = in.wi.z();
        const bool first = r.p(0.5);
        const long o0 = outs;
        if (first)
          core.send<nav_msgs::Odometry>("/odom_raw", o);
        core.send<sensor_msgs::Imu>("/imu/data", m);
        core.drain();
        if (!first)
          core.send<nav_msgs::Odometry>("/odom_raw", o);
        core.drain();
        if (tf_ok)
          alive++;
        processed += outs - o0;
      }
      if (r.p(0.02) && outs > 0)
      {
        std_msgs::Float32 z;
        z.data = r.u(-2, 2);
        core.send<std_msgs::Float32>("/reset_odometry_z", z);
        core.drain();
        prev.z() = z.data;
        resets++;
      }
    }
    if (!without && outage == 0 && tf_ok)
      VF_CHECK(processed >= steps - 5, "odometry not published", "%ld of %d", processed, steps); });
  vf::count("outputs", outs);
  vf::count("scaled by slip", scaled);
  vf::count("gaps", gaps);
  vf::count("height resets", resets);
  vf::count("without odometry", without && outs > 0);
  if (outs > 20)
    vf::nontrivial(vf::hashAdd(vf::hashAdd(outs, last.pose.pose.position.x), last.pose.pose.position.y));
}
int main(int argc, char** argv)
{
  return vf::run(argc, argv, body);
}
