// S04: a robot of the safety_limiter node that is already in collision: escaping is possible, everything else is stopped; status and reported points tell so.
#include "cloud.h"
#include "node.h"
#include <dynamic_reconfigure/server.h>
#include <geometry_msgs/Twist.h>
#include <safety_limiter/SafetyLimiterConfig.h>
#include <safety_limiter_msgs/SafetyLimiterStatus.h>
#include <sensor_msgs/PointCloud.h>
#include <tf2_ros/buffer.h>
#include <cmath>
struct P2
{
  double x, y;
};
static double segDist(const P2& p, const P2& a, const P2& b)
{
  const double dx = b.x - a.x, dy = b.y - a.y, l = dx * dx + dy * dy;
  double t = l > 0 ? ((p.x - a.x) * dx + (p.y - a.y) * dy) / l : 0;
  t = std::max(0.0, std::min(1.0, t));
  return std::hypot(p.x - a.x - t * dx, p.y - a.y - t * dy);
}
// signed distance: negative inside
static double sdist(const std::vector<P2>& f, const P2& p)
{
  double d = 1e9;
  bool in = false;
  for (size_t i = 0; i < f.size(); i++)
  {
    const P2 &a = f[i], &b = f[(i + 1) % f.size()];
    d = std::min(d, segDist(p, a, b));
    if ((a.y > p.y) != (b.y > p.y) && p.x < a.x + (b.x - a.x) * (p.y - a.y) / (b.y - a.y))
      in = !in;
  }
  return in ? -d : d;
}
struct Pose
{
  double x = 0, y = 0, yaw = 0;
  P2 inv(const P2& p) const
  {
    const double dx = p.x - x, dy = p.y - y, c = std::cos(yaw), s = std::sin(yaw);
    return {c * dx + s * dy, -s * dx + c * dy};
  }
  P2 fwd(const P2& p) const
  {
    const double c = std::cos(yaw), s = std::sin(yaw);
    return {x + c * p.x - s * p.y, y + s * p.x + c * p.y};
  }
  void step(double vx, double vy, double w, double dt)
  {
    const double m = yaw + w * dt / 2;
    x += (vx * std::cos(m) - vy * std::sin(m)) * dt;
    y += (vx * std::sin(m) + vy * std::cos(m)) * dt;
    yaw += w * dt;
  }
};
static void sendTf(const std::string& p, const std::string& c, const Pose& q, const ros::Time& t, bool st = false)
{
  geometry_msgs::TransformStamped m;
  m.header.stamp = t;
  m.header.frame_id = p;
  m.child_frame_id = c;
  m.transform.translation.x = q.x;
  m.transform.translation.y = q.y;
  m.transform.rotation.z = std::sin(q.yaw / 2);
  m.transform.rotation.w = std::cos(q.yaw / 2);
  shim::TfTree::get().set(m, st);
}
static void body(vf::Rng& r, long)
{
  auto& core = node::core();
  core.reset();
  const std::string ns = "/safety_limiter";
  const double freq = r.pick({5.0, 6.0, 10.0, 20.0});
  const double lin_vel = r.u(0.3, 1), lin_acc = r.u(0.5, 2), ang_vel = r.u(0.4, 1.2), ang_acc = r.u(0.8, 3);
  const double grid = r.pick({0.01, 0.02, 0.05}), dt = r.u(0.03, 0.12);
  const double d_margin = r.u(0, 0.3), yaw_margin = r.u(0, 0.3), d_escape = r.p(0.15) ? 0 : r.u(0, r.p(0.5) ? 0.1 : 0.6), yaw_escape = r.p(0.15) ? 0 : r.u(0, r.p(0.5) ? 0.1 : 1);
  const double hold = r.p(0.6) ? 0 : r.u(0, 0.5);
  const double zmin = r.u(-0.2, 0.1), zmax = zmin + r.u(0.3, 1);
  const int ncloud = r.p(0.5) ? 1 : r.i(2, 3);
  core.setParam(ns + "/freq", freq);
  core.setParam(ns + "/num_input_clouds", ncloud);
  for (auto& kv : {std::make_pair("lin_vel", lin_vel), std::make_pair("lin_acc", lin_acc), std::make_pair("ang_vel", ang_vel), std::make_pair("ang_acc", ang_acc), std::make_pair("downsample_grid", grid),
                   std::make_pair("dt", dt), std::make_pair("d_margin", d_margin), std::make_pair("yaw_margin", yaw_margin), std::make_pair("d_escape", d_escape), std::make_pair("yaw_escape", yaw_escape),
                   std::make_pair("cloud_timeout", 2.0), std::make_pair("hold", hold), std::make_pair("z_range_min", zmin), std::make_pair("z_range_max", zmax)})
    core.setParam(ns + "/" + kv.first, kv.second);
  // footprint
  std::vector<P2> f;
  const int kind = r.i(0, 2);
  if (kind == 0)
  {
    const double a = r.u(0.15, 0.6), b = r.u(0.1, 0.4), ox = r.u(-0.3, 0.3);
    f = {{a + ox, b}, {-a + ox, b}, {-a + ox, -b}, {a + ox, -b}};
  }
  else if (kind == 1)
  {
    const int n = r.i(3, 8);
    const double p0 = r.u(0, 6.28);
    for (int i = 0; i < n; i++)
    {
      const double t = p0 + 2 * M_PI * (i + r.u(-0.2, 0.2)) / n, d = r.u(0.25, 0.5);
      f.push_back({d * std::cos(t), d * std::sin(t)});
    }
  }
  else
  {
    const double a = r.u(0.3, 0.6), b = r.u(0.1, 0.25);
    f = {{a, b}, {-b, b}, {-b, -a}, {b, -a}, {b, -b}, {a, -b}};
  }
  double R = 0;
  XmlRpc::XmlRpcValue fp;
  for (size_t i = 0; i < f.size(); i++)
  {
    XmlRpc::XmlRpcValue p;
    p[0] = f[i].x;
    p[1] = f[i].y;
    fp[i] = p;
    R = std::max(R, std::hypot(f[i].x, f[i].y));
  }
  core.setParam(ns + "/footprint", fp);
  const double tmax = 1.5 * std::max(lin_vel / lin_acc, ang_vel / ang_acc) + std::max(d_margin / lin_vel, yaw_margin / ang_vel);
  const double tol = 0.01;
  geometry_msgs::Twist out;
  safety_limiter_msgs::SafetyLimiterStatus status;
  sensor_msgs::PointCloud col;
  core.observe<geometry_msgs::Twist>("/cmd_vel", [&](const geometry_msgs::Twist& o)
                                     { out = o; });
  core.observe<safety_limiter_msgs::SafetyLimiterStatus>(ns + "/status", [&](const safety_limiter_msgs::SafetyLimiterStatus& s)
                                                         { status = s; });
  core.observe<sensor_msgs::PointCloud>("/collision", [&](const sensor_msgs::PointCloud& c)
                                        { col = c; });
  uint64_t h = 0;
  long stops = 0, escapes = 0, stuck = 0, unstuck = 0, reported = 0;
  node::spinWith([&]()
                 {
    Pose sensor;
    sensor.x = r.u(-0.3, 0.3);
    sensor.y = r.u(-0.2, 0.2);
    sensor.yaw = r.u(-3, 3);
    ros::Time stuck_since(0);
    int was = 0;  // 1: in collision, -1: clear, 0: not judged
    for (int trial = 0; trial < 8; trial++)
    {
      vf::evaluated(1);
      Pose pose;
      pose.x = r.u(-20, 20);
      pose.y = r.u(-20, 20);
      pose.yaw = r.u(-3.1, 3.1);
      // obstacles: points further apart than the downsampling grid, each in the band or outside of it
      std::vector<P2> obs;
      std::vector<double> z;
      std::vector<bool> seen;
      auto add = [&](const P2& p, bool in)
      {
        for (auto& o : obs)
          if (std::hypot(o.x - p.x, o.y - p.y) < 2 * grid)
            return;
        obs.push_back(p);
        seen.push_back(in);
        z.push_back(in ? r.u(zmin + 0.01, zmax - 0.01) : r.p(0.5) ? zmin - r.u(0.01, 0.5) - 2 * grid : zmax + r.u(0.01, 0.5) + 2 * grid);
      };
      const bool away = r.p(0.4);
      P2 dir{1, 0};
      const int n = away ? r.i(1, 2) : r.i(0, 3);
      size_t edge = r.i(0, f.size() - 1);
      for (int i = 0; i < n; i++)
      {
        // around the outline, inside or just outside
        const size_t k = away ? edge : r.i(0, f.size() - 1);
        const P2 &a = f[k], &b = f[(k + 1) % f.size()];
        const double s = r.u(), l = std::hypot(b.x - a.x, b.y - a.y), d = away ? r.u(0, 0.1) : r.u(-0.12, 0.25);
        dir = {-(b.y - a.y) / l, (b.x - a.x) / l};
        add({a.x + s * (b.x - a.x) - d * (b.y - a.y) / l, a.y + s * (b.y - a.y) + d * (b.x - a.x) / l}, r.p(0.85));
      }
      if (r.p(0.3))
        add({r.u(-1.5, 1.5), r.u(-1.5, 1.5)}, r.p(0.85));
      add({0, 30}, true);
      // command
      double ux = 0, uy = 0, uw = 0;
      const int k = r.i(0, 4);
      const double sp = r.u(0.1, 1);
      if (k < 2)
        ux = (r.p(0.5) ? 1 : -1) * lin_vel * sp;
      else if (k == 2)
        uw = (r.p(0.5) ? 1 : -1) * ang_vel * sp;
      else if (k == 3)
      {
        ux = (r.p(0.5) ? 1 : -1) * lin_vel * sp;
        uw = r.u(-1, 1) * ang_vel;
      }
      else
      {
        const double t = r.u(-3.1, 3.1);
        ux = lin_vel * sp * std::cos(t);
        uy = lin_vel * sp * std::sin(t);
        uw = r.p(0.5) ? 0 : r.u(-1, 1) * ang_vel;
      }
      if (away)
      {
        const double t = r.u(-0.5, 0.5), v = lin_vel * r.u(0.3, 1);
        ux = v * (dir.x * std::cos(t) - dir.y * std::sin(t));
        uy = v * (dir.x * std::sin(t) + dir.y * std::cos(t));
        uw = r.p(0.5) ? 0 : r.u(-0.5, 0.5) * ang_vel;
      }
      // what the motion brings: in collision by more than the tolerance, clear by more than the tolerance
      const double l = std::hypot(ux, uy), w = std::fabs(uw);
      auto dist = [&](const Pose& q)
      {
        double d = 1e9;
        for (size_t i = 0; i < obs.size(); i++)
          if (seen[i])
            d = std::min(d, sdist(f, q.inv(obs[i])));
        return d;
      };
      const double now_d = dist(Pose());
      const int now = now_d < -tol ? 1 : now_d > tol ? -1 : 0;
      bool never = false, escaped = true, contact = false, touch = false;
      {
        // each prediction step covers dt; a collision longer than one step is seen by the prediction
        const int sub = 4;
        Pose q;
        int run = 0;
        for (int i = 0; i * dt / sub < tmax + 2 * dt; i++)
        {
          const double t = i * dt / sub, d = dist(q);
          // a prediction turning at the end of each step is off by half a step's turn
          const double tl = tol + l * t * w * dt / 2;
          const bool within = t < tmax - 2 * dt;
          const bool beyond = (d_escape == 0 || l * t > d_escape + 1e-4) || (yaw_escape == 0 || w * t > yaw_escape + 1e-4);
          const bool maybe = l * t >= d_escape - l * dt - 1e-4 || w * t >= yaw_escape - w * dt - 1e-4;
          run = d < -tl && beyond && within ? run + 1 : 0;
          if (run > sub || (i == 0 && d < -tl && beyond))
            never = true;
          if (maybe && d < tl)
            escaped = false;
          if (d < -tl && within)
            contact |= i == 0 || run > sub;
          if (d < tl)
            touch = true;
          q.step(ux, uy, uw, dt / sub);
        }
      }
      const ros::Time t0 = core.now;
      ros::Time next = core.now;
      const double period = r.u(0.2, 0.9) / freq, settle = hold + 4 / freq + 3 * period;
      while ((core.now - t0).toSec() < settle + r.u(0, 0.5))
      {
        sendTf("odom", "base_link", pose, core.now);
        sendTf("base_link", "sensor", sensor, core.now, true);
        core.drain();
        if (core.now >= next)
        {
          next = core.now + ros::Duration(period);
          std::vector<std::vector<Pt>> pts(ncloud);
          for (size_t i = 0; i < obs.size(); i++)
          {
            const P2 p = sensor.inv(obs[i]);
            pts[i % ncloud].push_back({(float)p.x, (float)p.y, (float)z[i]});
          }
          for (int c = 0; c < ncloud; c++)
          {
            core.send<sensor_msgs::PointCloud2>(ncloud == 1 ? "/cloud" : "/cloud" + std::to_string(c), cloudMsg(pts[c], "sensor", core.now));
            core.drain();
          }
          geometry_msgs::Twist in;
          in.linear.x = ux;
          in.linear.y = uy;
          in.angular.z = uw;
          core.send<geometry_msgs::Twist>("/cmd_vel_in", in);
          core.drain();
        }
        node::advance(0.004);
        core.drain();
      }
      h = vf::hashAdd(h, out.linear.x + 10 * out.angular.z);
      const std::string ctx = vf::fmt("command %g %g %g, output %g %g %g, obstacle at %g of the outline, escape %g m %g rad, dt %g", ux, uy, uw, out.linear.x, out.linear.y, out.angular.z, now_d, d_escape, yaw_escape, dt);
      const bool same = std::fabs(out.linear.x - ux) < 1e-6 && std::fabs(out.linear.y - uy) < 1e-6 && std::fabs(out.angular.z - uw) < 1e-6;
      const bool zero = std::fabs(out.linear.x) < 1e-6 && std::fabs(out.linear.y) < 1e-6 && std::fabs(out.angular.z) < 1e-6;
      if (now == 1 && never)
      {
        stops++;
        VF_CHECK(zero, "moves on in a collision it cannot escape from", "%s", ctx.c_str());
      }
      if (now == 1 && escaped)
      {
        escapes++;
        VF_CHECK(same, "escape blocked", "%s", ctx.c_str());
      }
      if (now == 1)
      {
        stuck++;
        VF_CHECK(status.stuck_started_since != ros::Time(0) && status.stuck_started_since <= core.now, "collision not in the status", "%s", ctx.c_str());
        VF_CHECK(status.stuck_started_since >= t0 - ros::Duration(2 / freq) || was != -1, "stuck before the collision", "since %g s before the trial; %s", (t0 - status.stuck_started_since).toSec(), ctx.c_str());
        VF_CHECK(status.stuck_started_since <= t0 + ros::Duration(2 / freq + period), "start of the collision is reset", "since %g s after the start; %s", (status.stuck_started_since - t0).toSec(), ctx.c_str());
        if (was == 1)
          VF_CHECK(status.stuck_started_since == stuck_since, "start of the collision moved", "%g s; %s", (status.stuck_started_since - stuck_since).toSec(), ctx.c_str());
        stuck_since = status.stuck_started_since;
      }
      if (now == -1)
      {
        unstuck++;
        VF_CHECK(status.stuck_started_since == ros::Time(0), "stuck while clear", "%s", ctx.c_str());
      }
      was = now;
      // reported points
      if (contact)
        VF_CHECK(!col.points.empty(), "collision not reported", "%s", ctx.c_str());
      if (!touch)
        VF_CHECK(col.points.empty(), "collision reported on a free way", "%zu points; %s", col.points.size(), ctx.c_str());
      for (auto& p : col.points)
      {
        bool ok = false;
        for (size_t i = 0; i < obs.size(); i++)
          ok |= seen[i] && std::hypot(obs[i].x - p.x, obs[i].y - p.y) < 2e-3 + 1e-4 * 30;
        reported++;
        VF_CHECK(ok && col.header.frame_id == "base_link", "reported point is no obstacle", "%g %g; %s", p.x, p.y, ctx.c_str());
      }
    } });
  vf::count("stopped in collision", stops);
  vf::count("escapes", escapes);
  vf::count("in collision", stuck);
  vf::count("clear", unstuck);
  vf::count("reported points", reported);
  if (stops || escapes)
    vf::nontrivial(h);
}
int main(int argc, char** argv)
{
  return vf::run(argc, argv, body);
}
