// S03: a robot obeying the safety_limiter node in closed loop stays clear of the observed obstacles, and is not limited without a reason.
#include "cloud.h"
#include "node.h"
#include <dynamic_reconfigure/server.h>
#include <geometry_msgs/Twist.h>
#include <safety_limiter/SafetyLimiterConfig.h>
#include <tf2_ros/buffer.h>
#include <cmath>
struct P2
{
  double x, y;
};
static double segDist(const P2& p, const P2& a, const P2& b)
{
  const double dx = b.x - a.x, dy = b.y - a.y, l = dx * dx + dy * dy;
  double t = l > 0 ? ((p.x - a.x) * dx + (p.y - a.y) * dy) / l : 0;
  t = std::max(0.0, std::min(1.0, t));
  return std::hypot(p.x - a.x - t * dx, p.y - a.y - t * dy);
}
// signed distance: negative inside
static double sdist(const std::vector<P2>& f, const P2& p)
{
  double d = 1e9;
  bool in = false;
  for (size_t i = 0; i < f.size(); i++)
  {
    const P2 &a = f[i], &b = f[(i + 1) % f.size()];
    d = std::min(d, segDist(p, a, b));
    if ((a.y > p.y) != (b.y > p.y) && p.x < a.x + (b.x - a.x) * (p.y - a.y) / (b.y - a.y))
      in = !in;
  }
  return in ? -d : d;
}
struct Pose
{
  double x = 0, y = 0, yaw = 0;
  P2 inv(const P2& p) const
  {
    const double dx = p.x - x, dy = p.y - y, c = std::cos(yaw), s = std::sin(yaw);
    return {c * dx + s * dy, -s * dx + c * dy};
  }
  P2 fwd(const P2& p) const
  {
    const double c = std::cos(yaw), s = std::sin(yaw);
    return {x + c * p.x - s * p.y, y + s * p.x + c * p.y};
  }
  void step(double vx, double vy, double w, double dt)
  {
    const double m = yaw + w * dt / 2;
    x += (vx * std::cos(m) - vy * std::sin(m)) * dt;
    y += (vx * std::sin(m) + vy * std::cos(m)) * dt;
    yaw += w * dt;
  }
};
static void sendTf(const std::string& p, const std::string& c, const Pose& q, const ros::Time& t, bool st = false)
{
  geometry_msgs::TransformStamped m;
  m.header.stamp = t;
  m.header.frame_id = p;
  m.child_frame_id = c;
  m.transform.translation.x = q.x;
  m.transform.translation.y = q.y;
  m.transform.rotation.z = std::sin(q.yaw / 2);
  m.transform.rotation.w = std::cos(q.yaw / 2);
  shim::TfTree::get().set(m, st);
}
static void body(vf::Rng& r, long)
{
  auto& core = node::core();
  core.reset();
  const std::string ns = "/safety_limiter";
  const double freq = r.pick({5.0, 6.0, 10.0, 20.0});
  const double lin_vel = r.u(0.3, 1), lin_acc = r.u(0.5, 2), ang_vel = r.u(0.4, 1.2), ang_acc = r.u(0.8, 3);
  const double grid = r.pick({0.01, 0.02, 0.05}), dt = r.u(0.03, 0.12);
  const double d_margin = r.u(0.1, 0.3), yaw_margin = r.u(0.05, 0.3), d_escape = r.p(0.5) ? 0 : r.u(0, 0.05), yaw_escape = r.p(0.5) ? 0 : r.u(0, 0.05);
  const double timeout = r.u(0.5, 1.5), hold = r.p(0.6) ? 0 : r.u(0, 0.5);
  const double cloud_period = r.p(0.5) ? 1 / freq * r.u(0.2, 1) : r.u(0.02, 0.9 * timeout - 0.1);
  core.setParam(ns + "/freq", freq);
  for (auto& kv : {std::make_pair("lin_vel", lin_vel), std::make_pair("lin_acc", lin_acc), std::make_pair("ang_vel", ang_vel), std::make_pair("ang_acc", ang_acc), std::make_pair("downsample_grid", grid),
                   std::make_pair("dt", dt), std::make_pair("d_margin", d_margin), std::make_pair("yaw_margin", yaw_margin), std::make_pair("d_escape", d_escape), std::make_pair("yaw_escape", yaw_escape),
                   std::make_pair("cloud_timeout", timeout), std::make_pair("hold", hold)})
    core.setParam(ns + "/" + kv.first, kv.second);
  // footprint
  std::vector<P2> f;
  const int kind = r.i(0, 2);
  if (kind == 0)
  {
    const double a = r.u(0.15, 0.6), b = r.u(0.1, 0.4), ox = r.u(-0.3, 0.3);
    f = {{a + ox, b}, {-a + ox, b}, {-a + ox, -b}, {a + ox, -b}};
  }
  else if (kind == 1)
  {
    const int n = r.i(3, 8);
    const double p0 = r.u(0, 6.28);
    for (int i = 0; i < n; i++)
    {
      const double t = p0 + 2 * M_PI * (i + r.u(-0.2, 0.2)) / n, d = r.u(0.25, 0.5);
      f.push_back({d * std::cos(t), d * std::sin(t)});
    }
  }
  else
  {
    // L shape
    const double a = r.u(0.3, 0.6), b = r.u(0.1, 0.25);
    f = {{a, b}, {-b, b}, {-b, -a}, {b, -a}, {b, -b}, {a, -b}};
  }
  double R = 0;
  XmlRpc::XmlRpcValue fp;
  for (size_t i = 0; i < f.size(); i++)
  {
    XmlRpc::XmlRpcValue p;
    p[0] = f[i].x;
    p[1] = f[i].y;
    fp[i] = p;
    R = std::max(R, std::hypot(f[i].x, f[i].y));
  }
  core.setParam(ns + "/footprint", fp);
  // world
  Pose start;
  start.x = r.u(-20, 20);
  start.y = r.u(-20, 20);
  start.yaw = r.u(-3.1, 3.1);
  std::vector<P2> obs;
  const double clear = r.u(0.15, 0.5) + (r.p(0.1) ? 100 : 0);
  auto add = [&](const P2& local)
  {
    if (sdist(f, local) > clear)
      obs.push_back(start.fwd(local));
  };
  const int nobj = r.i(1, 6);
  for (int o = 0; o < nobj; o++)
  {
    const double t = r.u(-M_PI, M_PI), d = r.u(0.3, 3);
    const P2 c{d * std::cos(t), d * std::sin(t)};
    if (r.p(0.4))
      add(c);
    else
    {
      const double a = r.u(-M_PI, M_PI), l = r.u(0.3, 3), st = r.u(0.02, 0.1);
      for (double s = -l / 2; s < l / 2; s += st)
        add({c.x + s * std::cos(a), c.y + s * std::sin(a)});
    }
  }
  if (r.p(0.3))
  {
    // wall ahead or behind
    const double d = r.u(0.8, 3), a = r.u(-0.5, 0.5) + (r.p(0.3) ? M_PI : 0), st = r.u(0.02, 0.1);
    for (double s = -1; s < 1; s += st)
      add({d * std::cos(a) - s * std::sin(a), d * std::sin(a) + s * std::cos(a)});
  }
  if (r.p(0.4))
  {
    // something in the way of turning
    const double t = r.u(-M_PI, M_PI);
    for (double s = 0.4; s < 1; s += 0.03)
      add({R * s * std::cos(t), R * s * std::sin(t)});
  }
  const P2 far{0, 50};
  obs.push_back(start.fwd(far));
  std::vector<double> obz;
  for (size_t i = 0; i < obs.size(); i++)
    obz.push_back(r.u(0.06, 0.44));
  // motion program: straight or along an arc or turning in place, at varying speed; direction changes at standstill
  geometry_msgs::Twist in, out;
  double ux = 1, uy = 0, uw = 0, target = 0, cmd = 0;
  bool fast = false;
  const bool mixed = r.p(0.5);
  auto newDir = [&]()
  {
    ux = uy = uw = 0;
    const int k = r.i(0, 4);
    if (k < 2)
      ux = (r.p(0.7) ? 1 : -1) * lin_vel;
    else if (k == 2)
      uw = (r.p(0.5) ? 1 : -1) * ang_vel;
    else if (k == 3)
    {
      ux = (r.p(0.7) ? 1 : -1) * lin_vel * r.u(0.3, 1);
      uw = r.u(-1, 1) * ang_vel;
    }
    else
    {
      const double t = r.u(-3.1, 3.1);
      ux = lin_vel * std::cos(t);
      uy = lin_vel * std::sin(t);
    }
    fast = r.p(0.5);
    target = fast ? 1 : r.u(0.3, 1);
  };
  newDir();
  Pose pose = start;
  double vx = 0, vy = 0, w = 0;
  core.observe<geometry_msgs::Twist>("/cmd_vel", [&](const geometry_msgs::Twist& o)
                                     { out = o; });
  const double sim = 0.01, T = r.u(6, 12);
  const double tol = 0.05 + 0.5 * grid;
  double pen = -1e9;
  const double tmax = 1.5 * std::max(lin_vel / lin_acc, ang_vel / ang_acc) + std::max(d_margin / lin_vel, yaw_margin / ang_vel);
  ros::Time last_blocked(0);
  double phase_contact = -1;
  double worst = 1e9, yworst = 1e9;
  long judged_free = 0, margins = 0, ymargins = 0;
  long limited = 0, stopped = 0, ticks = 0;
  node::spinWith([&]()
                 {
    const ros::Time t0 = core.now;
    ros::Time next_cloud = core.now, next_cmd = core.now, next_phase = core.now + ros::Duration(r.u(2, 6));
    const double cmd_period = r.pick({0.02, 0.05, 0.1});
    const bool in_sensor = r.p(0.5);
    Pose sensor;
    sensor.x = r.u(-0.3, 0.3);
    sensor.y = r.u(-0.2, 0.2);
    sensor.yaw = r.u(-3, 3);
    double latency = r.p(0.5) ? 0 : r.u(0, 0.03);
    bool braking = false;
    const double vanish = r.p(0.25) ? r.u(2, 5) : 1e9;
    while ((core.now - t0).toSec() < T)
    {
      sendTf("odom", "base_link", pose, core.now);
      sendTf("base_link", "sensor", sensor, core.now, true);
      core.drain();
      if ((core.now - t0).toSec() > vanish && obs.size() > 1)
      {
        // the obstacles disappear, known from the next cloud and prediction on
        obs.assign(1, obs.back());
        obz.assign(1, obz.back());
        last_blocked = next_cloud + ros::Duration(cloud_period);
      }
      if (core.now >= next_cloud)
      {
        next_cloud = core.now + ros::Duration(cloud_period);
        std::vector<Pt> pts;
        for (size_t i = 0; i < obs.size(); i++)
        {
          P2 p = obs[i];
          if (in_sensor)
            p = sensor.inv(pose.inv(p));
          pts.push_back({(float)p.x, (float)p.y, (float)obz[i]});
        }
        core.send<sensor_msgs::PointCloud2>("/cloud", cloudMsg(pts, in_sensor ? "sensor" : "odom", core.now));
        core.drain();
      }
      if (core.now >= next_cmd)
      {
        next_cmd = core.now + ros::Duration(cmd_period);
        if (core.now > next_phase && !mixed)
        {
          braking = true;
          if (cmd == 0 && vx == 0 && vy == 0 && w == 0)
          {
            newDir();
            phase_contact = -1;
            braking = false;
            next_phase = core.now + ros::Duration(r.u(1, 5));
          }
        }
        else if (!fast && r.p(0.02))
          target = r.u(0.2, 1);
        // within the acceleration
        const double ul = std::hypot(ux, uy), da = std::min(ul > 0 ? lin_acc / ul : 1e9, uw != 0 ? ang_acc / std::fabs(uw) : 1e9) * cmd_period;
        const double to = braking ? 0 : target;
        cmd = to > cmd ? std::min(to, cmd + da) : std::max(to, cmd - da);
        if (mixed)
        {
          if (core.now > next_phase)
          {
            newDir();
            phase_contact = -1;
            fast = false;
            next_phase = core.now + ros::Duration(r.u(0.3, 3));
          }
          braking = false;
          const double ex = ux * target - in.linear.x, ey = uy * target - in.linear.y, ew = uw * target - in.angular.z;
          const double nd = std::max(std::hypot(ex, ey) / (lin_acc * cmd_period), std::fabs(ew) / (ang_acc * cmd_period)), k = nd > 1 ? 1 / nd : 1;
          in.linear.x += k * ex;
          in.linear.y += k * ey;
          in.angular.z += k * ew;
        }
        else
        {
          in.linear.x = ux * cmd;
          in.linear.y = uy * cmd;
          in.angular.z = uw * cmd;
        }
        core.send<geometry_msgs::Twist>("/cmd_vel_in", in);
        core.drain();
        if (std::hypot(out.linear.x, out.linear.y) < 0.98 * std::hypot(in.linear.x, in.linear.y) - 1e-6 || std::fabs(out.angular.z) < 0.98 * std::fabs(in.angular.z) - 1e-6)
          limited++;
        ticks++;
        // time until the first contact of the (inflated) footprint along the commanded motion
        const double reach = R + 0.15;
        auto contact = [&](double inflate, bool full = false)
        {
          Pose q = pose;
          for (double t = 0; t < tmax + 2 * dt; t += dt / 3)
          {
            for (auto& o : obs)
              if (std::fabs(o.x - q.x) < reach && std::fabs(o.y - q.y) < reach && sdist(f, q.inv(o)) < inflate)
                return t;
            if (full)
              q.step(ux, uy, uw, dt / 3);
            else
              q.step(in.linear.x, in.linear.y, in.angular.z, dt / 3);
          }
          return 1e9;
        };
        const double l = std::hypot(in.linear.x, in.linear.y);
        const bool is_limited = std::hypot(out.linear.x, out.linear.y) < 0.999 * l - 1e-6 || std::fabs(out.angular.z) < 0.999 * std::fabs(in.angular.z) - 1e-6;
        if (phase_contact < 0 && cmd > 0)
          phase_contact = contact(0, true) * (l > 0 ? std::hypot(ux, uy) : std::fabs(uw));
        const bool still = vx == 0 && vy == 0 && w == 0;
        if (contact(grid + 0.03) < 1e8)
          last_blocked = std::max(last_blocked, core.now);
        else
        {
          if (core.now - last_blocked > ros::Duration(hold + 3 / freq + cmd_period))
          {
            judged_free++;
            VF_CHECK(!is_limited, "limited though the way is free", "in %g %g %g out %g %g %g", in.linear.x, in.linear.y, in.angular.z, out.linear.x, out.linear.y, out.angular.z);
          }
        }
        if (still && is_limited && fast && !braking && l > 0.1 && in.angular.z == 0 && phase_contact > d_margin + 2 * lin_vel / freq + lin_vel * lin_vel / lin_acc + 0.1)
        {
          const double d = contact(0) * l;
          if (d < 1e6 && (contact(-0.5 * grid - 0.03) * l - d) < 0.1)
          {
            margins++;
            worst = std::min(worst, d - d_margin);
          }
        }
        if (still && is_limited && fast && !braking && l == 0 && std::fabs(in.angular.z) > 0.1 && phase_contact > yaw_margin + 2 * ang_vel / freq + ang_vel * ang_vel / ang_acc + 0.1)
        {
          const double d = contact(0) * std::fabs(in.angular.z);
          if (d < 1e6 && (contact(-0.5 * grid - 0.03) * std::fabs(in.angular.z) - d) < 0.15)
          {
            ymargins++;
            yworst = std::min(yworst, d - yaw_margin);
          }
        }
      }
      // robot: towards the limited command within its acceleration
      const double dvx = out.linear.x - vx, dvy = out.linear.y - vy, dw = out.angular.z - w;
      const double need = std::max(std::hypot(dvx, dvy) / (lin_acc * sim), std::fabs(dw) / (ang_acc * sim)), k = need > 1 ? 1 / need : 1;
      vx += dvx * k;
      vy += dvy * k;
      w += dw * k;
      if (need <= 1)
      {
        vx = out.linear.x;
        vy = out.linear.y;
        w = out.angular.z;
      }
      pose.step(vx, vy, w, sim);
      vf::evaluated(1);
      for (auto& o : obs)
      {
        if (std::fabs(o.x - pose.x) > R + 0.5 || std::fabs(o.y - pose.y) > R + 0.5)
          continue;
        const double d = sdist(f, pose.inv(o));
        pen = std::max(pen, -d);
        if (-d > tol)
        {
          VF_CHECK(false, "obstacle inside the footprint", "%g m (tolerance %g), t %g, v %g %g %g in %g %g %g period %g/%g", -d, tol, (core.now - t0).toSec(), vx, vy, w, in.linear.x, in.linear.y, in.angular.z, cloud_period, 1 / freq);
          return;
        }
      }
      node::advance(sim);
    } });
  if (margins)
    VF_CHECK(worst > -0.03 - 0.25 * grid, "stopped within the margin", "%g m short of d_margin %g, speed %g acc %g freq %g dt %g", -worst, d_margin, lin_vel, lin_acc, freq, dt);
  if (ymargins)
    VF_CHECK(yworst > -0.03 - 0.25 * grid, "turned into the margin", "%g rad short of yaw_margin %g, speed %g acc %g freq %g dt %g", -yworst, yaw_margin, ang_vel, ang_acc, freq, dt);
  if (getenv("VF_DBG"))
    printf("pen %g worst %g %g %ld %ld\n", pen - tol, worst, yworst, margins, ymargins);
  vf::count("stops at the linear margin", margins > 0);
  vf::count("stops at the angular margin", ymargins > 0);
  vf::count("commands on a free way", judged_free);
  vf::count("commands", ticks);
  vf::count("limited commands", limited);
  if (pen > -0.05)
    vf::count("near contacts");
  if (limited > 5)
    vf::nontrivial(vf::hashAdd(vf::hashAdd(limited, pose.x), pose.y));
}
int main(int argc, char** argv)
{
  return vf::run(argc, argv, body);
}
