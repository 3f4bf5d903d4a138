// S01 (only slows down) and S02 (fails safe) of the safety_limiter node on arbitrary histories; PROP selects the oracle.
#include "cloud.h"
#include "node.h"
#include <dynamic_reconfigure/server.h>
#include <geometry_msgs/Twist.h>
#include <safety_limiter/SafetyLimiterConfig.h>
#include <safety_limiter_msgs/SafetyLimiterStatus.h>
#include <std_msgs/Bool.h>
#include <std_msgs/Empty.h>
#include <tf2_ros/buffer.h>
#include <cmath>
typedef safety_limiter::SafetyLimiterConfig Config;
#define CHK(n, c, ...) \
  do                   \
  {                    \
    if (PROP == n)     \
      VF_CHECK(c, __VA_ARGS__); \
  } while (0)
static void sendTf(const std::string& p, const std::string& c, double x, double y, double yaw, const ros::Time& t)
{
  geometry_msgs::TransformStamped m;
  m.header.stamp = t;
  m.header.frame_id = p;
  m.child_frame_id = c;
  m.transform.translation.x = x;
  m.transform.translation.y = y;
  m.transform.rotation.z = std::sin(yaw / 2);
  m.transform.rotation.w = std::cos(yaw / 2);
  shim::TfTree::get().set(m, false);
}
static void body(vf::Rng& r, long)
{
  auto& core = node::core();
  core.reset();
  const std::string ns = "/safety_limiter";
  Config c;
  auto randomize = [&]()
  {
    const double freq = c.freq;
    c = Config();
    c.freq = freq;
    c.cloud_timeout = r.u(0.2, 1.5);
    c.disable_timeout = r.p(0.3) ? 0 : r.u(0.05, 1);
    if (r.p(0.5))
    {
      c.lin_vel = r.u(0.1, 2);
      c.lin_acc = r.u(0.2, 3);
      c.ang_vel = r.u(0.2, 2);
      c.ang_acc = r.u(0.3, 4);
      c.max_linear_vel = r.p(0.1) ? 0 : r.u(0.05, 2);
      c.max_angular_vel = r.p(0.1) ? 0 : r.u(0.05, 2);
      c.d_margin = r.u(0, 0.4);
      c.d_escape = r.u(0, 0.1);
      c.yaw_margin = r.u(0, 0.4);
      c.yaw_escape = r.u(0, 0.1);
      c.hold = r.p(0.5) ? 0 : r.u(0, 1);
      c.dt = r.u(0.05, 0.2);
      c.z_range_min = r.u(-0.5, 0.3);
      c.z_range_max = c.z_range_min + r.u(0.05, 1);
    }
    c.allow_empty_cloud = r.p(0.3);
  };
  c.freq = r.pick({5.0, 6.0, 10.0, 20.0});
  const double W = r.p(0.5) ? 0 : r.u(0.2, 1.5);
  randomize();
  core.setParam(ns + "/watchdog_interval", W);
  XmlRpc::XmlRpcValue fp;
  const double half = r.u(0.1, 0.5);
  const double xs[] = {half, half, -half, -half}, ys[] = {0.2, -0.2, -0.2, 0.2};
  for (int i = 0; i < 4; i++)
  {
    XmlRpc::XmlRpcValue p;
    p[0] = xs[i];
    p[1] = ys[i];
    fp[i] = p;
  }
  core.setParam(ns + "/footprint", fp);
  const int ninputs = r.p(0.7) ? 1 : 2;
  core.setParam(ns + "/num_input_clouds", ninputs);
  // initial parameters, as rosparam
  core.setParam(ns + "/freq", c.freq);
  core.setParam(ns + "/cloud_timeout", c.cloud_timeout);
  core.setParam(ns + "/disable_timeout", c.disable_timeout);
  core.setParam(ns + "/allow_empty_cloud", c.allow_empty_cloud);
  for (auto& kv : {std::make_pair("lin_vel", c.lin_vel), std::make_pair("lin_acc", c.lin_acc), std::make_pair("ang_vel", c.ang_vel), std::make_pair("ang_acc", c.ang_acc),
                   std::make_pair("max_linear_vel", c.max_linear_vel), std::make_pair("max_angular_vel", c.max_angular_vel), std::make_pair("d_margin", c.d_margin), std::make_pair("d_escape", c.d_escape),
                   std::make_pair("yaw_margin", c.yaw_margin), std::make_pair("yaw_escape", c.yaw_escape), std::make_pair("hold", c.hold), std::make_pair("dt", c.dt),
                   std::make_pair("z_range_min", c.z_range_min), std::make_pair("z_range_max", c.z_range_max)})
    core.setParam(ns + "/" + kv.first, kv.second);
  // --- model
  const double period = 1.0 / c.freq;
  ros::Time last_disable(0), last_cloud(0), last_good(0), last_reset, last_tick(0);
  bool has_twist = true, has_cloud = false, watchdog = false, clear = false, last_tick_bad = false, last_tick_valid = false;
  struct Acc
  {
    bool points = false;   // points in the z range (clearly)
    bool unsure = false;
    long n = 0;
  } acc;
  std::string acc_frame;
  bool tf_base = true, tf_sensor = true;
  geometry_msgs::Twist in, last_out;
  long outs = 0, stops = 0, passes = 0, slowed = 0;
  bool any_out = false;
  enum
  {
    TWIST,
    TICK
  } ctx = TICK;
  ros::Time out_time;
  auto zero = [](const geometry_msgs::Twist& t)
  { return t.linear.x == 0 && t.linear.y == 0 && t.linear.z == 0 && t.angular.x == 0 && t.angular.y == 0 && t.angular.z == 0; };
  safety_limiter_msgs::SafetyLimiterStatus status;
  long statuses = 0;
  core.observe<geometry_msgs::Twist>("/cmd_vel", [&](const geometry_msgs::Twist& o)
                                     {
    outs++;
    any_out = true;
    last_out = o;
    out_time = core.now;
    vf::evaluated(1);
    const std::string what = vf::fmt("in %g %g %g out %g %g %g, max %g %g", in.linear.x, in.linear.y, in.angular.z, o.linear.x, o.linear.y, o.angular.z, c.max_linear_vel, c.max_angular_vel);
    if (ctx == TICK)
    {
      CHK(1, zero(o), "moving command without an input command", "%s", what.c_str());
      return;
    }
    // --- S01: one factor, then the maximum speeds
    const double li = std::hypot(in.linear.x, in.linear.y), lo = std::hypot(o.linear.x, o.linear.y), e = 1e-9;
    double smin = 0, smax = 1;
    CHK(1, std::isfinite(lo) && std::isfinite(o.angular.z), "output is not finite", "%s", what.c_str());
    CHK(1, std::fabs(in.linear.x * o.linear.y - in.linear.y * o.linear.x) <= 1e-9 && in.linear.x * o.linear.x + in.linear.y * o.linear.y >= -e, "output turned or reversed", "%s", what.c_str());
    CHK(1, in.angular.z * o.angular.z >= 0, "rotation reversed", "%s", what.c_str());
    CHK(1, lo <= li + e && std::fabs(o.angular.z) <= std::fabs(in.angular.z) + e, "output faster than the input", "%s", what.c_str());
    CHK(1, lo <= c.max_linear_vel + e && std::fabs(o.angular.z) <= c.max_angular_vel + e, "output over the maximum speed", "%s", what.c_str());
    if (li > 0.01)
    {
      if (lo < c.max_linear_vel - 1e-6)
        smin = smax = lo / li;
      else
        smin = std::min(1.0, c.max_linear_vel / li);
    }
    double amin = 0, amax = 1;
    if (std::fabs(in.angular.z) > 0.01)
    {
      if (std::fabs(o.angular.z) < c.max_angular_vel - 1e-6)
        amin = amax = std::fabs(o.angular.z / in.angular.z);
      else
        amin = std::min(1.0, c.max_angular_vel / std::fabs(in.angular.z));
    }
    CHK(1, std::max(smin, amin) <= std::min(smax, amax) + 1e-6, "output is not a scaled input", "%s: factor %g..%g and %g..%g", what.c_str(), smin, smax, amin, amax);
    const bool disabled = core.now - last_disable < ros::Duration(c.disable_timeout);
    if (disabled)
    {
      CHK(1, smin <= 1 + 1e-9 && smax >= 1 - 1e-9 && amax >= 1 - 1e-9, "limited though disabled", "%s", what.c_str());
      vf::count("disabled commands");
      return;
    }
    if (zero(o))
      stops++;
    else if (smax < 0.999)
      slowed++;
    else
      passes++;
    // --- S02
    const double age = (core.now - last_cloud).toSec();
    const std::string w2 = what + vf::fmt(", cloud %d, age %g of %g, watchdog %d, last tick bad %d", has_cloud, age, c.cloud_timeout, watchdog, last_tick_bad);
    CHK(2, !in.linear.x && !in.linear.y && !in.angular.z ? true : has_cloud || zero(o), "moving without cloud", "%s", w2.c_str());
    if (!has_cloud)
      vf::count("commands without cloud");
    if (watchdog)
    {
      vf::count("commands after watchdog timeout");
      CHK(2, zero(o), "moving after watchdog timeout", "%s", w2.c_str());
    }
    if (has_cloud && age > c.cloud_timeout + 1e-6)
    {
      vf::count("commands with stale cloud");
      CHK(2, zero(o), "moving with a stale cloud", "%s", w2.c_str());
    }
    if (last_tick_valid && last_tick_bad && (core.now - last_tick).toSec() <= period)
    {
      vf::count("commands with empty or untransformable cloud");
      CHK(2, zero(o), "moving though the cloud is empty or untransformable", "%s", w2.c_str());
    } });
  core.observe<safety_limiter_msgs::SafetyLimiterStatus>(ns + "/status", [&](const safety_limiter_msgs::SafetyLimiterStatus& s)
                                                         {
    statuses++;
    status = s;
    CHK(1, s.limit_ratio >= 0 && s.limit_ratio <= 1, "limit ratio out of range", "%g", s.limit_ratio); });
  const int steps = r.i(100, 300);
  node::spinWith([&]()
                 {
    auto port = shim::reconfPort<Config>(ns);
    const ros::Time start = core.now;
    ros::Time next_tick = start + ros::Duration(period);
    last_reset = start;
    ros::Time next_wd = start + ros::Duration(W);
    double x = 0, y = 0, yaw = 0;
    bool clouds_on = true, resets_on = true, stale_clock = false, tfs_base_known = false, tfs_sensor_known = false;
    int content = 2;
    const bool gentle = r.p(0.5);
    const double off = r.pick({0.0, 0.003, 0.02}), on = 0.03;
    const double dir = r.u(-1, 1);
    // off the grid of the timers
    node::advance(0.00037);
    for (int i = 0; i < steps; i++)
    {
      // advance to a random time, tick by tick
      const double h = r.pick({0.01, 0.02, 0.05, 0.02}) + r.u(0, 1e-3);
      ros::Time until = core.now + ros::Duration(h);
      while (true)
      {
        ros::Time next = next_tick;
        if (W > 0 && next_wd < next)
          next = next_wd;
        if (next > until)
          break;
        core.now = std::max(next, core.now);
        const bool tick = next_tick <= core.now, wd = W > 0 && next_wd <= core.now;
        const long o0 = outs, s0 = statuses;
        ctx = TICK;
        core.drain();
        vf::evaluated(1);
        if (wd)
        {
          watchdog = true;
          next_wd = next_wd + ros::Duration(W);
          if (next_wd < core.now)
            next_wd = core.now;
          CHK(2, outs > o0 && zero(last_out), "no stop at watchdog timeout", "after %g s", (core.now - last_reset).toSec());
          CHK(2, statuses > s0 && status.has_watchdog_timed_out, "watchdog timeout not in the status", "after %g s", (core.now - last_reset).toSec());
          vf::count("watchdog timeouts");
        }
        if (tick)
        {
          next_tick = next_tick + ros::Duration(period);
          if (has_twist && has_cloud)
          {
            if (core.now - last_cloud > ros::Duration(c.cloud_timeout))
            {
              CHK(2, outs > o0 && zero(last_out), "no stop at cloud timeout", "age %g", (core.now - last_cloud).toSec());
              CHK(2, statuses > s0 && !status.is_cloud_available, "cloud timeout not in the status", "age %g", (core.now - last_cloud).toSec());
              vf::count("cloud timeouts");
              has_cloud = false;
              acc = Acc();
              last_tick_valid = false;
            }
            else
            {
              last_tick = core.now;
              last_tick_valid = !acc.unsure || !tfs_base_known;
              last_tick_bad = (!acc.points && !acc.unsure && !c.allow_empty_cloud) || (acc.n > 0 && !tfs_base_known);
              if (acc.unsure && c.allow_empty_cloud && tfs_base_known)
                last_tick_bad = false;
              clear = true;
              CHK(2, statuses > s0 && status.is_cloud_available && status.has_watchdog_timed_out == watchdog, "status of an available cloud", "%d %d watchdog %d", status.is_cloud_available, status.has_watchdog_timed_out, watchdog);
              if (last_tick_valid && last_tick_bad)
                CHK(2, status.limit_ratio == 0, "limit ratio of a bad cloud", "%g", status.limit_ratio);
            }
          }
        }
      }
      core.now = until;
      // --- events
      if (r.p(clouds_on ? off : on))
        clouds_on = !clouds_on;
      if (r.p(resets_on ? off : on))
        resets_on = !resets_on;
      if (r.p(tf_base ? off : on))
        tf_base = !tf_base;
      if (r.p(tf_sensor ? off : on))
        tf_sensor = !tf_sensor;
      if (r.p(0.02))
        stale_clock = r.p(0.3);
      if (r.p(0.03))
        content = r.p(0.6) ? 2 : r.i(0, 4);
      if (r.p(0.01))
      {
        randomize();
        c.freq = 1.0 / period;
        port->set(c);
        // points may move in or out of the z range
        acc.unsure = acc.n > 0;
        vf::count("reconfigurations");
      }
      x += r.u(-0.02, 0.02);
      y += r.u(-0.02, 0.02);
      yaw += r.u(-0.02, 0.02);
      shim::TfTree::get().links.clear();
      for (int k = 10; k >= 0; k--)
      {
        const ros::Time t = core.now - ros::Duration(0.3 * k);
        if (tf_base)
          sendTf("odom", "base_link", x, y, yaw, t);
        if (tf_sensor)
          sendTf("odom", "sensor", x, y, yaw, t);
      }
      tfs_base_known = tf_base;
      tfs_sensor_known = tf_sensor;
      if (clouds_on && r.p(0.3))
      {
        std::vector<Pt> pts;
        Acc a;
        const int n = content == 0 ? 0 : gentle ? r.i(1, 3) : r.i(1, 30);
        for (int k = 0; k < n; k++)
        {
          const double d = r.u(gentle ? 0.7 : 0.1, 3), t = gentle ? r.u(-0.2, 0.2) : r.u(-3.2, 3.2);
          double z = r.u(c.z_range_min + 0.01, c.z_range_max - 0.01);
          if (content == 1)
            z = r.p(0.5) ? c.z_range_min - r.u(0.2, 1) : c.z_range_max + r.u(0.2, 1);
          if (content == 4 && r.p(0.5))
            pts.push_back({NAN, 1, 0});
          pts.push_back({static_cast<float>(d * std::cos(t)), static_cast<float>(d * std::sin(t)), static_cast<float>(z)});
          if (content != 1)
            a.points = true;
        }
        const std::string frame = r.p(0.5) ? "sensor" : r.p(0.5) ? "odom" : "base_link";
        const bool ok = pts.empty() || (frame == "sensor" ? tf_sensor : frame == "base_link" ? tf_base : (tf_sensor || tf_base));
        const ros::Time stamp = core.now - ros::Duration(stale_clock ? c.cloud_timeout + r.u(-0.2, 1) : r.p(0.3) ? r.u(0, 0.1) : 0);
        core.send<sensor_msgs::PointCloud2>(ninputs == 1 ? "/cloud" : r.p(0.5) ? "/cloud0" : "/cloud1", cloudMsg(pts, frame, stamp, r.i(0, 2)));
        ctx = TICK;
        core.drain();
        vf::count("clouds");
        if (ok)
        {
          if (clear)
          {
            clear = false;
            acc = Acc();
          }
          acc.n += pts.size();
          acc.points |= a.points;
          acc.unsure |= a.unsure;
          last_cloud = stamp;
          has_cloud = true;
        }
        else
          vf::count("clouds without transform");
      }
      if (W > 0 && resets_on && r.p(0.5))
      {
        core.send<std_msgs::Empty>("/watchdog_reset", std_msgs::Empty());
        ctx = TICK;
        core.drain();
        last_reset = core.now;
        next_wd = core.now + ros::Duration(W);
        watchdog = false;
      }
      if (r.p(0.03))
      {
        std_msgs::Bool b;
        b.data = r.p(0.8);
        core.send<std_msgs::Bool>("/disable_safety", b);
        ctx = TICK;
        core.drain();
        if (b.data)
          last_disable = core.now;
      }
      if (r.p(0.6))
      {
        in = geometry_msgs::Twist();
        in.linear.x = r.p(0.1) ? 0 : r.u(-2, 2);
        in.linear.y = r.p(0.7) ? 0 : r.u(-1, 1);
        in.angular.z = r.p(0.3) ? 0 : r.u(-2, 2);
        if (gentle && r.p(0.9))
        {
          in.linear.x = r.u(0.2, 1);
          in.linear.y = 0;
          in.angular.z = r.p(0.5) ? 0 : dir * r.u(0.2, 0.4);
        }
        const long o0 = outs;
        core.send<geometry_msgs::Twist>("/cmd_vel_in", in);
        has_twist = true;
        ctx = TWIST;
        core.drain();
        ctx = TICK;
        CHK(1, outs == o0 + 1, "not one output per command", "%ld", outs - o0);
      }
    } });
  vf::count("outputs", outs);
  vf::count("stops", stops);
  vf::count("passes", passes);
  vf::count("slowed", slowed);
  if (passes + slowed > 10 && stops > 5)
    vf::nontrivial(vf::hashAdd(vf::hashAdd(passes, c.cloud_timeout), stops));
}
int main(int argc, char** argv)
{
  return vf::run(argc, argv, body);
}
