// T01 (limits of the commands) and T02 (stops without a trustworthy path) on arbitrary histories of the tracker node.
// PROP selects which of the two oracles reports.
#include "trk.h"
using namespace trk;
static const bool LIMITS = PROP == 1, STOPS = PROP == 2;
#define CHK1(c, ...) \
  do                 \
  {                  \
    if (LIMITS)      \
      VF_CHECK(c, __VA_ARGS__); \
  } while (0)
#define CHK2(c, ...) \
  do                 \
  {                  \
    if (STOPS)       \
      VF_CHECK(c, __VA_ARGS__); \
  } while (0)
static std::vector<P> makePath(vf::Rng& r, const Pose2& at, bool& line, bool& nonfinite)
{
  std::vector<P> p;
  line = nonfinite = false;
  const int kind = r.i(0, 11);
  const double nan = std::nan("");
  const double spacing = r.pick({0.02, 0.05, 0.1, 0.3, 1.0, 2.5, 6.0});
  Pose2 c = at;
  c.x += r.u(-0.3, 0.3);
  c.y += r.u(-0.3, 0.3);
  c.yaw += r.p(0.3) ? r.u(-M_PI, M_PI) : r.u(-0.5, 0.5);
  if (r.p(0.15))
  {
    const double d = r.u(0.5, 8), a = r.u(-M_PI, M_PI);
    c.x += d * std::cos(a);
    c.y += d * std::sin(a);
  }
  const int n = r.i(1, 40);
  if (kind == 0)
    return p;
  if (kind <= 5)
  {
    line = true;
    const int m = std::max(2, n);
    for (int i = 0; i < m; i++)
      p.push_back({c.x + i * spacing * std::cos(c.yaw), c.y + i * spacing * std::sin(c.yaw), c.yaw, nan});
  }
  else
  {
    double dir = 1, k = r.u(-1.5, 1.5);
    for (int i = 0; i < n; i++)
    {
      p.push_back({c.x, c.y, c.yaw, nan});
      if (r.p(0.05))
        dir = -dir;
      if (r.p(0.1))
        k = r.u(-1.5, 1.5);
      if (r.p(0.05))
        c.yaw += r.u(-3, 3);
      else
      {
        c.yaw += k * std::min(spacing, 0.5) * dir;
        c.x += dir * spacing * std::cos(c.yaw);
        c.y += dir * spacing * std::sin(c.yaw);
      }
    }
    if (kind == 11 && r.p(0.3) && LIMITS)
    {
      nonfinite = true;
      auto& q = p[r.i(0, n - 1)];
      (r.p(0.5) ? q.x : q.yaw) = r.p(0.5) ? nan : INFINITY;
    }
  }
  return p;
}
static void body(vf::Rng& r, long)
{
  Bot b(r);
  b.odom_mode = r.p(0.5);
  b.predict = r.p(0.7);
  b.hz = r.pick({10.0, 20.0, 50.0, 100.0});
  b.max_dt = r.pick({0.02, 0.1, 0.1, 0.5});
  b.odom_timeout = r.pick({0.0, 0.1, 0.1, 0.3});
  Config& c = b.cfg;
  auto randomize = [&]()
  {
    c = Config();
    if (r.p(0.6))
    {
      c.look_forward = r.pick({0.0, 0.2, 0.5, 1.0});
      c.curv_forward = r.u(0, 1);
      c.k_dist = r.u(0.3, 4);
      c.k_ang = r.u(0.3, 4);
      c.k_avel = r.u(0.3, 4);
      c.gain_at_vel = r.p(0.3) ? r.u(0.1, 1) : 0;
      c.dist_lim = r.u(0.1, 1);
      c.dist_stop = r.u(0.3, 3);
      c.rotate_ang = r.u(0.2, 3.1);
      c.max_vel = r.p(0.1) ? 0 : r.u(0.05, 2);
      c.max_angvel = r.u(0.1, 3);
      c.max_acc = r.u(0.1, 3);
      c.max_angacc = r.u(0.2, 5);
      c.goal_tolerance_dist = r.u(0.02, 0.4);
      c.goal_tolerance_ang = r.u(0.02, 0.4);
      c.stop_tolerance_dist = r.u(0.01, 0.2);
      c.stop_tolerance_ang = r.u(0.01, 0.2);
      c.no_position_control_dist = r.p(0.1) ? r.u(0, 1) : 0;
      c.min_tracking_path = r.p(0.1) ? r.u(0, 1) : 0;
      c.allow_backward = r.p(0.7);
      c.limit_vel_by_avel = r.p(0.5);
      c.check_old_path = r.p(0.3);
      c.epsilon = r.pick({1e-6, 0.001, 0.01});
      c.use_time_optimal_control = r.p(0.6);
      c.time_optimal_control_future_gain = r.u(0, 3);
      c.k_ang_rotation = r.u(0.3, 4);
      c.k_avel_rotation = r.u(0.3, 4);
      c.goal_tolerance_lin_vel = r.p(0.3) ? r.u(0.01, 0.3) : 0;
      c.goal_tolerance_ang_vel = r.p(0.3) ? r.u(0.01, 0.3) : 0;
    }
    c.path_step = r.p(0.2) ? r.i(1, 8) : 1;
  };
  b.begin();
  auto& core = node::core();
  // --- model
  double vel0 = 0, pv = 0, pw = 0, dt = 0;
  bool tf_path = true, tf_robot = true, have_path = false, line = false, nonfinite = false, fresh = false;
  std::vector<P> path;
  enum
  {
    IDLE,
    CONTROL,
    TIMEOUT
  } ctx = IDLE;
  Pose2 used;  // pose the control works with, in odom
  double odom_v = 0, odom_w = 0;
  ros::Time deadline;
  long pairs = 0, moving = 0;
  auto judge = [&]()
  {
    pairs++;
    const double v = b.cmd.linear.x, w = b.cmd.angular.z;
    const Status& s = b.status;
    const std::string what = vf::fmt("previous %g %g, now %g %g, dt %g, status %d remains %g %g", pv, pw, v, w, dt, s.status, s.distance_remains, s.angle_remains);
    const bool zero = v == 0 && w == 0;
    vf::evaluated(1);
    CHK1(std::isfinite(v) && std::isfinite(w), "command is not finite", "%s", what.c_str());
    CHK1(b.cmd.linear.y == 0 && b.cmd.linear.z == 0 && b.cmd.angular.x == 0 && b.cmd.angular.y == 0, "command has other components", "%s", what.c_str());
    if (ctx == TIMEOUT)
    {
      CHK2(zero, "moving after odometry timeout", "%s", what.c_str());
      CHK2(s.status == Status::NO_PATH, "status after odometry timeout", "%s", what.c_str());
      vf::count("odometry timeouts");
      pv = pw = 0;
      return;
    }
    VF_CHECK(ctx == CONTROL, "command without a control period", "%s", what.c_str());
    const bool usable = have_path && tf_path && tf_robot;
    if (!usable)
    {
      CHK2(zero, "moving without path or transform", "%s (path %d, transforms %d %d)", what.c_str(), have_path, tf_path, tf_robot);
      CHK2(s.status == Status::NO_PATH, "status without path or transform", "%s (path %d, transforms %d %d)", what.c_str(), have_path, tf_path, tf_robot);
      vf::count(!have_path ? "controls without path" : "controls without transform");
    }
    else
      CHK2(nonfinite || s.status != Status::NO_PATH, "no-path status with a usable path", "%s", what.c_str());
    if (s.status == Status::NO_PATH || s.status == Status::FAR_FROM_PATH)
      CHK2(zero, "moving in a status which does not allow to", "%s", what.c_str());
    // --- limits
    const bool stopped = std::fabs(s.distance_remains) < c.stop_tolerance_dist && std::fabs(s.angle_remains) < c.stop_tolerance_ang;
    if (!(zero && (s.status == Status::NO_PATH || s.status == Status::FAR_FROM_PATH || stopped)))
    {
      double lim = 0;
      for (auto& q : path)
        lim = std::max(lim, std::isnan(q.vel) ? vel0 : q.vel);
      const double e = 2e-5 * (1 + std::fabs(pv) + std::fabs(v)), ew = 2e-5 * (1 + std::fabs(pw) + std::fabs(w));
      CHK1(std::fabs(v) <= std::max(lim, std::fabs(pv) - c.max_acc * dt) + e, "linear speed over the limit", "%s, limit %g", what.c_str(), lim);
      CHK1(std::fabs(w) <= std::max(c.max_angvel, std::fabs(pw) - c.max_angacc * dt) + ew, "angular speed over the limit", "%s, limit %g", what.c_str(), c.max_angvel);
      if (!nonfinite)
      {
        CHK1(std::fabs(v - pv) <= c.max_acc * dt + e, "linear acceleration over the limit", "%s, %g allowed", what.c_str(), c.max_acc * dt);
        CHK1(std::fabs(w - pw) <= c.max_angacc * dt + ew, "angular acceleration over the limit", "%s, %g allowed", what.c_str(), c.max_angacc * dt);
      }
      if (!zero)
        moving++;
    }
    // --- far, goal
    if (usable && !nonfinite && STOPS)
    {
      const Pose2 in_path = b.odom_in_path * used;
      const double slack = std::fabs(pv) * c.look_forward + 0.01 + 3 * c.epsilon;
      const bool special = c.path_step != 1;
      const double len = line ? std::hypot(path.back().x - path[0].x, path.back().y - path[0].y) : 0;
      double along = 0, head = 0;
      if (line)
      {
        const double y = path[0].yaw;
        along = (in_path.x - path[0].x) * std::cos(y) + (in_path.y - path[0].y) * std::sin(y);
        head = std::fabs(norm(in_path.yaw - y));
      }
      if (!special)
      {
        const double d = pathDist(path, in_path.x, in_path.y);
        const std::string w2 = what + vf::fmt(", %g from the path (stop at %g)", d, c.dist_stop);
        if (d > c.dist_stop + slack)
        {
          CHK2(std::fabs(v) <= std::max(0.0, std::fabs(pv) - c.max_acc * dt) + 1e-5, "driving though too far from the path", "%s", w2.c_str());
          vf::count("controls too far");
          if (line && head < c.rotate_ang - 0.02 && len > c.min_tracking_path + 0.01 && len > c.no_position_control_dist + 0.01 &&
              along < len - c.stop_tolerance_dist - slack)
          {
            CHK2(s.status == Status::FAR_FROM_PATH, "status though too far from the path", "%s heading error %g", w2.c_str(), head);
            vf::count("far on a line");
          }
        }
        if (line && fresh && d < c.dist_stop - slack)
        {
          CHK2(s.status != Status::FAR_FROM_PATH, "far status near the path", "%s", w2.c_str());
          vf::count("near on a new line");
        }
        if (s.status == Status::GOAL && line && len > std::max(c.no_position_control_dist, c.stop_tolerance_dist) + 0.01)
        {
          CHK2(std::fabs(len - along) < c.goal_tolerance_dist + slack, "goal status away from the end", "%s: %g of %g done", what.c_str(), along, len);
          vf::count("goals on a line");
        }
        if (s.status == Status::GOAL && line)
          CHK2(head < c.goal_tolerance_ang + 1e-3, "goal status with wrong heading", "%s: heading error %g", what.c_str(), head);
      }
      if (s.status == Status::GOAL)
      {
        CHK2(std::fabs(s.distance_remains) < c.goal_tolerance_dist && std::fabs(s.angle_remains) < c.goal_tolerance_ang, "goal status out of the tolerances", "%s", what.c_str());
        CHK2(c.goal_tolerance_lin_vel == 0 || std::fabs(odom_v) < c.goal_tolerance_lin_vel, "goal status at speed", "%s, odometry %g", what.c_str(), odom_v);
        CHK2(c.goal_tolerance_ang_vel == 0 || std::fabs(odom_w) < c.goal_tolerance_ang_vel, "goal status while turning", "%s, odometry %g", what.c_str(), odom_w);
        vf::count("goals");
      }
    }
    fresh = false;
    pv = v;
    pw = w;
  };
  b.on_pair = judge;
  b.on_lone_status = [&]()
  {
    CHK2(false, "status without a command", "status %d", b.status.status);
  };
  const int steps = r.i(60, 200);
  double obey = 1;
  const bool noisy = r.p(0.4);
  node::spinWith([&]()
                 {
    b.robot.x = r.u(-3, 3);
    b.robot.y = r.u(-3, 3);
    b.robot.yaw = r.u(-3, 3);
    b.odom_in_path = r.p(0.3) ? Pose2() : Pose2{r.u(-5, 5), r.u(-5, 5), r.u(-3, 3)};
    randomize();
    vel0 = c.max_vel;
    b.configure();
    const double period = 1.0 / b.hz;
    ros::Time last_odom, prev_stamp;
    tf_path = r.p(0.8);
    tf_robot = b.odom_mode || r.p(0.8);
    for (int i = 0; i < steps; i++)
    {
      // events
      if (r.p(0.04) || (i == 3 && r.p(0.8)))
      {
        bool l, nf;
        std::vector<P> p = makePath(r, b.odom_in_path * b.robot, l, nf);
        bool with = r.p(0.4), bad = false;
        if (with)
        {
          const int k = r.i(0, 5);
          for (auto& q : p)
            q.vel = k == 0 ? r.u(0, 1.5) : k == 1 ? 0.3 : k == 2 ? (r.p(0.5) ? std::nan("") : r.u(0, 1.5)) : k == 3 ? 0 : std::nan("");
          if (r.p(0.15) && !p.empty())
          {
            p[r.i(0, p.size() - 1)].vel = r.p(0.5) ? -r.u(0.01, 1) : -INFINITY;
            bad = true;
          }
        }
        const bool noframe = r.p(0.03);
        b.path_frame = "map";
        b.sendPath(p, with, noframe ? "" : "map");
        core.drain();
        path = p;
        // a negative velocity dropped by the collapse of in-place poses is not seen by the node: judged when all poses are apart
        bool apart = true;
        for (size_t k = 1; k < p.size(); k++)
          if (std::hypot(p[k].x - p[k - 1].x, p[k].y - p[k - 1].y) < 0.011)
            apart = false;
        if (bad && !apart)
        {
          b.sendPath({}, false, "map");
          core.drain();
          path.clear();
        }
        have_path = !p.empty() && !bad && !noframe;
        if (bad)
          vf::count("paths with invalid velocity");
        line = l;
        nonfinite = nf;
        fresh = true;
        vf::count("paths");
        vf::evaluated(1);
      }
      if (r.p(0.02))
      {
        std_msgs::Float32 f;
        f.data = r.p(0.2) ? 0 : r.u(0, 2);
        if (r.p(0.15))
          f.data = r.pick({-0.5f, NAN, INFINITY, -INFINITY});
        core.send<std_msgs::Float32>("/speed", f);
        core.drain();
        if (std::isfinite(f.data) && f.data >= 0)
          vel0 = f.data;
        vf::count("speed overrides");
      }
      if (r.p(0.02))
      {
        randomize();
        vel0 = c.max_vel;
        b.configure();
        vf::count("reconfigurations");
      }
      if (r.p(0.02))
        tf_path = !tf_path;
      if (!b.odom_mode && r.p(0.02))
        tf_robot = !tf_robot;
      if (r.p(0.01))
      {
        b.robot.x += r.u(-4, 4);
        b.robot.y += r.u(-4, 4);
        b.robot.yaw += r.u(-3, 3);
      }
      if (r.p(0.02))
        obey = r.p(0.6) ? 1 : r.u(0, 1.5);
      // transforms
      shim::TfTree::get().links.clear();
      if (tf_path)
        b.sendTf("map", "odom", b.odom_in_path);
      if (!b.odom_mode && tf_robot)
        b.sendTf("odom", "base_link", b.robot);
      // (in the odometry mode the robot transform is not used)
      b.v = pv * obey + (noisy ? r.u(-0.05, 0.05) : 0);
      b.w = pw * obey + (noisy ? r.u(-0.05, 0.05) : 0);
      if (!b.odom_mode)
      {
        b.move(period);
        node::advance(period);
        used = b.robot;
        if (tf_robot)
        {
          shim::TfTree::get().links.clear();
          if (tf_path)
            b.sendTf("map", "odom", b.odom_in_path);
          b.sendTf("odom", "base_link", b.robot);
        }
        odom_v = odom_w = 0;
        dt = period;
        ctx = CONTROL;
        const long before = pairs;
        core.drain();
        ctx = IDLE;
        CHK2(pairs > before, "no command in a control period", "%d", i);
      }
      else
      {
        double gap = period;
        if (r.p(0.05))
          gap = r.u(0, 1.0);
        // the timeout happens in between
        double left = gap;
        while (left > 1e-9)
        {
          const double s = std::min(left, 0.01);
          left -= s;
          node::advance(s);
          b.move(s);
          ctx = TIMEOUT;
          core.drain();
          ctx = IDLE;
          if (!deadline.isZero() && (core.now - deadline).toSec() > 0.001)
          {
            vf::evaluated(1);
            CHK2(pv == 0 && pw == 0 && b.status.status == Status::NO_PATH, "no stop after odometry timeout", "timeout %g, last odometry %g s ago, command %g %g status %d", b.odom_timeout,
                 (core.now - last_odom).toSec(), pv, pw, b.status.status);
            deadline = ros::Time();
          }
          b.v = pv * obey;
          b.w = pw * obey;
        }
        ros::Time stamp = core.now - ros::Duration(r.p(0.3) ? r.u(0, 0.05) : 0);
        if (r.p(0.03))
          stamp = prev_stamp;  // repeated
        if (r.p(0.03))
          stamp = core.now - ros::Duration(r.u(0, 3));  // goes back
        if (r.p(0.02))
          stamp = core.now + ros::Duration(r.u(0, 1));
        if (stamp.isZero())
          stamp = core.now;
        nav_msgs::Odometry o = b.odom(stamp);
        used = b.robot;
        odom_v = b.v;
        odom_w = b.w;
        if (b.predict)
        {
          const double pd = std::max(0.0, std::min(b.max_dt, (core.now - stamp).toSec()));
          used.x += b.v * pd * std::cos(b.robot.yaw);
          used.y += b.v * pd * std::sin(b.robot.yaw);
          used.yaw += b.w * pd;
        }
        dt = prev_stamp.isZero() ? -1 : std::max(0.0, std::min(b.max_dt, (stamp - prev_stamp).toSec()));
        if (stamp < prev_stamp)
          vf::count("odometry stamps going back");
        core.send<nav_msgs::Odometry>("/odom", o);
        ctx = CONTROL;
        const long before = pairs;
        core.drain();
        ctx = IDLE;
        CHK2(dt < 0 || pairs > before, "no command for an odometry message", "%d", i);
        prev_stamp = stamp;
        last_odom = core.now;
        deadline = b.odom_timeout > 0 ? core.now + ros::Duration(b.odom_timeout) : ros::Time();
      }
    }
    ctx = IDLE; });
  // the node has ended
  vf::evaluated(1);
  CHK2(b.cmd.linear.x == 0 && b.cmd.angular.z == 0, "moving after the end of the node", "%g %g", b.cmd.linear.x, b.cmd.angular.z);
  vf::count("controls", pairs);
  vf::count("moving commands", moving);
  if (moving > 20)
    vf::nontrivial(vf::hashAdd(vf::hashAdd(moving, b.robot.x), b.robot.y));
}
int main(int argc, char** argv)
{
  return vf::run(argc, argv, body);
}
