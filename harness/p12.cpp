// P12: the joint planner node publishes a collision-free, timed trajectory to the target or holds, and survives bad messages.
#include "node.h"
#include <planner_cspace_msgs/PlannerStatus.h>
#include <sensor_msgs/JointState.h>
#include <trajectory_msgs/JointTrajectory.h>
#include <deque>
#include <limits>
namespace
{
struct Link
{
  std::string name;
  float r0, r1, len, x, y, th, gain, vmax;
};
struct Geo
{
  Link l[2];
  // distance left until the nearest collision, negative inside
  double clearance(double t0, double t1) const
  {
    const double a[2] = {t0, t1};
    double ex[2], ey[2];
    for (int i = 0; i < 2; i++)
    {
      ex[i] = l[i].x + std::cos(l[i].th + a[i] * l[i].gain) * l[i].len;
      ey[i] = l[i].y + std::sin(l[i].th + a[i] * l[i].gain) * l[i].len;
    }
    double c = std::hypot(ex[0] - ex[1], ey[0] - ey[1]) - (l[0].r1 + l[1].r1);
    c = std::min(c, std::hypot(ex[0] - l[1].x, ey[0] - l[1].y) - static_cast<double>(l[0].r1 + l[1].r0));
    c = std::min(c, std::hypot(ex[1] - l[0].x, ey[1] - l[0].y) - static_cast<double>(l[1].r1 + l[0].r0));
    return c;
  }
};
struct Out
{
  trajectory_msgs::JointTrajectory m;
};
double mod2pi(double a)
{
  return std::remainder(a, 2 * M_PI);
}
}  // namespace

int main(int argc, char** argv)
{
  return vf::run(argc, argv, [](vf::Rng& r, long)
                 {
    auto& core = node::core();
    core.reset();
    Geo g;
    const int res = r.p(0.8) ? 2 * r.i(5, 24) : r.i(9, 40);
    const int n = 2 * res;
    const float gains[] = {1, -1};
    for (int i = 0; i < 2; i++)
    {
      Link& l = g.l[i];
      l.name = r.p(0.5) ? std::string(i ? "link1" : "link0") : std::string(i ? "rear" : "front");
      l.r0 = r.u(0.02, 0.12);
      l.r1 = r.u(0.02, 0.12);
      l.len = r.u(0.08, 0.35);
      l.x = (i ? -1 : 1) * r.u(0.1, 0.3);
      l.y = r.p(0.5) ? 0 : r.u(-0.1, 0.1);
      l.th = r.p(0.5) ? 0 : r.u(-3, 3);
      if (r.p(0.7))
        l.len = std::abs(l.x) * r.u(0.6, 1.5);
      l.gain = gains[r.i(0, 1)];
      l.vmax = r.u(0.1, 2);
      const std::string p = "/planner_2dof_serial_joints/group0/link" + std::to_string(i);
      core.setParam(p + "_name", l.name);
      core.setParam(p + "_joint_radius", static_cast<double>(l.r0));
      core.setParam(p + "_end_radius", static_cast<double>(l.r1));
      core.setParam(p + "_length", static_cast<double>(l.len));
      core.setParam(p + "_x", static_cast<double>(l.x));
      core.setParam(p + "_y", static_cast<double>(l.y));
      core.setParam(p + "_th", static_cast<double>(l.th));
      core.setParam(p + "_gain_th", static_cast<double>(l.gain));
      core.setParam(p + "_vmax", static_cast<double>(l.vmax));
      core.setParam(p + "_coef", r.u(0.3, 2));
    }
    const int range = r.i(1, std::max(1, std::min(6, res / 2 - 1)));
    core.setParam("/planner_2dof_serial_joints/group0/resolution", res);
    core.setParam("/planner_2dof_serial_joints/group0/range", range);
    core.setParam("/planner_2dof_serial_joints/group0/weight_cost", r.u(0, 8));
    core.setParam("/planner_2dof_serial_joints/group0/expand", r.u(2.0 * M_PI / res, 0.8));
    core.setParam("/planner_2dof_serial_joints/group0/num_threads", r.p(0.2) ? 2 : 1);
    core.setParam("/planner_2dof_serial_joints/group0/point_vel_mode", std::string(r.pick<std::string>({"prev", "next", "avg", "AVG"})));
    const bool replan = r.p(0.5);
    const double interval = replan ? 30.0 : -1.0;
    core.setParam("/planner_2dof_serial_joints/replan_interval", interval);

    // grid of the planner: 1 in collision, 2 too close to call
    std::vector<char> cell(static_cast<size_t>(n) * n);
    auto metric = [&](int i) { return (i - res) * 2.0 * M_PI / res; };
    for (int a = 0; a < n; a++)
      for (int b = 0; b < n; b++)
      {
        const double c = g.clearance(metric(a), metric(b));
        cell[static_cast<size_t>(a) * n + b] = std::abs(c) < 1e-5 ? 2 : c < 0 ? 1 : 0;
      }
    auto at = [&](int a, int b) -> int
    {
      a = ((a % res) + res) % res;
      b = ((b % res) + res) % res;
      return cell[static_cast<size_t>(a) * n + b];
    };
    auto grid = [&](double v) { return v * res / (2 * M_PI) + res; };
    const double lim = 2 * M_PI;

    double joint[2] = {0, 0};
    bool have_joint = false;
    long outs = 0, holds = 0, trajs = 0, checked_motion = 0, direct = 0, wrapped = 0;
    uint64_t h = 7;
    std::vector<trajectory_msgs::JointTrajectory> got;
    planner_cspace_msgs::PlannerStatus last_status;
    core.observe<trajectory_msgs::JointTrajectory>("/joint_trajectory", [&](const trajectory_msgs::JointTrajectory& m) { got.push_back(m); });
    core.observe<planner_cspace_msgs::PlannerStatus>("/planner_2dof_serial_joints/group0/status", [&](const planner_cspace_msgs::PlannerStatus& m) { last_status = m; });
    bool active = false;     // a valid target was accepted
    double target[2] = {0, 0};
    double req_time = 0;

    auto sendJoint = [&](int mode)
    {
      sensor_msgs::JointState s;
      s.header.stamp = core.now;
      if (r.p(0.3))
      {
        s.name.push_back("other");
        s.position.push_back(r.u(-3, 3));
      }
      const int first = r.i(0, 1);
      for (int k = 0; k < 2; k++)
      {
        const int i = k == 0 ? first : 1 - first;
        if (mode == 1 && k == 1)
          continue;  // a joint is missing
        s.name.push_back(g.l[i].name);
        s.position.push_back(joint[i]);
      }
      if (mode == 2)
        s.position.resize(r.i(0, s.position.size() - 1));  // names without positions
      if (mode == 3)
        s = sensor_msgs::JointState();
      core.send("/joint_states", s);
      core.drain();
      if (mode == 0)
        have_joint = true;
    };
    auto judge = [&](const trajectory_msgs::JointTrajectory& m, const char* why)
    {
      vf::evaluated();
      outs++;
      const std::string ctx = vf::fmt("res %d range %d from %.4f %.4f to %.4f %.4f (%s)", res, range, joint[0], joint[1], target[0], target[1], why);
      if (m.joint_names.size() != 2 || m.joint_names[0] != g.l[0].name || m.joint_names[1] != g.l[1].name || m.points.empty())
      {
        vf::violation("output:shape", ctx + ": joint names or points are wrong");
        return;
      }
      double prev[2] = {joint[0], joint[1]}, tprev = 0;
      for (auto& p : m.points)
      {
        if (p.positions.size() != 2 || p.velocities.size() != 2)
        {
          vf::violation("output:shape", ctx + ": a point without two positions and velocities");
          return;
        }
        for (int i = 0; i < 2; i++)
          if (!std::isfinite(p.positions[i]) || !std::isfinite(p.velocities[i]))
          {
            vf::violation("output:finite", ctx + ": a waypoint is not finite");
            return;
          }
      }
      const auto& last = m.points.back();
      const int sa = std::lround(grid(joint[0])), sb = std::lround(grid(joint[1]));
      const int ea = std::lround(grid(target[0])), eb = std::lround(grid(target[1]));
      auto tie = [&](double v) { return std::abs(grid(v) - std::floor(grid(v)) - 0.5) < 1e-3; };
      const bool ties = tie(joint[0]) || tie(joint[1]) || tie(target[0]) || tie(target[1]);
      const bool is_hold = m.points.size() == 1 && std::abs(last.positions[0] - joint[0]) < 1e-5 && std::abs(last.positions[1] - joint[1]) < 1e-5;
      const bool reaches = std::abs(mod2pi(last.positions[0] - target[0])) < 2e-3 && std::abs(mod2pi(last.positions[1] - target[1])) < 2e-3;
      h = vf::hashAdd(h, m.points.size() * 10 + is_hold);
      if (is_hold && (!reaches || last_status.error == planner_cspace_msgs::PlannerStatus::PATH_NOT_FOUND))
      {
        holds++;
        VF_CHECK(last.velocities[0] == 0 && last.velocities[1] == 0, "hold:velocity", "%s: hold with velocity", ctx.c_str());
        VF_CHECK(last_status.error == planner_cspace_msgs::PlannerStatus::PATH_NOT_FOUND, "hold:status", "%s: hold without an error status", ctx.c_str());
        // was there a way?
        if (!ties && at(sa, sb) == 0 && at(ea, eb) == 0)
        {
          std::vector<char> seen(cell.size(), 0);
          std::deque<std::pair<int, int>> q;
          q.push_back({sa % n, sb % n});
          seen[static_cast<size_t>(sa % n) * n + sb % n] = 1;
          while (!q.empty())
          {
            auto c = q.front();
            q.pop_front();
            for (int x = -1; x <= 1; x++)
              for (int y = -1; y <= 1; y++)
              {
                const int a = c.first + x, b = c.second + y;
                if (a < 0 || b < 0 || a >= n || b >= n || seen[static_cast<size_t>(a) * n + b] || at(a, b) != 0)
                  continue;
                seen[static_cast<size_t>(a) * n + b] = 1;
                q.push_back({a, b});
              }
          }
          VF_CHECK(!seen[static_cast<size_t>(ea % n) * n + eb % n], "hold:reachable", "%s: held although a free path exists", ctx.c_str());
          vf::count("holds: unreachable");
        }
        else
          vf::count("holds: start or target in collision");
        return;
      }
      trajs++;
      VF_CHECK(reaches, "traj:target", "%s: ends at %.5f %.5f", ctx.c_str(), last.positions[0], last.positions[1]);
      VF_CHECK(last.velocities[0] == 0 && last.velocities[1] == 0, "traj:final velocity", "%s: moving at the end", ctx.c_str());
      VF_CHECK(last_status.error == planner_cspace_msgs::PlannerStatus::GOING_WELL, "traj:status", "%s: error status %d", ctx.c_str(), last_status.error);
      const double vmax[2] = {g.l[0].vmax, g.l[1].vmax};
      size_t k = 0;
      double sweep = 0;
      for (auto& p : m.points)
      {
        const double t = p.time_from_start.toSec();
        const double d[2] = {p.positions[0] - prev[0], p.positions[1] - prev[1]};
        const double dm = std::max(std::abs(d[0]), std::abs(d[1]));
        if (dm > 1e-5)
          VF_CHECK(t > tprev, "traj:time", "%s: waypoint %zu at %.6f s after %.6f s", ctx.c_str(), k, t, tprev);
        else
          VF_CHECK(t >= tprev, "traj:time", "%s: waypoint %zu at %.6f s after %.6f s", ctx.c_str(), k, t, tprev);
        for (int i = 0; i < 2; i++)
        {
          VF_CHECK(std::abs(d[i]) <= vmax[i] * (t - tprev) * 1.002 + 1e-5, "traj:speed", "%s: joint %d moves %.5f in %.5f s, limit %.4f", ctx.c_str(), i,
                   d[i], t - tprev, vmax[i]);
          VF_CHECK(std::abs(p.velocities[i]) <= vmax[i] * 1.002, "traj:velocity field", "%s: joint %d velocity %.5f, limit %.4f", ctx.c_str(), i,
                   p.velocities[i], vmax[i]);
        }
        // collision along the motion: every cell around the sample is in collision
        const int steps = std::max(1, static_cast<int>(4 * dm * res / (2 * M_PI)));
        for (int s = k == 0 ? 0 : 1; s <= steps; s++)
        {
          const double a = grid(prev[0] + d[0] * s / steps), b = grid(prev[1] + d[1] * s / steps);
          bool all = true;
          for (int x = std::floor(a - 1); x <= std::ceil(a + 1) && all; x++)
            for (int y = std::floor(b - 1); y <= std::ceil(b + 1) && all; y++)
              all = at(x, y) == 1;
          checked_motion++;
          if (all)
          {
            vf::violation("traj:collision", ctx + vf::fmt(": waypoint %zu to %.4f %.4f passes %.4f %.4f, in collision with all its surroundings", k,
                                                          p.positions[0], p.positions[1], prev[0] + d[0] * s / steps, prev[1] + d[1] * s / steps));
            break;
          }
        }
        // a waypoint's own cell
        if (!ties)
        {
          const double a = grid(p.positions[0]), b = grid(p.positions[1]);
          const bool near_tie = std::abs(a - std::floor(a) - 0.5) < 1e-2 || std::abs(b - std::floor(b) - 0.5) < 1e-2;
          if (!near_tie)
            VF_CHECK(at(std::lround(a), std::lround(b)) != 1, "traj:waypoint", "%s: waypoint %zu %.4f %.4f is in collision", ctx.c_str(), k,
                     p.positions[0], p.positions[1]);
        }
        sweep += dm;
        prev[0] = p.positions[0];
        prev[1] = p.positions[1];
        tprev = t;
        k++;
      }
      // start cell
      if (!ties)
        VF_CHECK(at(sa, sb) != 1, "traj:start", "%s: planned from a configuration in collision", ctx.c_str());
      if (m.points.size() == 1)
        direct++;
      if (std::abs(last.positions[0] - target[0]) > 1 || std::abs(last.positions[1] - target[1]) > 1)
        wrapped++;
    };
    auto pickAngle = [&](double ref) -> double
    {
      const int m = r.i(0, 10);
      if (m == 10)
        return (r.p(0.5) ? 1 : -1) * (lim - (r.p(0.5) ? 0 : r.u(0, 2 * M_PI / res)));
      if (m == 0)
        return 0;
      if (m == 1)
        return ref;
      if (m == 2)
        return std::max(-lim, std::min(lim, ref + r.u(-0.3, 0.3)));
      if (m == 3)
        return metric(r.i(1, n - 1));
      if (m == 4)
        return r.u(-M_PI, M_PI);
      return r.u(-lim, lim);
    };
    auto sendTarget = [&](int mode)
    {
      trajectory_msgs::JointTrajectory c;
      c.header.stamp = core.now;
      if (r.p(0.2))
        c.joint_names.push_back("other");
      const int first = r.i(0, 1);
      double t[2] = {pickAngle(joint[0]), pickAngle(joint[1])};
      if (mode == 5)
      {
        // beyond full turns
        t[r.i(0, 1)] = r.pick<double>({6.29, 6.4, -6.6, 9.5, -40, 1e6, -1e9, 1e30, std::nan(""), std::numeric_limits<double>::infinity()});
      }
      std::vector<double> pos(c.joint_names.size(), r.u(-3, 3));
      for (int k = 0; k < 2; k++)
      {
        const int i = k == 0 ? first : 1 - first;
        if (mode == 1 && k == 1)
          continue;
        c.joint_names.push_back(g.l[i].name);
        pos.push_back(static_cast<float>(t[i]));
      }
      trajectory_msgs::JointTrajectoryPoint p;
      p.positions = pos;
      const double T = r.p(0.5) ? 0 : r.u(0.1, 20);
      p.time_from_start = ros::Duration(T);
      if (mode == 2)
        p.positions.resize(r.i(0, pos.size() - 1));
      if (mode != 3)
        c.points.push_back(p);
      if (mode == 4)
        c.points.push_back(p);
      const size_t before = got.size();
      const double t0 = target[0], t1 = target[1];
      if (mode == 0 || mode == 4 || mode == 5)
      {
        target[0] = static_cast<float>(t[0]);
        target[1] = static_cast<float>(t[1]);
      }
      core.send("/trajectory_in", c);
      core.drain();
      if (mode == 0)
      {
        const bool same = active && target[0] == t0 && target[1] == t1 && T == req_time;
        active = true;
        req_time = T;
        if (have_joint && !same && !(target[0] == 0 && target[1] == 0 && T == 0))
          VF_CHECK(got.size() > before, "command:ignored", "res %d from %.4f %.4f to %.4f %.4f: a new target made no output", res, joint[0],
                   joint[1], target[0], target[1]);
        for (size_t k = before; k < got.size(); k++)
          judge(got[k], "new target");
      }
      else if (mode == 4)
      {
        // several points: either rejected or the first one is planned
        for (size_t k = before; k < got.size(); k++)
          judge(got[k], "several points");
        active = got.size() > before;
        req_time = -1;
      }
      else if (mode == 5)
      {
        // out of the representable range: a hold or a path to the same direction
        for (size_t k = before; k < got.size(); k++)
        {
          const auto& m = got[k];
          const bool hold = m.points.size() == 1 && m.points[0].positions.size() == 2 && std::abs(m.points[0].positions[0] - joint[0]) < 1e-5 &&
                            std::abs(m.points[0].positions[1] - joint[1]) < 1e-5;
          if (!hold && std::isfinite(joint[0]) && std::abs(target[0]) < 50 && std::abs(target[1]) < 50)
            judge(m, "beyond full turns");
          vf::count("targets beyond full turns");
        }
        active = false;
        req_time = -1;
      }
      else
      {
        // rejected messages make no motion
        VF_CHECK(got.size() == before, "reject:output", "mode %d: a malformed command made an output", mode);
        vf::count("malformed commands");
        active = false;
        req_time = -1;
      }
    };
    node::spinWith([&]
                   {
      const int steps = r.i(3, 10);
      if (r.p(0.8))
      {
        for (int i = 0; i < 2; i++)
          joint[i] = static_cast<float>(r.p(0.2) ? 0.0 : pickAngle(0));
        sendJoint(0);
      }
      for (int s = 0; s < steps; s++)
      {
        node::advance(r.p(0.5) ? r.u(0.01, 1) : r.u(31, 60));
        const int what = r.i(0, 9);
        if (what < 5)
          sendTarget(r.p(0.75) ? 0 : r.i(1, 5));
        else if (what < 9)
        {
          const bool bad = r.p(0.25);
          const double old[2] = {joint[0], joint[1]};
          if (got.size() && r.p(0.6) && !got.back().points.empty() && got.back().points[0].positions.size() == 2)
          {
            // along the last trajectory
            const auto& ps = got.back().points;
            const auto& p = ps[r.i(0, ps.size() - 1)];
            for (int i = 0; i < 2; i++)
              joint[i] = static_cast<float>(std::max(-lim, std::min(lim, p.positions[i] + (r.p(0.5) ? 0 : r.u(-0.05, 0.05)))));
          }
          else if (r.p(0.5))
            for (int i = 0; i < 2; i++)
              joint[i] = static_cast<float>(pickAngle(joint[i]));
          const size_t before = got.size();
          const int mode = bad ? r.i(1, 3) : 0;
          if (mode)
            joint[0] = old[0], joint[1] = old[1];
          sendJoint(mode);
          if (mode)
          {
            vf::count("malformed joint states");
            VF_CHECK(got.size() == before, "reject:output", "a malformed joint state made an output");
          }
          else
            for (size_t k = before; k < got.size(); k++)
            {
              vf::count("replans");
              if (active)
                judge(got[k], "replan");
            }
        }
        else if (r.p(0.3))
        {
          // a joint beyond a full turn is reported
          const double keep = joint[0];
          joint[0] = r.pick<double>({6.29, 7, -9.5, 100, -1e7, 1e30, std::nan("")});
          sendJoint(0);
          vf::count("joint states beyond full turns");
          joint[0] = keep;
          sendJoint(0);
        }
      } });
    vf::count("outputs", outs);
    vf::count("holds", holds);
    vf::count("trajectories", trajs);
    vf::count("direct trajectories", direct);
    vf::count("motion samples", checked_motion);
    vf::count("ends a full turn from the raw target", wrapped);
    if (trajs > direct)
      vf::nontrivial(vf::hashAdd(h, g.clearance(0.3, 0.7))); });
}
