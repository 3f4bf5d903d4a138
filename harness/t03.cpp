// T03: closed loop of the tracker node and a robot which obeys it, on feasible paths.
// PROP=1 reports only the path-given speed zones (part of T01).
#include "trk.h"
using namespace trk;
#define CHK3(c, ...) \
  do                 \
  {                  \
    if (PROP == 3)   \
      VF_CHECK(c, __VA_ARGS__); \
  } while (0)
static void body(vf::Rng& r, long)
{
  Bot b(r);
  Config& c = b.cfg;
  b.odom_mode = r.p(0.4);
  b.predict = true;
  b.hz = r.pick({20.0, 30.0, 50.0, 100.0});
  b.odom_timeout = 0.5;
  const bool tuned = r.p(0.6);
  if (tuned)
  {
    c.max_vel = r.u(0.2, 0.6);
    c.max_angvel = r.u(0.8, 1.5);
    c.max_acc = r.u(0.8, 2);
    c.max_angacc = r.u(1.8, 4);
    c.k_dist = r.u(0.7, 2);
    c.k_ang = r.u(0.8, 2);
    c.k_avel = r.u(0.8, 2);
    c.look_forward = r.u(0.2, 0.6);
    c.curv_forward = r.u(0.2, 0.6);
    c.goal_tolerance_dist = r.u(0.1, 0.3);
    c.goal_tolerance_ang = r.u(0.08, 0.2);
    c.stop_tolerance_dist = r.u(0.05, std::min(0.15, 0.9 * c.goal_tolerance_dist));
    c.stop_tolerance_ang = r.u(0.03, 0.06);
    c.limit_vel_by_avel = r.p(0.3);
    c.use_time_optimal_control = r.p(0.7);
    c.k_ang_rotation = r.u(1, 3);
    c.k_avel_rotation = 2 * std::sqrt(c.k_ang_rotation);
    c.epsilon = r.pick({1e-6, 0.001});
  }
  // --- path in the path frame
  const double nan = std::nan("");
  const bool coarse = r.p(0.15);
  const double spacing = coarse ? r.pick({0.7, 1.5, 3.0}) : r.pick({0.02, 0.05, 0.05, 0.1, 0.2});
  const int np = r.i(1, 5);
  std::vector<P> path, way;
  double len = 0, turns = 0, dir = 1, last_kap = 0;
  Pose2 at{r.u(-4, 4), r.u(-4, 4), r.u(-3, 3)};
  const Pose2 start = at;
  path.push_back({at.x, at.y, at.yaw, nan});
  bool straight_only = true, reversed = false;
  int last_kind = -1, sections = 1;
  const double kmax = std::max(0.11, std::min({1.2, 0.7 * c.max_angvel / c.max_vel, 0.25 / (c.max_vel * c.look_forward)}));
  std::string shape;
  for (int k = 0; k < np; k++)
  {
    int kind = r.i(0, 4);  // 0,1 straight 2 arc 3 turn+straight 4 switch back
    if (coarse && kind == 2)
      kind = 0;
    if (kind == 4 && (k == 0 || dir < 0 || last_kind == 3))
      kind = dir < 0 && r.p(0.7) ? 5 : 0;
    if (kind == 3 || (k == 0 && r.p(0.05)))
    {
      const double a = r.u(0.4, 3.0) * r.pick({-1, 1});
      at.yaw += a;
      turns += std::fabs(a);
      path.push_back({at.x, at.y, at.yaw, nan});
      sections++;
      shape += vf::fmt("turn %.2f ", a);
      dir = 1;
      straight_only = false;
    }
    if (kind == 4 || kind == 5)
    {
      dir = -dir;
      reversed = true;
      sections++;
      straight_only = false;
      shape += "back ";
    }
    const double L = r.u(0.9, coarse ? 8 : 3), kap = kind == 2 ? r.u(0.1, kmax) * r.pick({-1, 1}) : 0;
    const int n = std::max(1, static_cast<int>(std::round(L / spacing)));
    if (kind == 2)
      straight_only = false;
    last_kap = std::fabs(kap);
    shape += vf::fmt(kind == 2 ? "arc %.2f k%.2f " : "line %.2f ", n * spacing, kap);
    for (int i = 0; i < n; i++)
    {
      at.yaw += dir * kap * spacing / 2;
      at.x += dir * spacing * std::cos(at.yaw);
      at.y += dir * spacing * std::sin(at.yaw);
      at.yaw += dir * kap * spacing / 2;
      path.push_back({at.x, at.y, at.yaw, nan});
    }
    len += n * spacing;
    way.push_back(path.back());
    last_kind = kind;
  }
  if (r.p(0.1))
  {
    const double a = r.u(0.4, 3.0) * r.pick({-1, 1});
    at.yaw += a;
    turns += std::fabs(a);
    path.push_back({at.x, at.y, at.yaw, nan});
    shape += vf::fmt("turn %.2f ", a);
    straight_only = false;
  }
  (void)reversed;
  c.allow_backward = true;
  // speed zones
  bool zones = straight_only && r.p(PROP == 1 ? 1.0 : 0.3);
  double vmin = c.max_vel;
  if (zones)
  {
    double v = c.max_vel, s = 0;
    for (size_t i = 0; i < path.size(); i++)
    {
      if (s <= 0)
      {
        v = r.p(0.3) ? nan : r.u(0.1, 0.8);
        s = r.u(0.4, 2.5);
      }
      path[i].vel = v;
      s -= spacing;
      if (!std::isnan(v))
        vmin = std::min(vmin, v);
    }
  }
  // --- robot
  const double lat = r.u(-0.2, 0.2), dyaw = r.u(-0.5, 0.5);
  b.odom_in_path = r.p(0.4) ? Pose2() : Pose2{r.u(-5, 5), r.u(-5, 5), r.u(-3, 3)};
  {
    Pose2 inv;
    inv.yaw = -b.odom_in_path.yaw;
    inv.x = -(std::cos(inv.yaw) * b.odom_in_path.x - std::sin(inv.yaw) * b.odom_in_path.y);
    inv.y = -(std::sin(inv.yaw) * b.odom_in_path.x + std::cos(inv.yaw) * b.odom_in_path.y);
    Pose2 s = start;
    s.x -= lat * std::sin(start.yaw);
    s.y += lat * std::cos(start.yaw);
    s.yaw += dyaw;
    b.robot = inv * s;
  }
  b.begin();
  auto& core = node::core();
  const double latency = b.odom_mode ? r.u(0, 0.03) : 0;
  const double limit = 20 + 3 * (len / std::min(vmin, c.max_vel) + (turns + 2 * sections) / c.max_angvel + 3.0 * (np + 1));
  const std::string what = shape + vf::fmt("spacing %.2f, %s %g Hz, vel %.2f %.2f acc %.2f %.2f, lateral %.2f yaw %.2f, k %.2f %.2f %.2f look %.2f", spacing, b.odom_mode ? "odometry" : "timer", b.hz, c.max_vel,
                                           c.max_angvel, c.max_acc, c.max_angacc, lat, dyaw, c.k_dist, c.k_ang, c.k_avel, c.look_forward);
  const double corridor = tuned ? 0.7 : 0.6, beside = tuned ? 0.35 : 0.25;
  const double near = (tuned ? 0.4 : 0.25) + c.stop_tolerance_dist + 0.6 * c.max_vel * c.look_forward;
  double worst = 0, fin = 0, goal_time = -1, pv = 0;
  size_t visited = 0;
  bool done = false;
  node::spinWith([&]()
                 {
    b.configure();
    b.sendTf("map", "odom", b.odom_in_path);
    if (!b.odom_mode)
      b.sendTf("odom", "base_link", b.robot);
    b.sendPath(path, zones, "map");
    core.drain();
    const double period = 1.0 / b.hz;
    const int sub = 2;
    double t = 0, after = 0;
    while (t < limit && !done)
    {
      for (int i = 0; i < sub; i++)
      {
        b.move(period / sub);
        node::advance(period / sub);
      }
      t += period;
      const Pose2 p = b.odom_in_path * b.robot;
      if (visited < way.size() && std::hypot(p.x - way[visited].x, p.y - way[visited].y) < near)
        visited++;
      const double d = pathDist(path, p.x, p.y);
      worst = std::max(worst, d);
      shim::TfTree::get().links.clear();
      b.sendTf("map", "odom", b.odom_in_path);
      if (!b.odom_mode)
        b.sendTf("odom", "base_link", b.robot);
      else
      {
        // the pose of a moment ago
        Bot past = b;
        past.move(-latency);
        core.send<nav_msgs::Odometry>("/odom", past.odom(core.now - ros::Duration(latency)));
      }
      const long before = b.cmds;
      core.drain();
      if (b.cmds == before)
        continue;
      b.v = b.cmd.linear.x;
      b.w = b.cmd.angular.z;
      if (zones)
      {
        const double y = path[0].yaw, s = (p.x - path[0].x) * std::cos(y) + (p.y - path[0].y) * std::sin(y), ahead = std::fabs(pv) * c.look_forward + spacing + 0.12;
        double lim = 0;
        for (size_t i = 0; i < path.size(); i++)
          if (i * spacing >= s - 0.12 && i * spacing <= s + ahead)
            lim = std::max(lim, std::isnan(path[i].vel) ? c.max_vel : path[i].vel);
        if (s > 0.1 && s < (path.size() - 1) * spacing - 0.1)
        {
          if (PROP == 1)
            VF_CHECK(std::fabs(b.v) <= std::max(lim, std::fabs(pv) - c.max_acc * period) + 1e-4, "speed over the path-given limit of the place", "%s: at %g, %g after %g, limit %g", what.c_str(), s, b.v, pv, lim);
          vf::count("commands in speed zones");
        }
      }
      pv = b.v;
      const bool goal = b.status.status == Status::GOAL;
      if (goal_time < 0 && goal)
      {
        goal_time = t;
        CHK3(visited == way.size(), "goal before all pieces were visited", "%s: %zu of %zu", what.c_str(), visited, way.size());
      }
      if (goal_time >= 0)
      {
        after += period;
        const P& e = path.back();
        const double de = std::hypot(p.x - e.x, p.y - e.y), da = std::fabs(norm(p.yaw - e.yaw));
        if (goal)
        {
          CHK3(de < c.goal_tolerance_dist + beside, "goal status away from the final position", "%s: %g m", what.c_str(), de);
          CHK3(da < c.goal_tolerance_ang + 0.1 + 1.2 * last_kap * (c.goal_tolerance_dist + 0.5 * c.max_vel * c.look_forward + spacing), "goal status with wrong heading", "%s: %g rad", what.c_str(), da);
        }
        if (after > 5)
        {
          fin = de;
          CHK3(goal, "goal status lost", "%s: %g m %g rad, status %d remains %g %g", what.c_str(), de, da, b.status.status, b.status.distance_remains, b.status.angle_remains);
          CHK3(de < c.goal_tolerance_dist + beside, "robot does not stay at the goal", "%s: %g m", what.c_str(), de);
          CHK3(da < c.goal_tolerance_ang + 0.02, "robot does not keep the final heading", "%s: %g rad", what.c_str(), da);
          CHK3(std::fabs(b.v) < 0.05 && std::fabs(b.w) < 0.1, "robot does not stand at the goal", "%s: %g %g", what.c_str(), b.v, b.w);
          done = true;
        }
      }
    } });
  vf::evaluated(1);
  const Pose2 p = b.odom_in_path * b.robot;
  CHK3(done, "goal not reached in time", "%s: after %g s at %g m from the end, %zu of %zu visited, status %d remains %g %g, command %g %g", what.c_str(), limit, std::hypot(p.x - path.back().x, p.y - path.back().y), visited,
       way.size(), b.status.status, b.status.distance_remains, b.status.angle_remains, b.cmd.linear.x, b.cmd.angular.z);
  CHK3(worst < corridor, "robot left the path", "%s: %g m", what.c_str(), worst);
  if (done)
  {
    vf::count("goals reached");
    if (getenv("T03STAT"))
      printf("STAT %d %g %g\n", tuned, worst, fin);
    vf::count("sections", sections);
    if (coarse)
      vf::count("coarse paths");
  }
  vf::nontrivial(vf::hashAdd(vf::hashAdd(len, turns), lat));
}
int main(int argc, char** argv)
{
  return vf::run(argc, argv, body);
}
