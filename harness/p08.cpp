// P08: paths published by planner_3d and its plan service are continuous, collision-free, and lead to the goal.
#include "p3d.h"
#include <geometry_msgs/PoseArray.h>
#include <nav_msgs/GetPlan.h>
using namespace p3d;
typedef actionlib_msgs::GoalStatus GS;
// what the node has been given, and the costs which follow from it
struct Model
{
  World base, eff;             // the map; overlaid by the last update
  std::vector<int> base_rough, rough;
  std::vector<uint8_t> hard;   // cells lethal for some yaw
  bool have = false, overwrite = false;
  void finish()
  {
    hard.assign(eff.w * eff.h, 0);
    for (int y = 0; y < eff.h; y++)
      for (int x = 0; x < eff.w; x++)
        for (int t = 0; t < eff.a; t++)
          if (eff.at(x, y, t) > 99)
            hard[y * eff.w + x] = 1;
  }
  void map(const costmap_cspace_msgs::CSpace3D& m, int unknown)
  {
    base.w = m.info.width;
    base.h = m.info.height;
    base.a = m.info.angle;
    base.res = m.info.linear_resolution;
    base.ox = m.info.origin.position.x;
    base.oy = m.info.origin.position.y;
    base.d.assign(m.data.begin(), m.data.end());
    for (auto& v : base.d)
      if (v < 0)
        v = unknown;
    base_rough.assign(base.w * base.h, 100);
    for (int t = 0; t < base.a; t++)
      for (int i = 0; i < base.w * base.h; i++)
        base_rough[i] = std::min<int>(base_rough[i], base.d[size_t(t) * base.w * base.h + i]);
    eff = base;
    rough = base_rough;
    have = true;
    finish();
  }
  void update(const costmap_cspace_msgs::CSpace3DUpdate& u)
  {
    if (!have || u.x + u.width > unsigned(base.w) || u.y + u.height > unsigned(base.h) || u.yaw + u.angle > unsigned(base.a))
      return;
    eff = base;
    rough = base_rough;
    for (unsigned y = 0; y < u.height; y++)
      for (unsigned x = 0; x < u.width; x++)
      {
        int lo = 100;
        for (unsigned t = 0; t < u.angle; t++)
        {
          const int8_t c = u.data[(t * u.height + y) * u.width + x];
          lo = std::min<int>(lo, c);
          int8_t& e = eff.at(u.x + x, u.y + y, u.yaw + t);
          if (overwrite)
            e = c >= 0 ? c : e;
          else
            e = std::max(e, c);
        }
        int& q = rough[(u.y + y) * base.w + u.x + x];
        q = std::max(q, lo);
      }
    finish();
  }
  bool inside(int x, int y, int margin) const
  {
    return x >= margin && y >= margin && x < base.w - margin && y < base.h - margin;
  }
  int yawCell(double yaw) const
  {
    const int t = std::lround(yaw / (2 * M_PI / base.a)) % base.a;
    return t < 0 ? t + base.a : t;
  }
  // cells reachable from a cell through cells with ok(index)
  template <class F>
  std::vector<uint8_t> flood(int x, int y, bool diagonal, int margin, F ok) const
  {
    std::vector<uint8_t> r(base.w * base.h, 0);
    std::vector<int> q;
    if (!inside(x, y, margin))
      return r;
    r[y * base.w + x] = 1;
    q.push_back(y * base.w + x);
    while (!q.empty())
    {
      const int c = q.back();
      q.pop_back();
      for (int j = -1; j <= 1; j++)
        for (int i = -1; i <= 1; i++)
        {
          if (!diagonal && i && j)
            continue;
          const int u = c % base.w + i, v = c / base.w + j;
          if (!inside(u, v, margin) || r[v * base.w + u] || !ok(v * base.w + u))
            continue;
          r[v * base.w + u] = 1;
          q.push_back(v * base.w + u);
        }
    }
    return r;
  }
  // whether a pose is inside a lethal cell, even if displaced a little
  bool lethal(double px, double py, double yaw, double tol, bool use_rough) const
  {
    const double s = 2 * M_PI / base.a;
    for (double dx : {-tol, tol})
      for (double dy : {-tol, tol})
        for (double dt : {-tol, tol})
        {
          const int i = std::floor((px - base.ox) / base.res + dx), j = std::floor((py - base.oy) / base.res + dy);
          if (!base.in(i, j))
            return false;
          const int t = yawCell(yaw + dt * s);
          if ((use_rough ? rough[j * base.w + i] : eff.at(i, j, t)) <= 99)
            return false;
        }
    return true;
  }
};
struct First
{
  bool got = false;
  int error = -1;
  std::vector<double> p;
};
static void body(vf::Rng& r, long)
{
  auto& core = node::core();
  const std::string ns = "/planner_3d";
  std::map<std::string, long> n;
  uint64_t h = 0;
  // ---- configuration
  std::map<std::string, double> pd;
  std::map<std::string, bool> pb;
  std::map<std::string, int> pi;
  pd["search_range"] = r.pick({0.2, 0.3, 0.4});
  pd["local_range"] = r.pick({0.5, 1.0, 2.5});
  pd["esc_range"] = r.pick({0.25, 0.6});
  pd["tolerance_range"] = r.pick({0.0, 0.25, 0.5});
  pd["goal_tolerance_lin"] = r.pick({0.0, 0.1, 0.2});
  pd["goal_tolerance_ang"] = r.pick({0.1, 0.5});
  pd["min_curve_radius"] = r.pick({0.1, 0.3});
  pd["longcut_range"] = r.pick({0.0, 0.0, 0.5});
  pd["sw_wait"] = r.pick({0.0, 0.5});
  pd["freq"] = r.pick({4.0, 10.0});
  pd["freq_min"] = 0.05;
  pd["path_interpolation_resolution"] = r.pick({0.5, 0.5, 0.2, 1.0});
  pd["weight_costmap"] = r.pick({50.0, 0.0, 100.0});
  pb["antialias_start"] = r.p(0.3);
  const bool keep = pb["keep_a_part_of_previous_path"] = r.p(0.25);
  pb["overwrite_cost"] = r.p(0.2);
  pb["remember_updates"] = r.p(0.3);
  pb["find_best"] = r.p(0.7);
  pb["fast_map_update"] = r.p(0.5);
  const bool escape = pb["temporary_escape"] = r.p(0.35), crowd = pb["enable_crowd_mode"] = r.p(0.4);
  const int unknown = pi["unknown_cost"] = r.pick({100, 100, 0, 50});
  pi["num_threads"] = 1;
  pi["num_search_task"] = r.p(0.8) ? 1 : 4;
  if (getenv("VF_LOG"))
  {
    for (auto& p : pd)
      fprintf(stderr, "%s %g\n", p.first.c_str(), p.second);
    for (auto& p : pb)
      fprintf(stderr, "%s %d\n", p.first.c_str(), p.second);
    for (auto& p : pi)
      fprintf(stderr, "%s %d\n", p.first.c_str(), p.second);
  }
  auto params = [&]()
  {
    for (auto& p : pd)
      core.setParam(ns + "/" + p.first, p.second);
    for (auto& p : pb)
      core.setParam(ns + "/" + p.first, bool(p.second));
    for (auto& p : pi)
      core.setParam(ns + "/" + p.first, p.second);
  };
  // ---- maps
  const int kind = r.i(0, 3);  // 0 open, 1 blocks the same for every yaw, 2,3 anything
  World m;
  m.a = r.pick({4, 8, 16});
  m.res = r.pick({0.1, 0.1, 0.2});
  auto newMap = [&](bool other_size)
  {
    if (other_size || !m.w)
    {
      m.w = r.i(16, 40);
      m.h = r.i(16, 40);
    }
    if (r.p(0.2))
    {
      m.a = r.pick({4, 8, 16});
      m.res = r.pick({0.1, 0.2});
    }
    m.ox = r.u(-3, 3);
    m.oy = r.u(-3, 3);
    if (kind >= 2)
      fill(m, r);
    else
    {
      m.d.assign(size_t(m.w) * m.h * m.a, 0);
      if (kind == 1)
      {
        for (int k = r.i(1, 5); k > 0; k--)
        {
          const bool wall = r.p(0.4), v = r.p(0.5);
          int x0 = r.i(0, m.w - 1), y0 = r.i(0, m.h - 1), x1 = x0 + r.i(0, m.w / 3), y1 = y0 + r.i(0, m.h / 3), gap = -1, glen = 0;
          if (wall)
          {
            if (v)
              x1 = x0 + r.i(0, 2), y0 = 0, y1 = m.h - 1;
            else
              y1 = y0 + r.i(0, 2), x0 = 0, x1 = m.w - 1;
            if (r.p(0.7))
              gap = r.i(4, (v ? m.h : m.w) - 8), glen = r.i(1, 6);
          }
          for (int y = y0; y <= std::min(y1, m.h - 1); y++)
            for (int x = x0; x <= std::min(x1, m.w - 1); x++)
            {
              const int q = v ? y : x;
              if (gap >= 0 && q >= gap && q < gap + glen)
                continue;
              for (int t = 0; t < m.a; t++)
                m.at(x, y, t) = 100;
            }
        }
      }
    }
  };
  Model md;
  md.overwrite = pb["overwrite_cost"];
  double x = 0, y = 0, yaw = 0;       // the robot
  double kx = 0, ky = 0, kyaw = 0;    // as read by the node
  double ox = 0, oy = 0;              // and the one before
  bool placed = false, jumped = false;  // a robot put elsewhere is known to the distance map after the next update
  bool tf = false;
  int pose_steps = 0;
  auto range = [&]()
  { return int(float(pd["search_range"]) / float(md.base.res)); };
  auto freePose = [&](const World& w, double& px, double& py, double& pt)
  {
    for (int k = 0; k < 60; k++)
    {
      px = w.ox + r.u(0.6, w.w * w.res - 0.6);
      py = w.oy + r.u(0.6, w.h * w.res - 0.6);
      pt = r.u(-M_PI, M_PI);
      const int i = w.gx(px), j = w.gy(py);
      bool ok = w.in(i, j);
      for (int t = 0; t < w.a && ok; t++)
        ok = w.at(i, j, t) >= 0 && w.at(i, j, t) < 50;
      if (ok)
        return true;
    }
    return false;
  };
  // ---- one run of the node
  nav_msgs::Path last;
  geometry_msgs::PoseArray grid;
  geometry_msgs::PoseStamped goal, current_goal;
  bool goal_on = false;           // a goal is in progress as far as known
  long goal_age = 0;              // cycles since it was given
  bool judged_goal_ok = false;
  int status = St::DONE, error = 0;
  bool fresh_path = false;
  std::shared_ptr<shim::ActionPort<move_base_msgs::MoveBaseAction>> mb;
  double gx = 0, gy = 0;  // the last seen current goal
  bool gseen = false;
  std::vector<ros::Subscriber> subs;
  auto attach = [&]()
  {
    core.reset();
    access().armed = false;
    params();
    mb = shim::actionPort<move_base_msgs::MoveBaseAction>("/move_base");
    md.have = false;
    tf = false;
    pose_steps = 0;
    last = nav_msgs::Path();
    goal_on = false;
    gseen = false;
    ros::NodeHandle nh;
    subs.clear();
    subs.push_back(nh.subscribe<costmap_cspace_msgs::CSpace3D>("/costmap", 1, boost::function<void(const costmap_cspace_msgs::CSpace3D::ConstPtr&)>([&](const costmap_cspace_msgs::CSpace3D::ConstPtr& p)
                                                                                                                                                   { md.map(*p, unknown); })));
    subs.push_back(nh.subscribe<costmap_cspace_msgs::CSpace3DUpdate>("/costmap_update", 1, boost::function<void(const costmap_cspace_msgs::CSpace3DUpdate::ConstPtr&)>([&](const costmap_cspace_msgs::CSpace3DUpdate::ConstPtr& p)
                                                                                                                                                                       { md.update(*p); jumped = false; })));
    core.observe<geometry_msgs::PoseArray>(ns + "/path_poses", [&](const geometry_msgs::PoseArray& p)
                                           {
      if (grid.poses.empty())
        grid = p; });
    core.observe<geometry_msgs::PoseStamped>(ns + "/current_goal", [&](const geometry_msgs::PoseStamped& p)
                                             {
      current_goal = p;
      if (!goal_on || !md.have || pose_steps < 3)
        return;
      const double px = p.pose.position.x, py = p.pose.position.y;
      const bool changed = !gseen || std::hypot(px - gx, py - gy) > 1e-4;
      gx = px, gy = py, gseen = true;
      if (!changed)
        return;
      goal_age = 0;
      const double reloc = (std::lround(pd["tolerance_range"] / md.base.res) + 1.5) * md.base.res;
      if (std::hypot(px - goal.pose.position.x, py - goal.pose.position.y) <= reloc)
        return;
      n["temporary goals"]++;
      const double lim = (std::lround(pd["esc_range"] / md.base.res) + 1.5) * md.base.res + (std::lround(pd["tolerance_range"] / md.base.res) + 1.5) * md.base.res;
      VF_CHECK(escape, "current goal elsewhere", "%f %f, goal %f %f", px, py, goal.pose.position.x, goal.pose.position.y);
      VF_CHECK(std::hypot(px - kx, py - ky) <= lim || std::hypot(px - ox, py - oy) <= lim, "temporary goal away from the robot", "robot %f %f, temporary goal %f %f, range %f", kx, ky, px, py, pd["esc_range"]);
      VF_CHECK(!md.lethal(px, py, tf2::getYaw(p.pose.orientation), 0.02, false), "temporary goal in an obstacle", "%f %f", px, py); });
    core.observe<nav_msgs::Path>("/path", [&](const nav_msgs::Path& p)
                                 {
      last = p;
      fresh_path = true;
      h = vf::hashAdd(h, p.poses.size());
      if (p.poses.size() < 2 || !md.have)
        return;
      n["paths"]++;
      vf::evaluated(1);
      const double res = md.base.res;
      VF_CHECK(p.header.frame_id == "map", "path frame", "%s", p.header.frame_id.c_str());
      const auto& f = p.poses.front().pose.position;
      // the robot cell may be lethal and be left to a free one
      const int i = md.base.gx(kx), j = md.base.gy(ky);
      double lim = pb["antialias_start"] ? 1.6 : 0.75;
      bool hard = false;
      for (int v = -1; v <= 1; v++)
        for (int u = -1; u <= 1; u++)
          hard |= md.base.in(i + u, j + v) && md.hard[(j + v) * md.base.w + i + u];
      if (hard)
        lim += std::lround(pd["tolerance_range"] / res) + 0.01;
      if (keep)
        lim += 3;
      VF_CHECK(std::min(std::hypot(f.x - kx, f.y - ky), std::hypot(f.x - ox, f.y - oy)) <= lim * res + 1e-4, "path starts away from the robot", "robot %f %f, path from %f %f (%f cells)", kx, ky, f.x, f.y, std::hypot(f.x - kx, f.y - ky) / res);
      for (size_t k = 0; k < p.poses.size(); k++)
      {
        const auto& a = p.poses[k].pose;
        const double ya = tf2::getYaw(a.orientation);
        VF_CHECK(!md.lethal(a.position.x, a.position.y, ya, 0.05, false), "path in an obstacle", "pose %zu of %zu at %f %f %f, robot %f %f, preserved %d", k, p.poses.size(), a.position.x, a.position.y, ya, kx, ky, keep);
        if (!k)
          continue;
        const auto& b = p.poses[k - 1].pose;
        const double yb = tf2::getYaw(b.orientation), d = std::hypot(a.position.x - b.position.x, a.position.y - b.position.y) / res;
        VF_CHECK(d <= std::max(0.3, pd["path_interpolation_resolution"]) * 1.7 + 0.15, "gap in the path", "%f cells at %zu of %zu", d, k, p.poses.size());
        if (d > 1e-3)
        {
          const double ym = yb + wrap(ya - yb) / 2;
          VF_CHECK(!md.lethal((a.position.x + b.position.x) / 2, (a.position.y + b.position.y) / 2, ym, 0.15, false), "path through an obstacle", "between %zu and %zu of %zu at %f %f", k - 1, k, p.poses.size(), a.position.x, a.position.y);
        }
        n["poses"]++;
      } });
    core.observe<planner_cspace_msgs::PlannerStatus>(ns + "/status", [&](const planner_cspace_msgs::PlannerStatus& s)
                                                     {
      status = s.status;
      error = s.error;
      if (getenv("VF_LOG"))
        fprintf(stderr, "status %d error %d goal %d robot %f %f %f cell %d %d %d path %zu range %d\n", s.status, s.error, goal_on, kx, ky, kyaw, md.base.gx(kx), md.base.gy(ky), md.have ? md.yawCell(kyaw) : 0, last.poses.size(), range());
      const bool planned = fresh_path;
      fresh_path = false;
      if (!planned || !goal_on || !md.have || pose_steps < 4 || goal_age++ < 2 || jumped || s.status != St::DOING)
        return;
      vf::evaluated(1);
      const int rg = range();
      const World& b = md.base;
      const int sx = b.gx(kx), sy = b.gy(ky), ex = b.gx(goal.pose.position.x), ey = b.gy(goal.pose.position.y);
      const int et = md.yawCell(tf2::getYaw(goal.pose.orientation)), st = md.yawCell(kyaw);
      // only goals which need not be moved
      if (!md.inside(sx, sy, rg + 2) || !md.inside(ex, ey, rg + 2) || md.eff.at(sx, sy, st) > 99 || md.eff.at(ex, ey, et) > 99)
        return;
      if (md.hard[ey * b.w + ex])
        return;
      for (int v = -1; v <= 1; v++)
        for (int u = -1; u <= 1; u++)
          if (md.hard[(sy + v) * b.w + sx + u])
            return;
      if (keep)
        return;
      const auto un = md.flood(sx, sy, true, 0, [&](int c)
                               { return md.rough[c] < 100; });
      if (!un[ey * b.w + ex])
      {
        n["unreachable"]++;
        VF_CHECK(last.poses.size() < 2 || escape, "path to an unreachable goal", "%zu poses to %f %f", last.poses.size(), last.poses.back().pose.position.x, last.poses.back().pose.position.y);
        VF_CHECK(s.error != St::GOING_WELL || escape, "unreachable goal is going well", "goal cell %d %d", ex, ey);
        return;
      }
      // any cell on the way is free for every yaw, away from the border
      // with a short search range there are no straight motions in some directions, and there are no turns out of the local range
      if (rg < 3 || pd["local_range"] < 1)
        return;
      const auto way = md.flood(sx, sy, false, rg + 1, [&](int c)
                                { return !md.hard[c] && md.rough[c] < 100; });
      if (way[ey * b.w + ex] && (std::hypot(gx - goal.pose.position.x, gy - goal.pose.position.y) < 1e-3 || !escape))
      {
        n["reachable"]++;
        if (s.error != St::GOING_WELL)
          n["reachable but failed"]++;
        VF_CHECK(s.error == St::GOING_WELL, "reachable goal is not going well", "error %d, range %d, robot cell %d %d %d, goal cell %d %d %d", s.error, rg, sx, sy, st, ex, ey, et);
        VF_CHECK(!last.poses.empty() || escape, "no path to a reachable goal", "goal cell %d %d", ex, ey);
        // a goal within the local range on a map without costs is planned to the end
        bool zero = true;
        for (auto& v : md.eff.d)
          zero &= v == 0;
        if (zero && std::hypot(gx - goal.pose.position.x, gy - goal.pose.position.y) < 1e-3 && !pb["remember_updates"] && !last.poses.empty() && std::hypot(sx - ex, sy - ey) < pd["local_range"] / b.res)
        {
          n["whole paths"]++;
          const auto& q = last.poses.back().pose;
          VF_CHECK(b.gx(q.position.x) == ex && b.gy(q.position.y) == ey && md.yawCell(tf2::getYaw(q.orientation)) == et, "path does not end at the goal", "%f %f, goal %f %f", q.position.x, q.position.y, goal.pose.position.x, goal.pose.position.y);
        }
      } });
    current_goal = geometry_msgs::PoseStamped();
    core.now = ros::Time(1000);
  };
  auto setTf = [&]()
  {
    setPose(x, y, yaw);
    jumped |= placed;
    placed = false;
    ox = kx, oy = ky;
    kx = x, ky = y, kyaw = yaw;
    tf = true;
  };
  auto sendGoal = [&](double px, double py, double pt)
  {
    goal = geometry_msgs::PoseStamped();
    goal.header.frame_id = "map";
    goal.header.stamp = core.now;
    goal.pose.position.x = px;
    goal.pose.position.y = py;
    goal.pose.orientation = quat(pt);
    move_base_msgs::MoveBaseGoal a;
    a.target_pose = goal;
    if (!mb->send)
      return;
    gseen = false;
    goal_age = 0;  // status is published in the callback
    mb->send(a);
    if (getenv("VF_LOG"))
      fprintf(stderr, "goal %f %f %f %d\n", px, py, pt, mb->goals.back().status);
    goal_on = mb->goals.back().status == GS::ACTIVE;
    goal_age = 0;
    jumped = placed;
    n["goals"]++;
  };
  auto plan = [&]()
  {
    if (!md.have)
      return;
    nav_msgs::GetPlan s;
    double t;
    freePose(md.base, s.request.start.pose.position.x, s.request.start.pose.position.y, t);
    freePose(md.base, s.request.goal.pose.position.x, s.request.goal.pose.position.y, t);
    if (r.p(0.2))
      s.request.goal.pose.position.x = md.base.ox + r.u(-0.5, md.base.w * md.base.res + 0.5), s.request.goal.pose.position.y = md.base.oy + r.u(-0.5, md.base.h * md.base.res + 0.5);
    s.request.start.pose.orientation = s.request.goal.pose.orientation = quat(r.u(-3, 3));
    s.request.tolerance = r.pick({0.0, 0.3});
    s.request.start.header.frame_id = s.request.goal.header.frame_id = "map";
    if (r.p(0.05))
      s.request.goal.header.frame_id = "odom";
    const bool ok = core.call(ns + "/make_plan", s);
    vf::evaluated(1);
    n["plans"]++;
    const World& b = md.base;
    const auto &ps = s.request.start.pose.position, &pe = s.request.goal.pose.position;
    const int sx = b.gx(ps.x), sy = b.gy(ps.y), ex = b.gx(pe.x), ey = b.gy(pe.y), rg = range();
    if (s.request.goal.header.frame_id != "map")
    {
      VF_CHECK(!ok, "plan in another frame", "goal in %s", s.request.goal.header.frame_id.c_str());
      return;
    }
    if (!b.in(sx, sy) || !b.in(ex, ey))
    {
      VF_CHECK(!ok, "plan outside of the map", "%d %d to %d %d", sx, sy, ex, ey);
      return;
    }
    const bool s_ok = md.rough[sy * b.w + sx] < 100, e_ok = md.rough[ey * b.w + ex] < 100;
    if (!ok)
    {
      if (!s_ok || !e_ok || (sx == ex && sy == ey))
        return;
      const auto way = md.flood(sx, sy, false, rg + 1, [&](int c)
                                { return md.rough[c] < 100; });
      VF_CHECK(!md.inside(sx, sy, rg + 1) || !way[ey * b.w + ex], "no plan to a reachable goal", "%d %d to %d %d", sx, sy, ex, ey);
      n["failed plans"]++;
      return;
    }
    n["found plans"]++;
    VF_CHECK(s.response.plan.header.frame_id == "map", "plan frame", "%s", s.response.plan.header.frame_id.c_str());
    const auto& p = s.response.plan.poses;
    if (p.empty())
    {
      vf::violation("empty plan", "success without poses");
      return;
    }
    const double tol = std::lround(s.request.tolerance / b.res);
    const double es = std::hypot(p.front().pose.position.x - b.px(sx), p.front().pose.position.y - b.py(sy)) / b.res, ee = std::hypot(p.back().pose.position.x - b.px(ex), p.back().pose.position.y - b.py(ey)) / b.res;
    VF_CHECK(es <= (s_ok ? 0.01 : tol + 0.01), "plan starts elsewhere", "%f cells from the start", es);
    VF_CHECK(ee <= (e_ok ? 0.01 : tol + 0.01), "plan ends elsewhere", "%f cells from the goal", ee);
    if (s_ok && e_ok)
    {
      const auto un = md.flood(sx, sy, true, 0, [&](int c)
                               { return md.rough[c] < 100; });
      VF_CHECK(un[ey * b.w + ex], "plan to an unreachable goal", "%d %d to %d %d", sx, sy, ex, ey);
    }
    for (size_t k = 0; k < p.size(); k++)
    {
      // cells freed by an overwriting update are left in the map of the plans
      VF_CHECK(md.overwrite || !md.lethal(p[k].pose.position.x, p[k].pose.position.y, 0, 0.05, true), "plan in an obstacle", "pose %zu of %zu", k, p.size());
      if (k)
      {
        const double d = std::hypot(p[k].pose.position.x - p[k - 1].pose.position.x, p[k].pose.position.y - p[k - 1].pose.position.y) / b.res;
        VF_CHECK(d <= std::max(0.3, pd["path_interpolation_resolution"]) * 1.7 + 0.15, "gap in the plan", "%f cells at %zu of %zu", d, k, p.size());
      }
    }
  };
  // ---- first run: histories, then a final map, pose and goal
  enum
  {
    History,
    Final,
    Done
  } phase = History;
  int k = 0, idle = 0, fk = 0;
  const int len = r.i(15, 70);
  const double follow = r.pick({0.5, 0.9, 1.0});
  const bool compare = r.p(0.5);
  World fm;
  double fx = 0, fy = 0, ft = 0, gfx = 0, gfy = 0, gft = 0;
  First first[2];
  int which = 0;
  auto moveAlong = [&](bool whole = false)
  {
    if (last.poses.size() > 1)
    {
      const size_t i = std::min<size_t>(last.poses.size() - 1, whole ? 10000 : r.i(1, 6));
      x = last.poses[i].pose.position.x;
      y = last.poses[i].pose.position.y;
      yaw = tf2::getYaw(last.poses[i].pose.orientation);
    }
    else if (last.poses.size() == 1)
      yaw = tf2::getYaw(last.poses[0].pose.orientation);
  };
  auto begin = [&]()
  {
    idle = 0;
    pose_steps = tf ? pose_steps + 1 : 0;
    if (goal_on && mb->goals.back().status != GS::ACTIVE)
    {
      if (mb->goals.back().status == GS::SUCCEEDED)
        n["succeeded"]++;
      goal_on = false;
    }
  };
  // closed loop: the time a reachable goal may take
  long wait = 0;
  bool wide = false;
  auto isWide = [&]()
  {
    const World& b = md.base;
    const int ex = b.gx(goal.pose.position.x), ey = b.gy(goal.pose.position.y), sx = b.gx(x), sy = b.gy(y), mg = range() + 2;
    if (kind != 0 || keep || range() < 3 || pd["local_range"] < 1 || !md.inside(sx, sy, mg) || !md.inside(ex, ey, mg))
      return false;
    for (auto& v : md.eff.d)
      if (v)
        return false;
    return true;
  };
  auto finalStep = [&]()
  {
    begin();
    fk++;
    if (fk == 1)
    {
      if (goal_on)
        mb->cancel(mb->goals.size() - 1);
      goal_on = false;
      core.send("/costmap", fm.msg(core.now));
      x = fx, y = fy, yaw = ft;
      setTf();
      return;
    }
    node::advance(0.1);
    setTf();
    if (fk < 8)
      return;
    if (fk == 8)
    {
      grid.poses.clear();
      sendGoal(gfx, gfy, gft);
      return;
    }
    if ((fk >= 12 && !grid.poses.empty()) || fk >= 40)
    {
      First& f = first[which];
      f.got = true;
      f.error = error;
      for (auto& q : grid.poses)
        f.p.push_back(q.position.x), f.p.push_back(q.position.y), f.p.push_back(tf2::getYaw(q.orientation));
      phase = Done;
      core.ok = false;
    }
  };
  auto emptyUpdate = [&]()
  {
    costmap_cspace_msgs::CSpace3DUpdate u;
    u.header.frame_id = "map";
    u.header.stamp = core.now;
    u.width = m.w;
    u.height = m.h;
    u.angle = m.a;
    u.data.assign(m.d.size(), 0);
    core.send("/costmap_update", u);
  };
  auto step = [&](const ros::Time&)
  {
    if (phase == Final)
    {
      finalStep();
      return;
    }
    begin();
    if (++k == 1)
    {
      newMap(true);
      core.send("/costmap", m.msg(core.now));
      freePose(m, x, y, yaw);
    }
    if (k > len)
    {
      if (wide && goal_on && isWide() && wait < 120)
      {  // let it arrive
        if (wait++ % 5 == 0)
          emptyUpdate();
        moveAlong(wait > 60);  // poses between the cells may alternate
        node::advance(0.1);
        setTf();
        return;
      }
      if (wide && wait)
      {
        n["arrivals judged"]++;
        VF_CHECK(!goal_on || !isWide(), "goal is not reached", "robot %f %f %f follows the path but has not arrived at %f %f %f", x, y, yaw, goal.pose.position.x, goal.pose.position.y, tf2::getYaw(goal.pose.orientation));
      }
      if (compare)
      {
        newMap(r.p(0.5));
        fm = m;
        freePose(fm, fx, fy, ft);
        freePose(fm, gfx, gfy, gft);
        phase = Final;
        n["comparisons"]++;
      }
      else
        core.ok = false;
      return;
    }
    double px, py, pt;
    if (r.p(0.03))
    {
      newMap(r.p(0.5));
      core.send("/costmap", m.msg(core.now));
      if (r.p(0.7))
        freePose(m, x, y, yaw), placed = true;
    }
    if (k > 4 && r.p(0.15))
    {
      if (kind == 0)
        emptyUpdate();
      else
        core.send("/costmap_update", update(m, r, core.now, true, m.gx(x), m.gy(y)));
      n["updates"]++;
    }
    if (k > 5 && (!goal_on ? r.p(0.4) : r.p(0.04)) && freePose(m, px, py, pt))
    {
      if (r.p(0.3))
      {  // close
        px = x + r.u(-0.8, 0.8);
        py = y + r.u(-0.8, 0.8);
      }
      sendGoal(px, py, pt);
    }
    if (r.p(0.1))
      plan();
    if (r.p(follow))
      moveAlong();
    if (r.p(0.02))
    {
      freePose(m, x, y, yaw);
      placed = true;
    }
    if (compare && r.p(0.03))
    {  // change the parameters and restore them
      auto rc = shim::reconfPort<planner_cspace::Planner3DConfig>(ns);
      if (rc->get && rc->set)
      {
        const auto c0 = rc->get();
        auto c = c0;
        c.search_range = r.pick({0.2, 0.4});
        c.weight_costmap = r.pick({10.0, 90.0});
        c.local_range = r.pick({0.3, 2.0});
        c.max_vel = r.pick({0.3, 1.0});
        c.min_curve_radius = r.pick({0.1, 0.5});
        if (getenv("VF_LOG"))
          fprintf(stderr, "reconfiguration\n");
        rc->set(c);
        rc->set(c0);
        jumped = true;  // the distance map is rebuilt on the next update or goal
        n["reconfigurations"]++;
      }
    }
    wide = kind == 0;
    node::advance(r.p(0.5) ? 0.1 : 0.02);
    setTf();
  };
  attach();
  auto spin = [&]()
  {
    core.on_sleep = step;
    core.on_spin_once = [&]()
    {
      if (++idle < 2)
        return;
      node::advance(0.02);
      step(core.now);
    };
    node::run();
    core.on_sleep = nullptr;
    core.on_spin_once = nullptr;
  };
  spin();
  if (compare && phase == Done)
  {
    // the same final map, pose and goal given to a new node
    which = 1;
    phase = Final;
    fk = 0;
    subs.clear();
    attach();
    spin();
    if (first[0].got && first[1].got)
    {
      n["compared"]++;
      n["compared paths"] += first[1].p.size() > 4;
      h = vf::hashAdd(h, first[1].p.size());
      VF_CHECK(keep || first[0].error == first[1].error, "outcome depends on the history", "error %d after the history, %d for a new node", first[0].error, first[1].error);
      VF_CHECK(first[0].p == first[1].p, "path depends on the history", "%zu values after the history, %zu for a new node", first[0].p.size(), first[1].p.size());
    }
  }
  for (auto& q : n)
    vf::count(q.first, q.second);
  if (n["paths"] > 5 && n["poses"] > 50)
    vf::nontrivial(h);
}
int main(int argc, char** argv)
{
  return vf::run(argc, argv, body);
}
