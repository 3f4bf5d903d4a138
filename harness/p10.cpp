// P10: planner_3d under arbitrary well-formed histories; sanitizers, exceptions and grid accesses are observed.
#include "p3d.h"
using namespace p3d;
static void body(vf::Rng& r, long)
{
  auto& core = node::core();
  core.reset();
  access().armed = true;
  const std::string ns = "/planner_3d";
  const bool with_vel = r.p(0.2), crowd = r.p(0.4);
  auto P = [&](const char* n, auto v)
  { core.setParam(ns + "/" + n, v); };
  auto conf = [&](auto set)
  {
    if (r.p(0.5))
      set("search_range", r.pick({0.1, 0.2, 0.3, 0.4, 0.5}));
    if (r.p(0.3))
      set("local_range", r.pick({0.0, 0.3, 1.0, 2.5}));
    if (r.p(0.3))
      set("esc_range", r.pick({0.0, 0.1, 0.25, 0.6, 1.0}));
    if (r.p(0.3))
      set("esc_range_min_ratio", r.pick({0.0, 0.5, 1.0}));
    if (r.p(0.3))
      set("tolerance_range", r.pick({0.0, 0.1, 0.25, 1.0}));
    if (r.p(0.3))
      set("tolerance_angle", r.pick({0.0, 0.5, 3.14}));
    if (r.p(0.3))
      set("longcut_range", r.pick({0.0, 0.5}));
    if (r.p(0.3))
      set("hist_ignore_range", r.pick({0.0, 0.3, 0.6}));
    if (r.p(0.3))
      set("hist_ignore_range_max", r.pick({0.0, 1.25, 3.0}));
    if (r.p(0.2))
      set("hysteresis_max_dist", r.pick({0.0, 0.1, 0.3}));
    if (r.p(0.2))
      set("hysteresis_expand", r.pick({0.0, 0.1, 0.2}));
    if (r.p(0.2))
      set("costmap_watchdog", r.pick({0.0, 0.3, 1.0}));
    if (r.p(0.2))
      set("sw_wait", r.pick({0.0, 0.3, 2.0}));
    if (r.p(0.3))
      set("goal_tolerance_lin", r.pick({0.0, 0.05, 0.3}));
    if (r.p(0.2))
      set("min_curve_radius", r.pick({0.0, 0.1, 0.5}));
    if (r.p(0.2))
      set("weight_remembered", r.pick({0.0, 100.0, 1000.0}));
    if (r.p(0.2))
      set("dist_stop_to_previous_path", r.pick({0.0, 0.1, 1.0}));
  };
  auto confB = [&](auto set)
  {
    set("antialias_start", r.p(0.3));
    set("overwrite_cost", r.p(0.3));
    set("remember_updates", r.p(0.5));
    set("find_best", r.p(0.7));
    set("force_goal_orientation", r.p(0.5));
    set("temporary_escape", r.p(0.8));
    set("fast_map_update", r.p(0.5));
    set("keep_a_part_of_previous_path", r.p(0.4));
    set("trigger_plan_by_costmap_update", r.p(0.2));
  };
  conf([&](const char* n, double v)
       { P(n, v); });
  confB([&](const char* n, bool v)
        { P(n, v); });
  if (r.p(0.4))
    P("max_retry_num", r.pick({-1, 0, 2}));
  if (r.p(0.2))
    P("relocation_acceptable_cost", r.pick({0, 50, 100}));
  P("freq", r.pick({2.0, 4.0, 10.0}));
  P("freq_min", 0.2);
  P("enable_crowd_mode", crowd);
  P("use_path_with_velocity", with_vel);
  P("num_threads", r.p(0.9) ? 1 : 3);
  if (r.p(0.3))
    P("num_search_task", r.pick({1, 4}));
  if (r.p(0.2))
    P("queue_size_limit", r.pick({10, 1000}));
  if (r.p(0.2))
    P("unknown_cost", r.pick({0, 50, 100}));
  if (r.p(0.2))
    P("retain_last_error_status", r.p(0.5));
  if (r.p(0.1))
    P("grid_enumeration_resolution", r.pick({0.05, 0.5, 1.0}));
  P("jump_detect_frame", r.p(0.7) ? "odom" : "base_link");
  ros::NodeHandle nh;
  std::vector<ros::Subscriber> subs;
  if (r.p(0.7))
  {
    subs.push_back(nh.subscribe<sensor_msgs::PointCloud>(ns + "/distance_map", 1, boost::function<void(const sensor_msgs::PointCloud::ConstPtr&)>([](const sensor_msgs::PointCloud::ConstPtr&) {})));
    for (const char* t : {"/hysteresis_map", "/remembered_map"})
      subs.push_back(nh.subscribe<nav_msgs::OccupancyGrid>(ns + t, 1, boost::function<void(const nav_msgs::OccupancyGrid::ConstPtr&)>([](const nav_msgs::OccupancyGrid::ConstPtr&) {})));
  }
  auto mb = shim::actionPort<move_base_msgs::MoveBaseAction>("/move_base");
  auto mt = shim::actionPort<planner_cspace_msgs::MoveWithToleranceAction>("/tolerant_move");
  auto rc = shim::reconfPort<planner_cspace::Planner3DConfig>(ns);
  // outputs
  long paths = 0, goals = 0, updates = 0, maps = 0, found = 0, escapes = 0;
  uint64_t h = 0;
  core.observe<nav_msgs::Path>("/path", [&](const nav_msgs::Path& p)
                               {
                                 paths++;
                                 h = vf::hashAdd(h, p.poses.size());
                                 if (p.poses.size() > 1)
                                 {
                                   found++;
                                   h = vf::hashAdd(h, p.poses.back().pose.position.x);
                                 }
                                 for (auto& q : p.poses)
                                   VF_CHECK(std::isfinite(q.pose.position.x) && std::isfinite(q.pose.position.y) && std::isfinite(q.pose.orientation.z), "not finite", "pose %f %f", q.pose.position.x, q.pose.position.y); });
  core.observe<trajectory_tracker_msgs::PathWithVelocity>("/path_velocity", [&](const trajectory_tracker_msgs::PathWithVelocity& p)
                                                          {
                                                            paths++;
                                                            found += p.poses.size() > 1; });
  World m;
  double x = 0, y = 0, yaw = 0, gx = 0, gy = 0;
  bool tf = true;
  nav_msgs::Path last;
  core.observe<nav_msgs::Path>("/path", [&](const nav_msgs::Path& p)
                               { last = p; });
  auto newMap = [&]()
  {
    const bool same_res = maps && r.p(0.6);
    m.w = r.p(0.1) ? r.i(1, 6) : r.i(6, 40);
    m.h = r.p(0.1) ? r.i(1, 6) : r.i(6, 40);
    if (r.p(0.03))
    {
      m.w = r.i(60, 70);
      m.h = r.i(1, 12);
    }
    if (!same_res)
    {
      m.a = r.p(0.1) ? 1 : r.pick({4, 4, 4, 8, 8, 16});
      m.res = r.pick({0.1, 0.2, 0.2, 0.25, 0.5});
      if (r.p(0.1) && m.a < 16)
        m.res = 0.05;
    }
    if (m.res == 0.05)
    {
      m.w = std::min(m.w, 16);
      m.h = std::min(m.h, 16);
    }
    if (!maps || r.p(0.3))
    {
      m.ox = r.p(0.3) ? 0 : r.u(-5, 5);
      m.oy = r.p(0.3) ? 0 : r.u(-5, 5);
      if (r.p(0.02))
        m.ox = r.pick({-1e5, 1e5});
    }
    fill(m, r);
  };
  auto place = [&](double& px, double& py)
  {
    if (r.p(0.85) && m.w)
    {
      px = m.ox + r.u(0, m.w * m.res);
      py = m.oy + r.u(0, m.h * m.res);
      if (r.p(0.15))
        (r.p(0.5) ? px : py) = (r.p(0.3) ? 0 : (r.p(0.5) ? m.ox : m.oy)) + r.pick({-0.01, 0.0, 0.01});
    }
    else
    {
      px = m.ox + r.u(-10, 10);
      py = m.oy + r.u(-10, 10);
      if (r.p(0.1))
        px = r.pick({-1e6, 1e6, 1e4});
    }
  };
  auto free = [&](double& px, double& py)
  {
    for (int k = 0; k < 20; k++)
    {
      place(px, py);
      const int i = m.gx(px), j = m.gy(py);
      if (m.in(i, j) && m.at(i, j, 0) < 50)
        return;
    }
  };
  auto pose = [&](double px, double py)
  {
    geometry_msgs::PoseStamped p;
    p.header.frame_id = r.p(0.97) ? m.frame : "other";
    p.header.stamp = core.now;
    p.pose.position.x = px;
    p.pose.position.y = py;
    p.pose.orientation = quat(r.u(-M_PI, M_PI));
    if (r.p(0.02))
      p.pose.orientation = geometry_msgs::Quaternion();
    return p;
  };
  const int sleeps = r.i(20, 120);
  const double pe = r.pick({0.05, 0.2, 0.5}), follow = r.pick({0.0, 0.5, 0.9});
  int n = 0;
  auto event = [&](int e)
  {
    switch (e)
    {
      case 0:
        newMap();
        maps++;
        core.send("/costmap", m.msg(core.now));
        if (r.p(0.1))
          core.send("/costmap_update", update(m, r, core.now, false, m.gx(x), m.gy(y)));
        break;
      case 1:
      case 2:
      case 3:
        if (!m.w)
          break;
        updates++;
        core.send("/costmap_update", update(m, r, core.now - ros::Duration(r.pick({0.0, 0.1})), r.p(0.7), r.p(0.8) ? m.gx(x) : m.gx(gx), r.p(0.8) ? m.gy(y) : m.gy(gy)));
        break;
      case 4:
      case 5:
      {
        goals++;
        r.p(0.85) ? free(gx, gy) : place(gx, gy);
        auto p = pose(gx, gy);
        const int k = r.i(0, 3);
        if (k == 0)
          core.send("/move_base_simple/goal", p);
        else if (k < 3 && mb->send)
        {
          move_base_msgs::MoveBaseGoal g;
          g.target_pose = p;
          mb->send(g);
        }
        else if (mt->send)
        {
          planner_cspace_msgs::MoveWithToleranceGoal g;
          g.target_pose = p;
          g.goal_tolerance_lin = r.u(0, 0.5);
          g.goal_tolerance_ang = r.u(0, 1);
          g.goal_tolerance_ang_finish = r.u(0, 0.5);
          g.continuous_movement_mode = r.p(0.3);
          mt->send(g);
        }
        break;
      }
      case 6:
        if (mb->cancel && !mb->goals.empty() && r.p(0.5))
          mb->cancel(mb->goals.back().id);
        if (mt->cancel && !mt->goals.empty() && r.p(0.5))
          mt->cancel(mt->goals.back().id);
        break;
      case 7:
        r.p(0.85) ? free(x, y) : place(x, y);
        yaw = r.u(-M_PI, M_PI);
        break;
      case 8:
        tf = r.p(0.7);
        if (!tf)
          shim::TfTree::get().links.clear();
        break;
      case 9:
      {
        std_srvs::Empty s;
        core.call("/forget_planning_cost", s);
        break;
      }
      case 10:
      case 11:
      {
        nav_msgs::GetPlan s;
        double ax, ay;
        r.p(0.7) ? free(ax, ay) : place(ax, ay);
        s.request.start = pose(ax, ay);
        r.p(0.7) ? free(ax, ay) : place(ax, ay);
        s.request.goal = pose(ax, ay);
        s.request.tolerance = r.pick({0.0, 0.1, 0.5});
        if (core.call(ns + "/make_plan", s))
          vf::count("plans", 1);
        break;
      }
      case 12:
        core.send(ns + "/temporary_escape", std_msgs::Empty());
        escapes++;
        break;
      case 13:
        if (rc->set && r.p(0.5))
        {
          auto c = rc->get();
          // through parameters, to reuse the same choices
          conf([&](const std::string& k, double v)
               {
#define F(q) if (k == #q) c.q = v;
                 F(search_range) F(local_range) F(esc_range) F(esc_range_min_ratio) F(tolerance_range) F(tolerance_angle) F(longcut_range) F(hist_ignore_range) F(hist_ignore_range_max) F(hysteresis_max_dist) F(hysteresis_expand) F(costmap_watchdog) F(sw_wait) F(goal_tolerance_lin) F(min_curve_radius) F(weight_remembered) F(dist_stop_to_previous_path)
               });
          confB([&](const std::string& k, bool v)
                {
                  if (r.p(0.7))
                    return;
                  F(antialias_start) F(overwrite_cost) F(remember_updates) F(find_best) F(force_goal_orientation) F(temporary_escape) F(fast_map_update) F(keep_a_part_of_previous_path) F(trigger_plan_by_costmap_update)
                });
#undef F
          rc->set(c);
          vf::count("reconfigurations", 1);
        }
        break;
      default:
        node::advance(r.pick({0.05, 0.2, 0.5, 1.5}));
        break;
    }
  };
  core.now = ros::Time(r.u(10, 1e6));
  auto tick = [&]()
  {
    // motion along the path
    if (last.poses.size() > 1 && r.p(follow))
    {
      const size_t i = std::min<size_t>(last.poses.size() - 1, r.i(0, 3));
      x = last.poses[i].pose.position.x + r.u(-0.01, 0.01);
      y = last.poses[i].pose.position.y + r.u(-0.01, 0.01);
      yaw = tf2::getYaw(last.poses[i].pose.orientation);
    }
    if (tf)
    {
      setPose(x, y, yaw, r.p(0.98) ? m.frame : "elsewhere");
    }
    else if (r.p(0.3))
      tf = true;
  };
  int idle = 0;
  auto step = [&](const ros::Time&)
  {
    idle = 0;
    if (++n > sleeps)
    {
      core.ok = false;
      return;
    }
    if (n == 1)
    {
      event(0);
      free(x, y);
    }
    if (n == 2)
      for (int k = 0; k < 3; k++)
        event(4);
    while (r.p(pe))
      event(r.i(0, 3) ? r.i(1, 14) : r.i(0, 14));
    if (r.p(0.2))
      node::advance(r.pick({0.1, 0.3}));
    tick();
  };
  core.on_sleep = step;
  // planning again without sleeping takes time, too
  core.on_spin_once = [&]()
  {
    if (++idle < 2)
      return;
    node::advance(0.02);
    step(core.now);
    vf::count("plans without sleep", 1);
  };
  node::run();
  core.on_sleep = nullptr;
  core.on_spin_once = nullptr;
  vf::evaluated(n);
  vf::count("paths", paths);
  vf::count("found", found);
  vf::count("maps", maps);
  vf::count("map updates", updates);
  vf::count("goals", goals);
  vf::count("escape triggers", escapes);
  if (found > 0 && updates > 1 && goals > 1)
    vf::nontrivial(h);
}
int main(int argc, char** argv)
{
  return vf::run(argc, argv, body);
}
