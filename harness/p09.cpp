// P09: outcomes of navigation goals, success near the goal only, paths and status only while a goal is in progress.
#include "p3d.h"
using namespace p3d;
typedef actionlib_msgs::GoalStatus GS;
struct Goal
{
  geometry_msgs::PoseStamped p;
  double lin, ang, fin;
  bool cont = false, frame_ok = true, quat_ok = true, cancelled = false, seen = false;
};
static void body(vf::Rng& r, long)
{
  auto& core = node::core();
  core.reset();
  access().armed = false;
  const std::string ns = "/planner_3d";
  auto P = [&](const char* n, auto v)
  { core.setParam(ns + "/" + n, v); };
  const bool open_world = r.p(0.5);
  const double lin = r.pick({0.0, 0.05, 0.1, 0.3}), ang = r.pick({0.1, 0.4, 1.0}), fin = r.pick({0.05, 0.2, 0.5}), tol_range = r.pick({0.0, 0.25, 0.5});
  const bool force = r.p(0.6);
  const int retry = r.p(0.3) ? r.i(0, 4) : -1;
  const double freq = r.pick({4.0, 10.0}), sw = r.pick({0.0, 0.5});
  P("goal_tolerance_lin", lin);
  P("goal_tolerance_ang", ang);
  P("goal_tolerance_ang_finish", fin);
  P("tolerance_range", tol_range);
  P("tolerance_angle", force ? r.pick({0.0, 0.8, 3.2}) : 0.0);
  P("force_goal_orientation", force);
  P("max_retry_num", retry);
  P("freq", freq);
  P("freq_min", 0.2);
  P("sw_wait", sw);
  P("num_threads", 1);
  P("search_range", r.pick({0.2, 0.3, 0.4}));
  P("antialias_start", r.p(0.3));
  P("keep_a_part_of_previous_path", r.p(0.3));
  P("fast_map_update", r.p(0.4));
  const bool escape = r.p(0.5);
  P("temporary_escape", escape);
  P("enable_crowd_mode", r.p(0.3));
  P("remember_updates", r.p(0.3));
  P("find_best", r.p(0.7));
  P("retain_last_error_status", r.p(0.5));
  const bool trig = r.p(0.15);
  P("trigger_plan_by_costmap_update", trig);
  if (r.p(0.15))
    P("costmap_watchdog", 0.5);
  const bool other_params = true;
  (void)other_params;

  World m;
  m.a = r.pick({4, 8, 16});
  m.res = r.pick({0.1, 0.1, 0.2});
  World known;                 // the map the node has received
  double x = 0, y = 0, yaw = 0;
  double kx = 0, ky = 0;       // the pose the node has read last
  bool knows_pose = false;
  int pose_steps = 0;
  bool tf = true, escape_sent = false;
  nav_msgs::Path single;
  int maps = 0;
  std::vector<World> seen_maps;
  std::vector<std::pair<double, double>> dirty;  // updates were applied: any cell may be lethal
  bool any_update = false;
  auto newMap = [&]()
  {
    m.w = r.i(12, 36);
    m.h = r.i(12, 36);
    m.ox = r.u(-3, 3);
    m.oy = r.u(-3, 3);
    if (open_world)
      m.d.assign(size_t(m.w) * m.h * m.a, 0);
    else
      fill(m, r);
    maps++;
  };
  auto free = [&](double& px, double& py)
  {
    for (int k = 0; k < 30; k++)
    {
      px = m.ox + r.u(0.4, m.w * m.res - 0.4);
      py = m.oy + r.u(0.4, m.h * m.res - 0.4);
      const int i = m.gx(px), j = m.gy(py);
      bool ok = m.in(i, j);
      for (int t = 0; t < m.a && ok; t++)
        ok = m.at(i, j, t) >= 0 && m.at(i, j, t) < 50;
      if (ok)
        return;
    }
  };
  auto mb = shim::actionPort<move_base_msgs::MoveBaseAction>("/move_base");
  auto mt = shim::actionPort<planner_cspace_msgs::MoveWithToleranceAction>("/tolerant_move");
  std::vector<Goal> gb, gt;  // by goal id
  Goal topic;                // goal by topic, or one kept after a continuous success
  bool topic_on = false;     // possibly in progress
  bool near_seen = false;
  int status = St::DONE;
  uint64_t h = 0;
  std::map<std::string, long> n;
  bool concluded_in_cycle = false;
  long tries = 0;  // cycles and map changes since the goal was accepted
  auto active = [&](int s)
  { return s == GS::ACTIVE || s == GS::PREEMPTING; };
  auto current = [&]() -> Goal*
  {
    for (auto& g : mb->goals)
      if (active(g.status))
        return &gb[g.id];
    for (auto& g : mt->goals)
      if (active(g.status))
        return &gt[g.id];
    return nullptr;
  };
  // the robot is within the tolerance of the goal, as seen on the grid
  auto nearGoal = [&](const Goal& g)
  {
    const double e = std::hypot(x - g.p.pose.position.x, y - g.p.pose.position.y);
    const bool moved = !open_world;  // poses in rock are relocated
    const double cells = std::lround(g.lin / m.res) + std::sqrt(2.0) * 2;
    double lim = cells * m.res + 1e-4;
    if (moved)
      lim += 2 * std::lround(tol_range / m.res) * m.res;
    return e <= lim;
  };
  auto judgeNear = [&]()
  {
    Goal* g = current();
    if (!g && topic_on)
      g = &topic;
    if (g && tf && nearGoal(*g))
      near_seen = true;
  };
  auto outcomes = [&]()
  {
    auto one = [&](shim::ActionGoalRec& g, Goal& q)
    {
      VF_CHECK(g.terminals <= 1, "concluded twice", "goal %d", g.id);
      if (q.seen || !g.terminals)
        return;
      q.seen = true;
      concluded_in_cycle = true;
      vf::evaluated(1);
      h = vf::hashAdd(h, g.status * 100 + g.id);
      if (g.status == GS::SUCCEEDED)
      {
        n["succeeded"]++;
        if (g.text == "Goal cleared.")
        {
          VF_CHECK(!q.quat_ok, "cleared", "a goal with a valid orientation was cleared");
          return;
        }
        const bool cont = q.cont && g.text != "Goal reached.";
        VF_CHECK(q.quat_ok && q.frame_ok, "success of an invalid goal", "%s", g.text.c_str());
        VF_CHECK(near_seen, "success away from the goal", "robot at %f %f, goal %f %f, tolerance %f, resolution %f", x, y, q.p.pose.position.x, q.p.pose.position.y, q.lin, m.res);
        double dy = std::abs(wrap(yaw - tf2::getYaw(q.p.pose.orientation)));
        const double step = 2 * M_PI / m.a;
        if (cont)
        {
          n["continuous"]++;
          VF_CHECK(nearGoal(q), "success away from the goal", "continuous: robot at %f %f, goal %f %f", x, y, q.p.pose.position.x, q.p.pose.position.y);
          VF_CHECK(dy <= (std::lround(q.ang / step) + 1) * step + 1e-3, "success at a wrong heading", "continuous: %f off", dy);
          topic = q;
          topic.lin = lin, topic.ang = ang, topic.fin = fin;
          topic_on = true;
          concluded_in_cycle = false;
        }
        else if (force)
          VF_CHECK(dy < q.fin + 1e-3, "success at a wrong heading", "%f off, tolerance %f", dy, q.fin);
        else
          VF_CHECK(dy < q.fin + step / 2 + 1e-3, "success at a wrong heading", "%f off, tolerance %f", dy, q.fin);
        VF_CHECK(tf, "success without the robot pose", "transform is not available");
      }
      else if (g.status == GS::PREEMPTED || g.status == GS::RECALLED)
      {
        n["preempted"]++;
        VF_CHECK(q.cancelled, "preempted", "a goal nobody cancelled was preempted: %s", g.text.c_str());
      }
      else if (g.status == GS::ABORTED)
      {
        n["aborted"]++;
        if (g.text == "Goal is in Rock")
        {
          VF_CHECK(retry != -1, "aborted", "gave up although the retries are not limited");
          VF_CHECK(tries + 3 > retry, "aborted", "gave up after at most %ld tries, limit %d", tries + 3, retry);
        }
        else if (q.frame_ok && q.quat_ok)
        {
          // only a robot or goal outside of the map
          const double b = 0.4 + m.res;
          auto inside = [&](double px, double py)
          { return px > known.ox + b && py > known.oy + b && px < known.ox + known.w * known.res - b && py < known.oy + known.h * known.res - b; };
          VF_CHECK(trig || known.w == 0 || !inside(q.p.pose.position.x, q.p.pose.position.y) || !inside(kx, ky), "aborted", "goal at %f %f and robot at %f %f inside the map: %s", q.p.pose.position.x, q.p.pose.position.y, kx, ky, g.text.c_str());
        }
      }
      else
        vf::violation("unknown outcome", g.text);
    };
    for (auto& g : mb->goals)
      one(g, gb[g.id]);
    for (auto& g : mt->goals)
      one(g, gt[g.id]);
    for (auto& s : mb->misuse)
      vf::violation("server misuse", s);
    for (auto& s : mt->misuse)
      vf::violation("server misuse", s);
    mb->misuse.clear();
    mt->misuse.clear();
  };
  nav_msgs::Path last;
  long cycles = 0;
  core.observe<nav_msgs::Path>("/path", [&](const nav_msgs::Path& p)
                               {
                                 last = p;
                                 h = vf::hashAdd(h, p.poses.size());
                                 if (p.poses.empty())
                                   return;
                                 n["paths"]++;
                                 outcomes();
                                 Goal* g = current();
                                 VF_CHECK(g || topic_on, "path without a goal", "%zu poses, status %d", p.poses.size(), status);
                                 if (!g)
                                   g = &topic;
                                 if (p.poses.size() == 1)
                                   single = p;
                                 if (p.poses.size() == 1 && open_world && !escape_sent && (g || topic_on))
                                 {
                                   n["single poses"]++;
                                   const double d = std::hypot(p.poses[0].pose.position.x - g->p.pose.position.x, p.poses[0].pose.position.y - g->p.pose.position.y);
                                   VF_CHECK(d <= m.res * 2.9 + g->lin, "finishing elsewhere", "single pose %f m from the goal", d);
                                 } });
  core.observe<planner_cspace_msgs::PlannerStatus>(ns + "/status", [&](const planner_cspace_msgs::PlannerStatus& s)
                                                   {
                                                     cycles++;
                                                     tries++;
                                                     status = s.status;
                                                     const auto sp = single;
                                                     single.poses.clear();
                                                     if (sp.poses.size() == 1 && s.status == St::FINISHING && force && !escape && (current() || topic_on))
                                                     {
                                                       const Goal* g = current() ? current() : &topic;
                                                       n["forced orientations"]++;
                                                       const auto &a = sp.poses[0].pose, &b = g->p.pose;
                                                       VF_CHECK(std::hypot(a.position.x - b.position.x, a.position.y - b.position.y) < 1e-3 && std::abs(wrap(tf2::getYaw(a.orientation) - tf2::getYaw(b.orientation))) < 1e-3, "finishing at another pose",
                                                                "single pose %f %f %f, requested %f %f %f", a.position.x, a.position.y, tf2::getYaw(a.orientation), b.position.x, b.position.y, tf2::getYaw(b.orientation));
                                                     }
                                                     h = vf::hashAdd(h, s.status * 10 + s.error);
                                                     outcomes();
                                                     Goal* g = current();
                                                     n["statuses"]++;
                                                     if (getenv("VF_LOG"))
                                                       fprintf(stderr, "status %d error %d action %d topic %d robot %f %f %f at %f\n", s.status, s.error, g != nullptr, topic_on, x, y, yaw, core.now.toSec());
                                                     if (!g && !topic_on && !concluded_in_cycle)
                                                     {
                                                       n["idle statuses"]++;
                                                       VF_CHECK(last.poses.empty(), "path left after the goal", "%zu poses", last.poses.size());
                                                     }
                                                     if (g)
                                                     {
                                                       n["statuses with action"]++;
                                                       VF_CHECK(s.status != St::DONE, "status done during a goal", "error %d", s.error);
                                                     }
                                                     else if (!topic_on)
                                                       VF_CHECK(s.status == St::DONE, "status of a goal that is over", "%d, error %d", s.status, s.error);
                                                     else if (s.status == St::DONE)
                                                       topic_on = false, concluded_in_cycle = true;
                                                   });
  // delivery of maps and topic goals: subscribed before the node, so called first
  ros::NodeHandle nh;
  auto sub_map = nh.subscribe<costmap_cspace_msgs::CSpace3D>("/costmap", 1, boost::function<void(const costmap_cspace_msgs::CSpace3D::ConstPtr&)>([&](const costmap_cspace_msgs::CSpace3D::ConstPtr&)
                                                                                                                                                { known = m; }));
  auto sub = nh.subscribe<geometry_msgs::PoseStamped>("/move_base_simple/goal", 1, boost::function<void(const geometry_msgs::PoseStamped::ConstPtr&)>([&](const geometry_msgs::PoseStamped::ConstPtr& p)
                                                                                                                                                      {
                                                                                                                                                        if (current())
                                                                                                                                                          return;
                                                                                                                                                        if (known.w == 0 || p->header.frame_id != "map")
                                                                                                                                                          return;
                                                                                                                                                        Goal g;
                                                                                                                                                        g.p = *p;
                                                                                                                                                        g.lin = lin;
                                                                                                                                                        g.ang = ang;
                                                                                                                                                        g.fin = fin;
                                                                                                                                                        topic = g;
                                                                                                                                                        near_seen = false;
                                                                                                                                                        topic_on = p->pose.orientation.w != 0 || p->pose.orientation.z != 0;
                                                                                                                                                        if (topic_on)
                                                                                                                                                        {
                                                                                                                                                          // out of the map: not accepted
                                                                                                                                                          const int i = known.gx(p->pose.position.x), j = known.gy(p->pose.position.y);
                                                                                                                                                          if (knows_pose && (!known.in(i, j)) && known.in(known.gx(kx) - 8, known.gy(ky) - 8) && known.in(known.gx(kx) + 8, known.gy(ky) + 8))
                                                                                                                                                            topic_on = false, n["outside goals"]++;
                                                                                                                                                        } }));
  core.now = ros::Time(r.u(10, 1e6));
  const int sleeps = r.i(30, 150);
  const double pe = r.pick({0.02, 0.08, 0.2}), follow = r.pick({0.3, 0.8});
  int k = 0, idle = 0;
  bool ending = false;
  int end_left = 0;
  bool map_pending = false;
  auto pose = [&](double px, double py)
  {
    geometry_msgs::PoseStamped p;
    p.header.frame_id = r.p(0.96) ? "map" : "other";
    p.header.stamp = core.now;
    p.pose.position.x = px;
    p.pose.position.y = py;
    p.pose.orientation = quat(r.p(0.3) ? r.pick({-1, 1}) * (M_PI - 0.01) : r.u(-M_PI, M_PI));
    if (r.p(0.03))
      p.pose.orientation = geometry_msgs::Quaternion();
    return p;
  };
  const bool log = getenv("VF_LOG");
  auto sendGoal = [&](int kind, const geometry_msgs::PoseStamped& p)
  {
    n["goals"]++;
    if (log)
      fprintf(stderr, "goal kind %d at %f %f %f, %s\n", kind, p.pose.position.x, p.pose.position.y, tf2::getYaw(p.pose.orientation), p.header.frame_id.c_str());
    Goal g;
    g.p = p;
    g.frame_ok = p.header.frame_id == "map";
    g.quat_ok = p.pose.orientation.w != 0 || p.pose.orientation.z != 0;
    g.lin = lin;
    g.ang = ang;
    g.fin = fin;
    if (kind == 0)
    {
      core.send("/move_base_simple/goal", p);
      return;
    }
    const bool was = topic_on;
    if (kind == 1)
    {
      if (!mb->send)
        return;
      for (auto& q : mb->goals)
        if (!q.terminals)
          gb[q.id].cancelled = true;
      move_base_msgs::MoveBaseGoal a;
      a.target_pose = p;
      gb.push_back(g);
      mb->send(a);
    }
    else
    {
      if (!mt->send)
        return;
      for (auto& q : mt->goals)
        if (!q.terminals)
          gt[q.id].cancelled = true;
      planner_cspace_msgs::MoveWithToleranceGoal a;
      a.target_pose = p;
      a.goal_tolerance_lin = g.lin = r.u(0, 0.5);
      a.goal_tolerance_ang = g.ang = r.u(0.05, 1);
      a.goal_tolerance_ang_finish = g.fin = r.u(0.02, 0.5);
      a.continuous_movement_mode = g.cont = r.p(0.3);
      gt.push_back(g);
      mt->send(a);
    }
    const auto& rec = kind == 1 ? mb->goals.back() : mt->goals.back();
    if (active(rec.status))
      near_seen = false, tries = 0;
    // accepted, or replaced the one in progress
    if (active(rec.status) || (rec.terminals && g.frame_ok))
      topic_on = false;
    (void)was;
    judgeNear();
    outcomes();
  };
  auto place = [&]()
  {
    Goal* g = current();
    if (!g && topic_on)
      g = &topic;
    if (g && r.p(0.6))
    {
      const double d = r.pick({0.0, 0.5, 1.0, 1.5, 3.0}) * std::max(g->lin, m.res), t = r.u(-M_PI, M_PI);
      x = g->p.pose.position.x + d * std::cos(t);
      y = g->p.pose.position.y + d * std::sin(t);
      yaw = tf2::getYaw(g->p.pose.orientation) + r.pick({0.0, 0.5, 0.95, 1.2, 3.0, 10.0}) * (r.p(0.5) ? g->fin : -g->ang);
    }
    else
    {
      free(x, y);
      yaw = r.u(-M_PI, M_PI);
    }
  };
  auto event = [&](int e)
  {
    double gx, gy;
    tries += e < 3 || e == 11;
    if (log)
      fprintf(stderr, "event %d at %f\n", e, core.now.toSec());
    switch (e)
    {
      case 0:
        newMap();
        core.send("/costmap", m.msg(core.now));
        map_pending = true;
        break;
      case 1:
      case 2:
        if (open_world)
        {
          costmap_cspace_msgs::CSpace3DUpdate u;
          u.header.frame_id = "map";
          u.header.stamp = core.now;
          u.width = m.w;
          u.height = m.h;
          u.angle = m.a;
          u.data.assign(m.d.size(), 0);
          core.send("/costmap_update", u);
        }
        else
          core.send("/costmap_update", update(m, r, core.now, true, m.gx(x), m.gy(y)));
        break;
      case 3:
      case 4:
      case 5:
        free(gx, gy);
        if (r.p(0.05))
          gx += r.pick({-100.0, 100.0});
        sendGoal(r.i(0, 2), pose(gx, gy));
        break;
      case 6:
        if (mb->cancel && !mb->goals.empty())
        {
          const int id = r.p(0.8) ? mb->goals.size() - 1 : r.i(0, mb->goals.size() - 1);
          gb[id].cancelled = true;
          mb->cancel(id);
          if (active(mb->goals[id].status))
            vf::violation("not cancelled", "move_base");
          n["cancels"]++;
        }
        if (mt->cancel && !mt->goals.empty())
        {
          const int id = r.p(0.8) ? mt->goals.size() - 1 : r.i(0, mt->goals.size() - 1);
          gt[id].cancelled = true;
          mt->cancel(id);
          if (active(mt->goals[id].status))
            vf::violation("not cancelled", "tolerant_move");
          n["cancels"]++;
        }
        outcomes();
        break;
      case 7:
      case 8:
      case 9:
        place();
        break;
      case 10:
        tf = false;
        n["pose losses"]++;
        shim::TfTree::get().links.clear();
        break;
      case 11:
        if (!open_world)
        {
          core.send(ns + "/temporary_escape", std_msgs::Empty());
          escape_sent = true;
        }
        break;
      default:
        node::advance(r.pick({0.1, 0.5}));
        break;
    }
  };
  auto tick = [&]()
  {
    if (last.poses.size() > 1 && r.p(follow) && !ending)
    {
      const size_t i = std::min<size_t>(last.poses.size() - 1, r.i(0, 5));
      x = last.poses[i].pose.position.x;
      y = last.poses[i].pose.position.y;
      yaw = tf2::getYaw(last.poses[i].pose.orientation);
    }
    else if (last.poses.size() == 1 && r.p(follow) && !ending)
      yaw = tf2::getYaw(last.poses[0].pose.orientation) + r.pick({0.0, 0.0, 0.03, 0.1});
    if (tf)
    {
      setPose(x, y, yaw);
      judgeNear();
    }
    else if (r.p(0.3))
      tf = true;
  };
  Goal* final_goal = nullptr;
  auto step = [&](const ros::Time&)
  {
    idle = 0;
    outcomes();
    concluded_in_cycle = false;
    pose_steps = tf ? pose_steps + 1 : 0;
    knows_pose = pose_steps > 3;
    if (tf)
      kx = x, ky = y;
    judgeNear();
    if (ending)
    {
      if (!current() || end_left-- <= 0)
      {
        if (final_goal && open_world && !trig)
        {
          VF_CHECK(!current(), "no outcome", "the robot stays at the goal, but it is not concluded (status %d)", status);
          n["arrivals judged"]++;
        }
        core.ok = false;
      }
      if (trig && !open_world)
        core.ok = false;
      if (end_left % 4 == 0)
        event(1);
      node::advance(0.05);
      setPose(x, y, yaw);
      return;
    }
    if (++k > sleeps)
    {
      ending = true;
      end_left = 60 + 25 * sw * 2;
      tf = true;
      final_goal = current();
      if (final_goal && m.in(m.gx(final_goal->p.pose.position.x) - 5, m.gy(final_goal->p.pose.position.y) - 5) && m.in(m.gx(final_goal->p.pose.position.x) + 5, m.gy(final_goal->p.pose.position.y) + 5))
      {
        x = final_goal->p.pose.position.x;
        y = final_goal->p.pose.position.y;
        yaw = tf2::getYaw(final_goal->p.pose.orientation);
        if (std::abs(yaw) > M_PI - 0.02)  // to the same cell of the yaw
          yaw += r.pick({-1, 1}) * 0.03;
        setPose(x, y, yaw);
      }
      else
        final_goal = nullptr;
      judgeNear();
      if (!final_goal)
        core.ok = false;
      return;
    }
    if (k == 1)
    {
      event(0);
      free(x, y);
    }
    if (k == 3)
      event(3);
    while (r.p(pe))
      event(r.p(0.05) ? 0 : r.i(1, 13));
    if (r.p(0.2))
      node::advance(r.pick({0.1, 0.3}));
    if (trig && r.p(0.5))
      event(1);
    tick();
  };
  core.on_sleep = step;
  core.on_spin_once = [&]()
  {
    if (++idle < 2)
      return;
    node::advance(0.02);
    step(core.now);
  };
  node::run();
  core.on_sleep = nullptr;
  core.on_spin_once = nullptr;
  for (auto& q : n)
    vf::count(q.first, q.second);
  if (n["succeeded"] && n["preempted"] && n["paths"] > 3)
    vf::nontrivial(h);
}
int main(int argc, char** argv)
{
  return vf::run(argc, argv, body);
}
