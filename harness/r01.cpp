// R01: patrol requests the waypoints of its current path once each, in order, after the previous one concluded.
#include "node.h"
#include <actionlib/client/simple_action_client.h>
#include <move_base_msgs/MoveBaseAction.h>
#include <nav_msgs/Path.h>
#include <planner_cspace_msgs/MoveWithToleranceAction.h>
typedef actionlib::SimpleClientGoalState S;
static bool same(const geometry_msgs::Pose& a, const geometry_msgs::Pose& b)
{
  return a.position.x == b.position.x && a.position.y == b.position.y && a.position.z == b.position.z && a.orientation.x == b.orientation.x && a.orientation.y == b.orientation.y && a.orientation.z == b.orientation.z &&
         a.orientation.w == b.orientation.w;
}
static void body(vf::Rng& r, long)
{
  auto& core = node::core();
  core.reset();
  const bool tol = r.p(0.5);
  const std::string ns = "/patrol";
  double lin = 0.1, ang = 0.1, fin = 0.05;
  if (tol || r.p(0.5))
    core.setParam(ns + "/with_tolerance", tol);
  if (r.p(0.7))
  {
    core.setParam(ns + "/tolerance_lin", lin = r.u(0, 2));
    core.setParam(ns + "/tolerance_ang", ang = r.u(0, 2));
    core.setParam(ns + "/tolerance_ang_finish", fin = r.u(0, 2));
  }
  auto mb = shim::clientPort<move_base_msgs::MoveBaseAction>("/move_base");
  auto mt = shim::clientPort<planner_cspace_msgs::MoveWithToleranceAction>("/tolerant_move");
  nav_msgs::Path cur, pending;
  bool has_pending = false, outstanding = false, concluded = false;
  size_t idx = 0;
  int waiting = 0, cancels = 0;
  long goals = 0;
  uint64_t h = 0;
  auto& state = tol ? mt->state : mb->state;
  bool aborted = false, replaced = false, finished = false;
  auto goal = [&](const geometry_msgs::PoseStamped& p)
  {
    goals++;
    vf::evaluated(1);
    vf::count("goals", 1);
    h = vf::hashAdd(h, p.pose.position.x + 1000 * idx);
    if (!VF_OK(idx < cur.poses.size(), "extra goal", "goal after all %zu waypoints", cur.poses.size()))
      return;
    VF_CHECK(!outstanding, "goal before the previous one concluded", "waypoint %zu", idx);
    VF_CHECK(same(p.pose, cur.poses[idx].pose), "wrong waypoint", "goal at %f %f is not waypoint %zu of %zu", p.pose.position.x, p.pose.position.y, idx, cur.poses.size());
    VF_CHECK(p.header.frame_id == cur.poses[idx].header.frame_id, "wrong frame", "%s", p.header.frame_id.c_str());
    VF_CHECK(p.header.stamp == core.now, "wrong stamp", "%f at %f", p.header.stamp.toSec(), core.now.toSec());
    idx++;
    outstanding = true;
    concluded = false;
    waiting = 0;
  };
  mb->on_goal = [&](const move_base_msgs::MoveBaseGoal& g)
  {
    VF_CHECK(!tol, "wrong server", "move_base goal while using tolerances");
    goal(g.target_pose);
  };
  mt->on_goal = [&](const planner_cspace_msgs::MoveWithToleranceGoal& g)
  {
    VF_CHECK(tol, "wrong server", "tolerant goal without tolerances");
    VF_CHECK(std::abs(g.goal_tolerance_lin - lin) < 1e-6 && std::abs(g.goal_tolerance_ang - ang) < 1e-6 && std::abs(g.goal_tolerance_ang_finish - fin) < 1e-6, "wrong tolerance", "%f %f %f, expected %f %f %f", g.goal_tolerance_lin, g.goal_tolerance_ang,
             g.goal_tolerance_ang_finish, lin, ang, fin);
    goal(g.target_pose);
  };
  auto onCancel = [&]()
  {
    cancels++;
    if (state == S::ACTIVE || state == S::PENDING)
      if (r.p(0.7))
        state = S::PREEMPTED;
  };
  mb->on_cancel = onCancel;
  mt->on_cancel = onCancel;
  const int steps = r.i(5, 120);
  const double p_new = r.pick({0.01, 0.03, 0.2}), p_done = r.pick({0.1, 0.5, 0.9});
  core.now = ros::Time(r.u(10, 1e6));
  int step = 0, cancels_seen = 0;
  core.on_sleep = [&](const ros::Time&)
  {
    // the node has received what was sent before
    if (has_pending)
    {
      has_pending = false;
      if (outstanding && !concluded)
      {
        VF_CHECK(cancels > cancels_seen, "not cancelled", "a new path left the goal of waypoint %zu outstanding", idx);
        replaced = true;
        vf::count("paths replaced", 1);
      }
      cur = pending;
      idx = 0;
      outstanding = concluded = false;
      waiting = 0;
    }
    else
      VF_CHECK(cancels == cancels_seen, "cancelled", "goal cancelled without a new path");
    cancels_seen = cancels;
    const bool due = (!outstanding || concluded) && idx < cur.poses.size();
    if (due)
      VF_CHECK(++waiting <= 2, "no goal", "waypoint %zu of %zu is not requested", idx, cur.poses.size());
    if (++step > steps)
    {
      core.ok = false;
      return;
    }
    // the server
    if ((state == S::PENDING || state == S::ACTIVE) && outstanding && !concluded)
    {
      if (r.p(p_done))
      {
        const bool ok = r.p(0.7);
        state = ok ? S::SUCCEEDED : S::ABORTED;
        concluded = true;
        outstanding = false;
        vf::count(ok ? "succeeded" : "aborted", 1);
        aborted |= !ok;
        if (idx == cur.poses.size())
        {
          finished = true;
          vf::count("paths finished", 1);
        }
      }
      else if (r.p(0.5))
        state = S::ACTIVE;
    }
    // a new path
    while (r.p(step == 1 ? 0.5 : p_new))
    {
      nav_msgs::Path p;
      p.header.frame_id = "map";
      const int n = r.p(0.1) ? 0 : r.i(1, r.p(0.2) ? 30 : 4);
      for (int i = 0; i < n; i++)
      {
        geometry_msgs::PoseStamped q;
        q.header.frame_id = r.p(0.8) ? "map" : "odom";
        q.header.stamp = ros::Time(r.u(0, 1000));
        if (i && r.p(0.2))
          q.pose = p.poses.back().pose;  // the same waypoint again
        else
        {
          q.pose.position.x = r.u(-100, 100);
          q.pose.position.y = r.u(-100, 100);
          const double t = r.u(-M_PI, M_PI);
          q.pose.orientation.z = std::sin(t / 2);
          q.pose.orientation.w = std::cos(t / 2);
        }
        p.poses.push_back(q);
      }
      core.send("/patrol_nodes", p);
      pending = p;
      has_pending = true;
    }
  };
  node::run();
  core.on_sleep = nullptr;
  if (aborted && replaced && finished)
    vf::nontrivial(h);
}
int main(int argc, char** argv)
{
  return vf::run(argc, argv, body);
}
