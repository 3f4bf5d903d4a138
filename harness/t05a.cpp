// T05: trajectory_recorder node on random robot motions, transform outages and clear requests.
#include "node.h"
#include <geometry_msgs/TransformStamped.h>
#include <nav_msgs/Path.h>
#include <std_srvs/Empty.h>
#include <tf2_ros/buffer.h>
#include <array>
#include <cmath>
static void body(vf::Rng& r, long)
{
  auto& core = node::core();
  core.reset();
  const std::string ns = "/trajectory_recorder";
  std::string robot = "base_link", global = "map";
  if (r.p(0.5))
  {
    core.setParam(ns + "/frame_robot", robot = "robot");
    core.setParam(ns + "/frame_global", global = "odom");
  }
  double interval = 0.3;
  if (r.p(0.8))
    core.setParam(ns + "/dist_interval", interval = r.p(0.1) ? 0 : r.u(0.01, 2));
  const bool store = r.p(0.3);
  if (store)
    core.setParam(ns + "/store_time", true);
  auto& tree = shim::TfTree::get();
  tree.links.clear();

  double x = r.u(-50, 50), y = r.u(-50, 50), z = r.u(-2, 2), yaw = r.u(-3, 3);
  std::vector<std::array<double, 4>> model;  // x, y, z, yaw
  nav_msgs::Path last;
  long got = 0, adds = 0, cycles = 0, cleared = 0, outages = 0;
  core.observe<nav_msgs::Path>("/path", [&](const nav_msgs::Path& p)
  {
    last = p;
    got++;
  });
  bool have = r.p(0.7), judge = false, near_tie = false;
  const int steps = r.i(50, 300);
  int step = 0;
  auto put = [&](const ros::Time& t)
  {
    geometry_msgs::TransformStamped m;
    m.header.stamp = t;
    m.header.frame_id = global;
    m.child_frame_id = robot;
    m.transform.translation.x = x;
    m.transform.translation.y = y;
    m.transform.translation.z = z;
    m.transform.rotation.z = std::sin(yaw / 2);
    m.transform.rotation.w = std::cos(yaw / 2);
    tree.set(m, false);
  };
  const double speed = r.pick({ 0.0, 0.002, 0.01, 0.05, 0.3, 3.0 });
  auto move = [&](const ros::Time& t)
  {
    const double v = r.p(0.05) ? r.u(-2, 2) * interval * 1.5 : r.p(0.2) ? 0 : speed * r.u(-0.3, 1);
    yaw += r.u(-0.3, 0.3);
    x += v * std::cos(yaw);
    y += v * std::sin(yaw);
    z += r.p(0.2) ? r.u(-1, 1) : 0;
    if (have)
      put(t);
  };
  auto finish = [&]()
  {
    if (++step >= steps)
      core.ok = false;
  };
  auto compare = [&](const char* what)
  {
    bool same = last.poses.size() == model.size();
    size_t bad = 0;
    for (size_t i = 0; same && i < model.size(); i++)
    {
      const auto& p = last.poses[i].pose;
      bad = i;
      same = std::fabs(p.position.x - model[i][0]) < 1e-9 && std::fabs(p.position.y - model[i][1]) < 1e-9 && std::fabs(p.position.z - model[i][2]) < 1e-9 &&
             std::fabs(std::fabs(p.orientation.z * std::sin(model[i][3] / 2) + p.orientation.w * std::cos(model[i][3] / 2)) - 1) < 1e-9;
    }
    VF_CHECK(same, "recorded-path", "%s: published path of %zu poses, the robot's way has %zu (pose %zu)", what, last.poses.size(), model.size(), bad);
  };
  core.on_sleep = [&](const ros::Time& t)
  {
    // the cycle that ended has seen the pose set before it
    cycles++;
    vf::evaluated(1);
    if (judge && have)
    {
      bool add = model.empty();
      if (!add)
      {
        const double d = std::hypot(x - model.back()[0], y - model.back()[1]);
        add = d > interval;
        near_tie = std::fabs(d - interval) < 1e-5 * (1 + interval);
      }
      else
        near_tie = false;
      if (near_tie)
        add = got > 0;
      if (add)
      {
        model.push_back({ { x, y, z, yaw } });
        adds++;
        if (VF_OK(got == 1, "not-recorded", "%ld paths published when the robot had moved by more than %g m", got, interval))
        {
          compare("after adding a pose");
          VF_CHECK(last.header.frame_id == global && last.poses.back().header.frame_id == global, "frame", "path in %s", last.header.frame_id.c_str());
          if (store)
            VF_CHECK(last.poses.back().header.stamp == core.now, "stamp", "pose stamped %.3f at %.3f", last.poses.back().header.stamp.toSec(), core.now.toSec());
        }
      }
      else
        VF_CHECK(got == 0, "recorded-early", "path of %zu poses published when the robot had moved by less than %g m", last.poses.size(), interval);
    }
    got = 0;
    judge = true;
    if (r.p(0.02))
    {
      std_srvs::Empty srv;
      VF_CHECK(core.call(ns + "/clear_path", srv), "clear", "clear_path failed");
      model.clear();
      cleared++;
    }
    if (have && r.p(0.02))
    {
      have = false;
      tree.links.clear();
      outages++;
    }
    move(t);
    finish();
  };
  tree.on_wait = [&](const ros::Duration& d)
  {
    core.now += d;
    if (!have && r.p(0.3))
      have = true;
    move(core.now);
    finish();
    if (!core.ok)
      judge = false;
  };
  if (have)
    put(core.now);
  judge = true;
  node::run();
  vf::count("poses recorded", adds);
  vf::count("cycles", cycles);
  vf::count("paths cleared", cleared);
  vf::count("transform outages", outages);
  if (adds > 2)
    vf::nontrivial(vf::hashAdd(vf::hashAdd(vf::hashAdd(0, x), y), adds));
}
int main(int argc, char** argv)
{
  return vf::run(argc, argv, body);
}
