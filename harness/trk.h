// Common driver of the trajectory_tracker node: robot, transforms, odometry, command and status pairing.
#ifndef TRK_H
#define TRK_H
#include "node.h"
#include <geometry_msgs/Twist.h>
#include <nav_msgs/Odometry.h>
#include <nav_msgs/Path.h>
#include <std_msgs/Float32.h>
#include <tf2_ros/transform_listener.h>
#include <dynamic_reconfigure/server.h>
#include <trajectory_tracker/TrajectoryTrackerConfig.h>
#include <trajectory_tracker_msgs/PathWithVelocity.h>
#include <trajectory_tracker_msgs/TrajectoryTrackerStatus.h>
#include <cmath>
#include <functional>
namespace trk
{
typedef trajectory_tracker::TrajectoryTrackerConfig Config;
typedef trajectory_tracker_msgs::TrajectoryTrackerStatus Status;
struct P
{
  double x, y, yaw, vel;
};
inline double norm(double a)
{
  return std::remainder(a, 2 * M_PI);
}
inline double segDist(const P& a, const P& b, double x, double y)
{
  const double dx = b.x - a.x, dy = b.y - a.y, l2 = dx * dx + dy * dy;
  double t = l2 > 0 ? ((x - a.x) * dx + (y - a.y) * dy) / l2 : 0;
  t = std::max(0.0, std::min(1.0, t));
  return std::hypot(x - a.x - t * dx, y - a.y - t * dy);
}
inline double pathDist(const std::vector<P>& p, double x, double y)
{
  double best = 1e300;
  for (size_t i = 0; i < p.size(); i++)
    best = std::min(best, segDist(p[i ? i - 1 : 0], p[i], x, y));
  return best;
}
inline geometry_msgs::Quaternion quat(double yaw)
{
  geometry_msgs::Quaternion q;
  q.z = std::sin(yaw / 2);
  q.w = std::cos(yaw / 2);
  return q;
}
struct Pose2
{
  double x = 0, y = 0, yaw = 0;
  Pose2 operator*(const Pose2& o) const
  {
    Pose2 r;
    r.x = x + std::cos(yaw) * o.x - std::sin(yaw) * o.y;
    r.y = y + std::sin(yaw) * o.x + std::cos(yaw) * o.y;
    r.yaw = yaw + o.yaw;
    return r;
  }
};
struct Bot
{
  vf::Rng& r;
  Config cfg;
  bool odom_mode = false, predict = true;
  double hz = 50, max_dt = 0.1, odom_timeout = 0.1;
  Pose2 robot;           // in odom
  Pose2 odom_in_path;    // path frame -> odom
  std::string path_frame = "map";
  double v = 0, w = 0;   // what the robot does
  // last pair
  bool has_cmd = false;
  geometry_msgs::Twist cmd;
  Status status;
  long cmds = 0, statuses = 0;
  std::function<void()> on_pair;          // a command and its status
  std::function<void()> on_lone_status;   // a status without a command
  std::shared_ptr<shim::ReconfPort<Config>> port;
  explicit Bot(vf::Rng& rr)
    : r(rr)
  {
  }
  void begin()
  {
    auto& c = node::core();
    c.reset();
    const std::string n = "/trajectory_tracker/";
    c.setParam(n + "hz", hz);
    c.setParam(n + "use_odom", odom_mode);
    c.setParam(n + "predict_odom", predict);
    c.setParam(n + "max_dt", max_dt);
    c.setParam(n + "odom_timeout_sec", odom_timeout);
    c.observe<geometry_msgs::Twist>("/cmd_vel", [this](const geometry_msgs::Twist& m)
                                    {
                                      cmd = m;
                                      has_cmd = true;
                                      cmds++;
                                    });
    c.observe<Status>(n + "status", [this](const Status& m)
                      {
                        status = m;
                        statuses++;
                        const bool h = has_cmd;
                        has_cmd = false;
                        if (h && on_pair)
                          on_pair();
                        if (!h && on_lone_status)
                          on_lone_status();
                      });
  }
  void configure()
  {
    if (!port)
      port = shim::reconfPort<Config>("/trajectory_tracker");
    port->set(cfg);
  }
  void sendTf(const std::string& parent, const std::string& child, const Pose2& p)
  {
    geometry_msgs::TransformStamped t;
    t.header.stamp = node::core().now;
    t.header.frame_id = parent;
    t.child_frame_id = child;
    t.transform.translation.x = p.x;
    t.transform.translation.y = p.y;
    t.transform.rotation = quat(p.yaw);
    shim::TfTree::get().set(t, false);
  }
  void sendPath(const std::vector<P>& p, bool with_vel, const std::string& frame)
  {
    if (with_vel)
    {
      trajectory_tracker_msgs::PathWithVelocity m;
      m.header.frame_id = frame;
      m.header.stamp = node::core().now;
      for (auto& q : p)
      {
        trajectory_tracker_msgs::PoseStampedWithVelocity s;
        s.header = m.header;
        s.pose.position.x = q.x;
        s.pose.position.y = q.y;
        s.pose.orientation = quat(q.yaw);
        s.linear_velocity.x = q.vel;
        m.poses.push_back(s);
      }
      node::core().send<trajectory_tracker_msgs::PathWithVelocity>("/path_velocity", m);
    }
    else
    {
      nav_msgs::Path m;
      m.header.frame_id = frame;
      m.header.stamp = node::core().now;
      for (auto& q : p)
      {
        geometry_msgs::PoseStamped s;
        s.header = m.header;
        s.pose.position.x = q.x;
        s.pose.position.y = q.y;
        s.pose.orientation = quat(q.yaw);
        m.poses.push_back(s);
      }
      node::core().send<nav_msgs::Path>("/path", m);
    }
  }
  nav_msgs::Odometry odom(const ros::Time& stamp)
  {
    nav_msgs::Odometry m;
    m.header.frame_id = "odom";
    m.child_frame_id = "base_link";
    m.header.stamp = stamp;
    m.pose.pose.position.x = robot.x;
    m.pose.pose.position.y = robot.y;
    m.pose.pose.orientation = quat(robot.yaw);
    m.twist.twist.linear.x = v;
    m.twist.twist.angular.z = w;
    return m;
  }
  // exact unicycle motion
  void move(double dt)
  {
    if (std::fabs(w) < 1e-9)
    {
      robot.x += v * dt * std::cos(robot.yaw);
      robot.y += v * dt * std::sin(robot.yaw);
    }
    else
    {
      robot.x += v / w * (std::sin(robot.yaw + w * dt) - std::sin(robot.yaw));
      robot.y -= v / w * (std::cos(robot.yaw + w * dt) - std::cos(robot.yaw));
    }
    robot.yaw += w * dt;
  }
};
}  // namespace trk
#endif
