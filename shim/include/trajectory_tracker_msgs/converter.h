#ifndef SHIM_TT_CONVERTER_H
#define SHIM_TT_CONVERTER_H
#include <cmath>
#include <limits>
#include <nav_msgs/Path.h>
#include <trajectory_tracker_msgs/PathWithVelocity.h>
namespace trajectory_tracker_msgs
{
inline PathWithVelocity toPathWithVelocity(const nav_msgs::Path& src, const double vel)
{
  PathWithVelocity d;
  d.header = src.header;
  d.poses.clear();
  for (const auto& p : src.poses)
  {
    PoseStampedWithVelocity v;
    v.header = p.header;
    v.pose = p.pose;
    v.linear_velocity.x = vel;
    d.poses.push_back(v);
  }
  return d;
}
inline PathWithVelocity toPathWithVelocity(const nav_msgs::Path& src, const geometry_msgs::Vector3& vel)
{
  PathWithVelocity d = toPathWithVelocity(src, 0.0);
  for (auto& p : d.poses)
    p.linear_velocity = vel;
  return d;
}
}  // namespace trajectory_tracker_msgs
#endif
