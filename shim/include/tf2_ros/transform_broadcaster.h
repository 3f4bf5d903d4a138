#ifndef SHIM_TF2_BROADCASTER_H
#define SHIM_TF2_BROADCASTER_H
#include <tf2_ros/buffer.h>
namespace tf2_ros
{
// what is broadcast enters the tree and is seen by observers of /tf or /tf_static (one TransformStamped each)
class TransformBroadcaster
{
public:
  void sendTransform(const geometry_msgs::TransformStamped& t)
  {
    shim::TfTree::get().set(t, false);
    shim::Core::get().send<geometry_msgs::TransformStamped>("/tf", t);
  }
  void sendTransform(const std::vector<geometry_msgs::TransformStamped>& v)
  {
    for (auto& t : v)
      sendTransform(t);
  }
};
class StaticTransformBroadcaster
{
public:
  void sendTransform(const geometry_msgs::TransformStamped& t)
  {
    shim::TfTree::get().set(t, true);
    shim::Core::get().send<geometry_msgs::TransformStamped>("/tf_static", t);
  }
  void sendTransform(const std::vector<geometry_msgs::TransformStamped>& v)
  {
    for (auto& t : v)
      sendTransform(t);
  }
};
}  // namespace tf2_ros
#endif
