#ifndef SHIM_TF2_CONVERT_H
#define SHIM_TF2_CONVERT_H
#include <tf2/LinearMath/Vector3.h>
#include <tf2/exceptions.h>
#include <tf2/transform_datatypes.h>
#include <geometry_msgs/TransformStamped.h>
namespace tf2
{
template <class T>
void doTransform(const T& in, T& out, const geometry_msgs::TransformStamped& t);
template <class T>
const ros::Time& getTimestamp(const T& t)
{
  return t.header.stamp;
}
template <class T>
const std::string& getFrameId(const T& t)
{
  return t.header.frame_id;
}
template <class P>
const ros::Time& getTimestamp(const Stamped<P>& t)
{
  return t.stamp_;
}
template <class P>
const std::string& getFrameId(const Stamped<P>& t)
{
  return t.frame_id_;
}
}  // namespace tf2
#endif
