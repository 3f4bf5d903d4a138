#ifndef SHIM_TF2_SENSOR_MSGS_H
#define SHIM_TF2_SENSOR_MSGS_H
#include <Eigen/Geometry>
#include <geometry_msgs/TransformStamped.h>
#include <sensor_msgs/PointCloud2.h>
#include <sensor_msgs/point_cloud2_iterator.h>
#include <tf2/convert.h>
#include <tf2_geometry_msgs/tf2_geometry_msgs.h>
#include <tf2_ros/buffer_interface.h>
namespace tf2
{
template <>
inline void doTransform(const sensor_msgs::PointCloud2& in, sensor_msgs::PointCloud2& out, const geometry_msgs::TransformStamped& t)
{
  out = in;
  out.header = t.header;
  const Eigen::Transform<float, 3, Eigen::Isometry> tr =
      Eigen::Translation3f(t.transform.translation.x, t.transform.translation.y, t.transform.translation.z) *
      Eigen::Quaternion<float>(t.transform.rotation.w, t.transform.rotation.x, t.transform.rotation.y, t.transform.rotation.z);
  sensor_msgs::PointCloud2ConstIterator<float> xi(in, "x"), yi(in, "y"), zi(in, "z");
  sensor_msgs::PointCloud2Iterator<float> xo(out, "x"), yo(out, "y"), zo(out, "z");
  for (; xi != xi.end(); ++xi, ++yi, ++zi, ++xo, ++yo, ++zo)
  {
    const Eigen::Vector3f p = tr * Eigen::Vector3f(*xi, *yi, *zi);
    *xo = p.x();
    *yo = p.y();
    *zo = p.z();
  }
}
}  // namespace tf2
#endif
