#ifndef SHIM_PCL_CONV_H
#define SHIM_PCL_CONV_H
#include <cstring>
#include <pcl/point_types.h>
#include <ros/ros.h>
#include <sensor_msgs/PointCloud2.h>
namespace pcl_conversions
{
inline ros::Time fromPCL(const uint64_t& us)
{
  ros::Time t;
  t.fromNSec(us * 1000ull);
  return t;
}
inline void fromPCL(const uint64_t& us, ros::Time& t)
{
  t.fromNSec(us * 1000ull);
}
inline uint64_t toPCL(const ros::Time& t)
{
  return t.toNSec() / 1000ull;
}
inline std_msgs::Header fromPCL(const pcl::PCLHeader& h)
{
  std_msgs::Header r;
  r.stamp = fromPCL(h.stamp);
  r.seq = h.seq;
  r.frame_id = h.frame_id;
  return r;
}
}  // namespace pcl_conversions
namespace pcl
{
template <class P>
void fromROSMsg(const sensor_msgs::PointCloud2& m, PointCloud<P>& c)
{
  c = PointCloud<P>();
  c.header.seq = m.header.seq;
  c.header.stamp = pcl_conversions::toPCL(m.header.stamp);
  c.header.frame_id = m.header.frame_id;
  c.is_dense = m.is_dense;
  int off[3] = {-1, -1, -1};
  for (const auto& f : m.fields)
    for (int k = 0; k < 3; k++)
      if (f.name == std::string(1, "xyz"[k]) && f.datatype == 7)
        off[k] = f.offset;
  c.points.resize(static_cast<size_t>(m.width) * m.height);
  for (size_t r = 0; r < m.height; r++)
    for (size_t i = 0; i < m.width; i++)
    {
      const size_t base = r * m.row_step + i * m.point_step;
      float v[3] = {0, 0, 0};
      for (int k = 0; k < 3; k++)
        if (off[k] >= 0 && base + off[k] + 4 <= m.data.size())
          std::memcpy(&v[k], &m.data[base + off[k]], 4);
      c.points[r * m.width + i] = P(v[0], v[1], v[2]);
    }
  c.width = m.width;
  c.height = m.height;
}
template <class P>
void toROSMsg(const PointCloud<P>& c, sensor_msgs::PointCloud2& m)
{
  m = sensor_msgs::PointCloud2();
  m.header = pcl_conversions::fromPCL(c.header);
  if (c.width == 0 && c.height == 0)
  {
    m.width = c.points.size();
    m.height = 1;
  }
  else
  {
    m.width = c.width;
    m.height = c.height;
  }
  const char* const n[] = {"x", "y", "z"};
  for (int k = 0; k < 3; k++)
  {
    sensor_msgs::PointField f;
    f.name = n[k];
    f.offset = 4 * k;
    f.datatype = 7;
    f.count = 1;
    m.fields.push_back(f);
  }
  m.point_step = 16;
  m.row_step = m.point_step * m.width;
  m.is_dense = c.is_dense;
  m.data.resize(c.points.size() * 16);
  for (size_t i = 0; i < c.points.size(); i++)
    std::memcpy(&m.data[16 * i], c.points[i].data, 16);
}
}  // namespace pcl
#endif
