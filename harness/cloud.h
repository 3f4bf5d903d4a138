// PointCloud2 messages of xyz points
#ifndef CLOUD_H
#define CLOUD_H
#include <sensor_msgs/PointCloud2.h>
#include <array>
#include <cstring>
#include <string>
#include <vector>
typedef std::array<float, 3> Pt;
inline sensor_msgs::PointCloud2 cloudMsg(const std::vector<Pt>& p, const std::string& frame, const ros::Time& stamp, int pad = 0)
{
  sensor_msgs::PointCloud2 m;
  m.header.frame_id = frame;
  m.header.stamp = stamp;
  m.height = 1;
  m.width = p.size();
  m.is_bigendian = false;
  m.is_dense = true;
  m.point_step = 12 + 4 * pad;
  m.row_step = m.point_step * p.size();
  const char* names[] = {"x", "y", "z"};
  for (int k = 0; k < 3; k++)
  {
    sensor_msgs::PointField f;
    f.name = names[k];
    f.offset = 4 * (k + pad);
    f.datatype = 7;
    f.count = 1;
    m.fields.push_back(f);
  }
  m.data.resize(m.row_step);
  for (size_t i = 0; i < p.size(); i++)
    std::memcpy(&m.data[i * m.point_step + 4 * pad], p[i].data(), 12);
  return m;
}
#endif
