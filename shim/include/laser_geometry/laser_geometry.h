#ifndef SHIM_LASER_GEOMETRY_H
#define SHIM_LASER_GEOMETRY_H
#include <cmath>
#include <sensor_msgs/LaserScan.h>
#include <sensor_msgs/PointCloud2.h>
#include <sensor_msgs/point_cloud2_iterator.h>
namespace laser_geometry
{
class LaserProjection
{
public:
  void projectLaser(const sensor_msgs::LaserScan& s, sensor_msgs::PointCloud2& c, double range_cutoff = -1.0, int = 0)
  {
    c = sensor_msgs::PointCloud2();
    c.header = s.header;
    std::vector<std::pair<size_t, double>> ok;
    const double cut = range_cutoff < 0 ? s.range_max : range_cutoff;
    for (size_t i = 0; i < s.ranges.size(); ++i)
      if (s.ranges[i] < cut && s.ranges[i] >= s.range_min)
        ok.push_back(std::make_pair(i, static_cast<double>(s.ranges[i])));
    c.height = 1;
    c.width = ok.size();
    const char* const n[] = {"x", "y", "z", "intensity", "index"};
    for (int k = 0; k < 5; k++)
    {
      if (k == 3 && s.intensities.empty())
        continue;
      sensor_msgs::PointField f;
      f.name = n[k];
      f.offset = c.point_step;
      f.count = 1;
      f.datatype = k == 4 ? 5 : 7;
      c.fields.push_back(f);
      c.point_step += 4;
    }
    c.row_step = c.point_step * c.width;
    c.data.resize(c.row_step);
    c.is_dense = false;
    for (size_t k = 0; k < ok.size(); k++)
    {
      const double a = s.angle_min + static_cast<double>(ok[k].first) * s.angle_increment;
      float* p = reinterpret_cast<float*>(&c.data[k * c.point_step]);
      p[0] = ok[k].second * std::cos(a);
      p[1] = ok[k].second * std::sin(a);
      p[2] = 0;
    }
  }
};
}  // namespace laser_geometry
#endif
