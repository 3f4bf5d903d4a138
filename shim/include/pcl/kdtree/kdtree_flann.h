// Same results as KdTreeFLANN::radiusSearch (distance below the radius, sorted by distance), by exhaustive scan.
#ifndef SHIM_PCL_KDTREE_H
#define SHIM_PCL_KDTREE_H
#include <algorithm>
#include <pcl/point_types.h>
namespace pcl
{
template <class P>
class KdTreeFLANN
{
public:
  void setInputCloud(const typename PointCloud<P>::ConstPtr& c)
  {
    in_ = c;
  }
  void setInputCloud(const typename PointCloud<P>::Ptr& c)
  {
    in_ = c;
  }
  int radiusSearch(const P& p, double radius, std::vector<int>& idx, std::vector<float>& d2, unsigned max_nn = 0) const
  {
    idx.clear();
    d2.clear();
    std::vector<std::pair<float, int>> r;
    const float lim = static_cast<float>(radius * radius);
    for (size_t i = 0; i < in_->points.size(); i++)
    {
      const P& q = in_->points[i];
      if (!isFinite(q))
        continue;
      const float dx = q.x - p.x, dy = q.y - p.y, dz = q.z - p.z;
      const float d = dx * dx + dy * dy + dz * dz;
      if (d < lim)
        r.push_back(std::make_pair(d, static_cast<int>(i)));
    }
    std::sort(r.begin(), r.end());
    if (max_nn && r.size() > max_nn)
      r.resize(max_nn);
    for (auto& e : r)
    {
      idx.push_back(e.second);
      d2.push_back(e.first);
    }
    return static_cast<int>(r.size());
  }

private:
  typename PointCloud<P>::ConstPtr in_;
};
}  // namespace pcl
#endif
