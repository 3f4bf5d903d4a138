// Centroid per voxel, voxels in index order, as pcl::VoxelGrid.
#ifndef SHIM_PCL_VOXEL_H
#define SHIM_PCL_VOXEL_H
#include <algorithm>
#include <map>
#include <pcl/point_types.h>
namespace pcl
{
template <class P>
class VoxelGrid
{
public:
  void setInputCloud(const typename PointCloud<P>::ConstPtr& c)
  {
    in_ = c;
  }
  void setInputCloud(const typename PointCloud<P>::Ptr& c)
  {
    in_ = c;
  }
  void setLeafSize(float x, float y, float z)
  {
    l_[0] = x;
    l_[1] = y;
    l_[2] = z;
  }
  void filter(PointCloud<P>& out)
  {
    PointCloud<P> r;
    r.header = in_->header;
    r.is_dense = true;
    r.height = 1;
    bool any = false;
    float mn[3], mx[3];
    for (const auto& p : in_->points)
    {
      if (!isFinite(p))
        continue;
      const float v[3] = {p.x, p.y, p.z};
      for (int k = 0; k < 3; k++)
      {
        mn[k] = any ? std::min(mn[k], v[k]) : v[k];
        mx[k] = any ? std::max(mx[k], v[k]) : v[k];
      }
      any = true;
    }
    if (any)
    {
      int64_t d[3], b[3];
      for (int k = 0; k < 3; k++)
        d[k] = static_cast<int64_t>((mx[k] - mn[k]) * (1 / l_[k])) + 1;
      if (static_cast<double>(d[0]) * d[1] * d[2] > 2147483647.0)
      {
        // as PCL: leaf size too small, data returned as it is
        out = *in_;
        return;
      }
      for (int k = 0; k < 3; k++)
        b[k] = static_cast<int64_t>(std::floor(mn[k] * (1 / l_[k])));
      for (int k = 0; k < 3; k++)
        d[k] = static_cast<int64_t>(std::floor(mx[k] * (1 / l_[k]))) - b[k] + 1;
      struct Acc
      {
        Eigen::Vector3f s = Eigen::Vector3f::Zero();
        int n = 0;
      };
      std::map<int64_t, Acc> m;
      for (const auto& p : in_->points)
      {
        if (!isFinite(p))
          continue;
        const float v[3] = {p.x, p.y, p.z};
        int64_t i[3];
        for (int k = 0; k < 3; k++)
          i[k] = static_cast<int64_t>(std::floor(v[k] * (1 / l_[k]))) - b[k];
        Acc& a = m[i[0] + d[0] * (i[1] + d[1] * i[2])];
        a.s += Eigen::Vector3f(p.x, p.y, p.z);
        a.n++;
      }
      for (const auto& e : m)
      {
        const Eigen::Vector3f c = e.second.s / static_cast<float>(e.second.n);
        r.points.push_back(P(c.x(), c.y(), c.z()));
      }
    }
    r.width = r.points.size();
    out = r;
  }

private:
  typename PointCloud<P>::ConstPtr in_;
  float l_[3] = {1, 1, 1};
};
}  // namespace pcl
#endif
