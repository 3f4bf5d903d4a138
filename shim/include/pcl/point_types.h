#ifndef SHIM_PCL_POINT_TYPES_H
#define SHIM_PCL_POINT_TYPES_H
#include <Eigen/Core>
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>
#include <cmath>
#include <cstdint>
#include <memory>
#include <ostream>
#include <string>
#include <vector>
namespace pcl
{
struct alignas(16) PointXYZ
{
  union
  {
    float data[4];
    struct
    {
      float x, y, z;
    };
  };
  PointXYZ()
    : PointXYZ(0, 0, 0)
  {
  }
  PointXYZ(float a, float b, float c)
  {
    x = a;
    y = b;
    z = c;
    data[3] = 1;
  }
  Eigen::Vector3f getVector3fMap() const
  {
    return Eigen::Vector3f(x, y, z);
  }
};
struct PCLHeader
{
  uint32_t seq = 0;
  uint64_t stamp = 0;  // microseconds
  std::string frame_id;
};
struct PCLPointCloud2
{
  PCLHeader header;
  std::vector<PointXYZ> shim_points;
};
struct Vertices
{
  std::vector<uint32_t> vertices;
};
struct PolygonMesh
{
  typedef boost::shared_ptr<PolygonMesh> Ptr;
  PCLHeader header;
  PCLPointCloud2 cloud;
  std::vector<Vertices> polygons;
};
template <class P>
class PointCloud
{
public:
  typedef boost::shared_ptr<PointCloud<P>> Ptr;
  typedef boost::shared_ptr<const PointCloud<P>> ConstPtr;
  PCLHeader header;
  std::vector<P> points;
  uint32_t width = 0, height = 0;
  bool is_dense = true;
  typedef typename std::vector<P>::iterator iterator;
  typedef typename std::vector<P>::const_iterator const_iterator;
  iterator begin()
  {
    return points.begin();
  }
  iterator end()
  {
    return points.end();
  }
  const_iterator begin() const
  {
    return points.begin();
  }
  const_iterator end() const
  {
    return points.end();
  }
  size_t size() const
  {
    return points.size();
  }
  bool empty() const
  {
    return points.empty();
  }
  P& operator[](size_t i)
  {
    return points[i];
  }
  const P& operator[](size_t i) const
  {
    return points[i];
  }
  P& at(size_t i)
  {
    return points.at(i);
  }
  const P& at(size_t i) const
  {
    return points.at(i);
  }
  void push_back(const P& p)
  {
    points.push_back(p);
    width = points.size();
    height = 1;
  }
  void clear()
  {
    points.clear();
    width = height = 0;
  }
  void resize(size_t n)
  {
    points.resize(n);
    width = n;
    height = 1;
  }
  void reserve(size_t n)
  {
    points.reserve(n);
  }
  iterator erase(iterator a)
  {
    iterator r = points.erase(a);
    width = points.size();
    height = 1;
    return r;
  }
  iterator erase(iterator a, iterator b)
  {
    iterator r = points.erase(a, b);
    width = points.size();
    height = 1;
    return r;
  }
  PointCloud& operator+=(const PointCloud& o)
  {
    if (o.header.stamp > header.stamp)
      header.stamp = o.header.stamp;
    points.insert(points.end(), o.points.begin(), o.points.end());
    width = points.size();
    height = 1;
    is_dense = is_dense && o.is_dense;
    return *this;
  }
  PointCloud operator+(const PointCloud& o) const
  {
    PointCloud r(*this);
    r += o;
    return r;
  }
};
template <class P>
void fromPCLPointCloud2(const PCLPointCloud2& in, PointCloud<P>& out)
{
  out = PointCloud<P>();
  out.header = in.header;
  for (const auto& p : in.shim_points)
    out.push_back(p);
}
inline bool isFinite(const PointXYZ& p)
{
  return std::isfinite(p.x) && std::isfinite(p.y) && std::isfinite(p.z);
}
}  // namespace pcl
#endif
