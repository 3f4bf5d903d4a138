// ASCII PCD and triangulated OBJ readers
#ifndef SHIM_PCL_IO_H
#define SHIM_PCL_IO_H
#include <fstream>
#include <pcl/point_types.h>
#include <sstream>
namespace pcl
{
namespace io
{
template <class P>
int loadPCDFile(const std::string& fn, PointCloud<P>& c)
{
  std::ifstream f(fn);
  if (!f)
    return -1;
  c = PointCloud<P>();
  std::string l;
  std::vector<std::string> fields;
  bool data = false;
  while (std::getline(f, l))
  {
    std::istringstream s(l);
    if (!data)
    {
      std::string k, v;
      s >> k;
      if (k == "FIELDS")
        while (s >> v)
          fields.push_back(v);
      else if (k == "DATA")
      {
        s >> v;
        if (v != "ascii")
          return -1;
        data = true;
      }
      continue;
    }
    P p;
    bool any = false;
    for (const auto& n : fields)
    {
      std::string w;
      if (!(s >> w))
        break;
      const float v = strtof(w.c_str(), nullptr);
      any = true;
      if (n == "x")
        p.x = v;
      if (n == "y")
        p.y = v;
      if (n == "z")
        p.z = v;
    }
    if (any)
      c.push_back(p);
  }
  return data ? 0 : -1;
}
// as vtkOBJReader: the number of points read
inline int loadPolygonFileOBJ(const std::string& fn, PolygonMesh& m)
{
  m = PolygonMesh();
  std::ifstream f(fn);
  if (!f)
    return 0;
  std::string l;
  while (std::getline(f, l))
  {
    std::istringstream s(l);
    std::string k;
    s >> k;
    if (k == "v")
    {
      PointXYZ p;
      s >> p.x >> p.y >> p.z;
      m.cloud.shim_points.push_back(p);
    }
    else if (k == "f")
    {
      Vertices v;
      std::string w;
      while (s >> w)
        v.vertices.push_back(atoi(w.c_str()) - 1);
      m.polygons.push_back(v);
    }
  }
  return static_cast<int>(m.cloud.shim_points.size());
}
}  // namespace io
}  // namespace pcl
#endif
