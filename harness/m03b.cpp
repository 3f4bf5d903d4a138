// M03: obj_to_pointcloud node on random meshes and clouds read from files.
#include "node.h"
#include <sensor_msgs/PointCloud2.h>
#include <pcl/point_types.h>
#include <pcl_conversions/pcl_conversions.h>
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <unistd.h>
#include <cmath>
typedef Eigen::Vector3d V;
struct Tri
{
  V a, b, c;
  double area() const
  {
    return (b - a).cross(c - a).norm() / 2;
  }
};
// distance from p to the triangle and barycentric coordinates of the nearest point in its plane
static double distTri(const Tri& t, const V& p, double& u, double& v)
{
  const V e0 = t.b - t.a, e1 = t.c - t.a, d = p - t.a;
  const double a = e0.dot(e0), b = e0.dot(e1), c = e1.dot(e1), x = e0.dot(d), y = e1.dot(d), det = a * c - b * b;
  auto seg = [&p](const V& s, const V& e)
  {
    const double l = (e - s).squaredNorm();
    const double k = l > 0 ? std::min(1.0, std::max(0.0, (p - s).dot(e - s) / l)) : 0;
    return (s + k * (e - s) - p).norm();
  };
  double best = std::min(seg(t.a, t.b), std::min(seg(t.b, t.c), seg(t.c, t.a)));
  u = v = -1;
  if (det > 1e-12 * a * c)
  {
    u = (c * x - b * y) / det;
    v = (a * y - b * x) / det;
    if (u >= 0 && v >= 0 && u + v <= 1)
      best = std::min(best, (t.a + u * e0 + v * e1 - p).norm());
  }
  return best;
}
static void body(vf::Rng& r, long)
{
  auto& core = node::core();
  core.reset();
  const std::string ns = "/obj_to_pointcloud";
  char dir[] = "/tmp/vf_m03_XXXXXX";
  if (!mkdtemp(dir))
    exit(3);
  const double scale = r.p(0.3) ? 1 : r.u(0.01, 3);
  const V off = r.p(0.3) ? V(0, 0, 0) : V(r.u(-5, 5), r.u(-5, 5), r.u(-5, 5));
  const bool raw = r.p(0.5);  // a leaf too small for the filter: the points as they were drawn
  double leaf = raw ? 1e-6 : r.u(0.02, 0.5), ppm = r.u(20, 600);
  std::vector<Tri> tris;
  std::vector<V> single;
  std::vector<std::string> files;
  const bool many = raw && r.p(0.15);  // many triangles of a point or so each
  const int nfiles = many ? 1 : r.i(1, 3);
  double total = 0;
  V mn(1e9, 1e9, 1e9), mx(-1e9, -1e9, -1e9);
  for (int f = 0; f < nfiles; f++)
  {
    const bool pcd = !many && r.p(0.3);
    const std::string fn = std::string(dir) + "/" + r.pick({ "a", "b.c", "model" }) + std::to_string(f) + (pcd ? ".pcd" : ".obj");
    FILE* o = fopen(fn.c_str(), "w");
    if (!o)
      exit(3);
    std::vector<V> vs;
    const int n = many ? 200 : r.i(pcd ? 1 : 3, 12);
    const double spread = r.u(0.3, 3) / scale;
    const V c(r.u(-3, 3), r.u(-3, 3), r.u(-3, 3));
    for (int i = 0; i < n; i++)
    {
      // decimal numbers the file holds exactly
      V v;
      for (int k = 0; k < 3; k++)
        v[k] = std::round((c[k] + r.u(-spread, spread)) * 1000) / 1000;
      vs.push_back(v);
    }
    if (pcd)
    {
      fprintf(o, "# .PCD v.7\nVERSION .7\nFIELDS x y z\nSIZE 4 4 4\nTYPE F F F\nCOUNT 1 1 1\nWIDTH %d\nHEIGHT 1\nVIEWPOINT 0 0 0 1 0 0 0\nPOINTS %d\nDATA ascii\n", n, n);
      for (auto& v : vs)
      {
        fprintf(o, "%.3f %.3f %.3f\n", v[0], v[1], v[2]);
        single.push_back(v * scale + off);
        mn = mn.cwiseMin(single.back());
        mx = mx.cwiseMax(single.back());
      }
    }
    else
    {
      for (auto& v : vs)
        fprintf(o, "v %.3f %.3f %.3f\n", v[0], v[1], v[2]);
      const int m = many ? 400 : r.i(1, 8);
      for (int i = 0; i < m; i++)
      {
        int a = r.i(0, n - 1), b = r.i(0, n - 1), d = r.i(0, n - 1);
        if (a == b || b == d || a == d)
          continue;
        fprintf(o, "f %d %d %d\n", a + 1, b + 1, d + 1);
        Tri t{ vs[a] * scale + off, vs[b] * scale + off, vs[d] * scale + off };
        total += t.area();
        tris.push_back(t);
      }
    }
    fclose(o);
    files.push_back(fn);
  }
  if (total * ppm > 4000)
    ppm = 4000 / total;
  if (many)
    ppm = r.u(0.3, 2) * tris.size() / total;
  std::string list;
  for (auto& f : files)
    list += (list.empty() ? "" : ",") + f;
  core.setParam(ns + "/objs", list);
  core.setParam(ns + "/points_per_meter_sq", ppm);
  core.setParam(ns + "/downsample_grid", leaf);
  core.setParam(ns + "/scale", scale);
  core.setParam(ns + "/offset_x", off[0]);
  core.setParam(ns + "/offset_y", off[1]);
  core.setParam(ns + "/offset_z", off[2]);
  std::string frame = "map";
  if (r.p(0.5))
    core.setParam(ns + "/frame_id", frame = "mesh");
  std::vector<sensor_msgs::PointCloud2> got;
  core.observe<sensor_msgs::PointCloud2>("/mapcloud", [&](const sensor_msgs::PointCloud2& m) { got.push_back(m); });
  node::spinWith([] {});
  for (auto& f : files)
    unlink(f.c_str());
  rmdir(dir);
  vf::evaluated(1);
  vf::count("clouds", 1);
  if (!VF_OK(got.size() == 1, "one-cloud", "%zu clouds published", got.size()))
    return;
  VF_CHECK(got[0].header.frame_id == frame, "frame", "cloud in %s instead of %s", got[0].header.frame_id.c_str(), frame.c_str());
  pcl::PointCloud<pcl::PointXYZ> pc;
  pcl::fromROSMsg(got[0], pc);
  vf::count("points", pc.points.size());
  if (!raw)
  {
    // every point is within one cell of the surface (or of a point given)
    for (auto& q : pc.points)
    {
      const V p(q.x, q.y, q.z);
      double best = 1e9, u, v;
      for (auto& t : tris)
        best = std::min(best, distTri(t, p, u, v));
      for (auto& s : single)
        best = std::min(best, (s - p).norm());
      if (!VF_OK(best <= leaf * 1.7321 + 1e-3, "off-surface", "point (%g, %g, %g) is %g m off every triangle, cells are %g m", p[0], p[1], p[2], best, leaf))
        return;
    }
    // every given point is represented within its cell
    for (auto& s : single)
    {
      double best = 1e9;
      for (auto& q : pc.points)
        best = std::min(best, (V(q.x, q.y, q.z) - s).norm());
      VF_CHECK(best <= leaf * 1.7321 + 1e-3, "lost-point", "point (%g, %g, %g) of the file is %g m off the cloud, cells are %g m", s[0], s[1], s[2], best, leaf);
    }
    // wide triangles are covered all over: no big hole around the centre of a quarter with dozens of points
    for (auto& t : tris)
      if (t.area() / 4 * ppm > 60)
      {
        const V ab = (t.a + t.b) / 2, bc = (t.b + t.c) / 2, ca = (t.c + t.a) / 2;
        for (auto& s : { Tri{ t.a, ab, ca }, Tri{ ab, t.b, bc }, Tri{ ca, bc, t.c }, Tri{ ab, bc, ca } })
        {
          bool any = false;
          double u, v;
          for (auto& q : pc.points)
            if ((any = distTri(s, V(q.x, q.y, q.z), u, v) <= leaf * 1.7321 + 1e-3))
              break;
          VF_CHECK(any, "uncovered", "a quarter of a triangle of %g m^2 has no point at %g points per square metre", t.area(), ppm);
        }
        vf::count("covered triangles", 1);
      }
    vf::nontrivial(vf::hashAdd(vf::hashAdd(total, ppm), leaf));
    return;
  }
  // points as drawn
  long given = 0;
  size_t lo = single.size(), hi = single.size();
  std::vector<long> on(tris.size(), 0);
  std::vector<std::array<long, 4>> quarter(tris.size());
  for (auto& q : quarter)
    q.fill(0);
  std::vector<int> shared(tris.size(), 0);
  double expect = single.size(), var = 0;
  for (auto& t : tris)
  {
    const double nf = t.area() * ppm, frac = nf - std::floor(nf);
    expect += nf;
    var += frac * (1 - frac);
    lo += static_cast<size_t>(std::floor(nf * (1 - 1e-4)));
    hi += static_cast<size_t>(std::ceil(nf * (1 + 1e-4)));
  }
  VF_CHECK(pc.points.size() >= lo && pc.points.size() <= hi, "number", "%zu points for %g m^2 at %g points per square metre and %zu given points", pc.points.size(), total, ppm, single.size());
  VF_CHECK(std::fabs(pc.points.size() - expect) <= 9 * std::sqrt(var) + 1 + expect * 1e-4, "mean-number", "%zu points where the areas of %zu triangles prescribe %g", pc.points.size(), tris.size(), expect);
  if (many)
    vf::count("meshes of small triangles", 1);
  std::vector<char> used(single.size(), 0);
  for (auto& q : pc.points)
  {
    const V p(q.x, q.y, q.z);
    int hit = -1, hits = 0;
    std::vector<int> cand;
    double best = 1e9, hu = 0, hv = 0;
    for (size_t i = 0; i < tris.size(); i++)
    {
      double u, v;
      const double d = distTri(tris[i], p, u, v);
      if (d < 1e-3)
      {
        hits++;
        cand.push_back(i);
        hit = i;
        hu = u;
        hv = v;
      }
      best = std::min(best, d);
    }
    for (size_t i = 0; i < single.size(); i++)
      if ((single[i] - p).norm() < 1e-3)
      {
        used[i] = 1;
        best = 0;
        given++;
        hits += 100;
      }
    if (!VF_OK(best <= 1e-3, "off-surface", "point (%g, %g, %g) is %g m off every triangle", p[0], p[1], p[2], best))
      return;
    if (hits == 1)
    {
      on[hit]++;
      if (hu + hv <= 0.5)
        quarter[hit][0]++;
      else if (hu >= 0.5)
        quarter[hit][1]++;
      else if (hv >= 0.5)
        quarter[hit][2]++;
      else
        quarter[hit][3]++;
    }
    else
      for (int i : cand)
        shared[i]++;
  }
  for (size_t i = 0; i < single.size(); i++)
    VF_CHECK(used[i], "lost-point", "point (%g, %g, %g) of the file is not in the cloud", single[i][0], single[i][1], single[i][2]);
  {
    for (size_t i = 0; i < tris.size(); i++)
    {
      const double nf = tris[i].area() * ppm;
      if (nf > 1)
        vf::count("triangles judged", 1);
      VF_CHECK(on[i] + shared[i] >= std::floor(nf * (1 - 1e-4)) && on[i] <= std::ceil(nf * (1 + 1e-4)), "density", "%ld (and %d shared) points on a triangle of %g m^2 at %g points per square metre", on[i], shared[i], tris[i].area(), ppm);
      // uniform over the triangle: each quarter draws n/4 +- 9 sigma
      const double n = on[i], s = std::sqrt(n * 3 / 16);
      if (n >= 100 && shared[i] == 0)
      {
        vf::count("triangles judged for uniformity", 1);
        for (long q : quarter[i])
          VF_CHECK(std::fabs(q - n / 4) <= 9 * s, "uneven", "%ld of %g points in one quarter of a triangle", q, n);
      }
    }
    if (!tris.empty())
      vf::nontrivial(vf::hashAdd(vf::hashAdd(total, ppm), tris.size()));
  }
}
int main(int argc, char** argv)
{
  return vf::run(argc, argv, body);
}
