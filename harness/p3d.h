// Worlds, configurations and messages for the planner_3d node.
#ifndef P3D_H
#define P3D_H
#include "node.h"
#include <actionlib/server/simple_action_server.h>
#include <costmap_cspace_msgs/CSpace3D.h>
#include <costmap_cspace_msgs/CSpace3DUpdate.h>
#include <dynamic_reconfigure/server.h>
#include <execinfo.h>
#include <geometry_msgs/PoseStamped.h>
#include <move_base_msgs/MoveBaseAction.h>
#include <nav_msgs/GetPlan.h>
#include <nav_msgs/OccupancyGrid.h>
#include <nav_msgs/Path.h>
#include <planner_cspace/Planner3DConfig.h>
#include <planner_cspace_msgs/MoveWithToleranceAction.h>
#include <planner_cspace_msgs/PlannerStatus.h>
#include <sensor_msgs/PointCloud.h>
#include <std_msgs/Empty.h>
#include <std_srvs/Empty.h>
#include <tf2/utils.h>
#include <tf2_geometry_msgs/tf2_geometry_msgs.h>
#include <tf2_ros/buffer.h>
#include <trajectory_tracker_msgs/PathWithVelocity.h>
namespace p3d
{
typedef planner_cspace_msgs::PlannerStatus St;
inline geometry_msgs::Quaternion quat(double yaw)
{
  geometry_msgs::Quaternion q;
  q.z = std::sin(yaw / 2);
  q.w = std::cos(yaw / 2);
  return q;
}
inline double wrap(double a)
{
  return std::atan2(std::sin(a), std::cos(a));
}
// ---- maps
struct World
{
  int w = 0, h = 0, a = 0;
  double res = 0, ox = 0, oy = 0;
  std::string frame = "map";
  std::vector<int8_t> d;
  int8_t& at(int x, int y, int t)
  {
    return d[(size_t(t) * h + y) * w + x];
  }
  int at(int x, int y, int t) const
  {
    return d[(size_t(t) * h + y) * w + x];
  }
  bool in(int x, int y) const
  {
    return x >= 0 && y >= 0 && x < w && y < h;
  }
  double px(int x) const
  {
    return (x + 0.5) * res + ox;
  }
  double py(int y) const
  {
    return (y + 0.5) * res + oy;
  }
  int gx(double x) const
  {
    return static_cast<int>(std::floor((x - ox) / res));
  }
  int gy(double y) const
  {
    return static_cast<int>(std::floor((y - oy) / res));
  }
  costmap_cspace_msgs::CSpace3D msg(const ros::Time& t) const
  {
    costmap_cspace_msgs::CSpace3D m;
    m.header.frame_id = frame;
    m.header.stamp = t;
    m.info.linear_resolution = res;
    m.info.angular_resolution = 2 * M_PI / a;
    m.info.width = w;
    m.info.height = h;
    m.info.angle = a;
    m.info.origin.position.x = ox;
    m.info.origin.position.y = oy;
    m.info.origin.orientation.w = 1;
    m.data.assign(d.begin(), d.end());
    return m;
  }
};
// obstacles with a yaw dependent footprint and a cost gradient around them
inline void fill(World& m, vf::Rng& r)
{
  const int n = m.w * m.h;
  std::vector<uint8_t> o(n, 0);
  auto box = [&](int x0, int y0, int x1, int y1, int v)
  {
    for (int y = std::max(0, y0); y <= std::min(m.h - 1, y1); y++)
      for (int x = std::max(0, x0); x <= std::min(m.w - 1, x1); x++)
        o[y * m.w + x] = v;
  };
  switch (r.i(0, 5))
  {
    case 0:
      break;
    case 1:
    {
      const double p = r.pick({0.01, 0.05, 0.3});
      for (auto& v : o)
        v = r.p(p);
      break;
    }
    case 2:  // boxes
      for (int k = r.i(1, 8); k > 0; k--)
      {
        const int x = r.i(0, m.w - 1), y = r.i(0, m.h - 1);
        box(x, y, x + r.i(0, m.w / 3), y + r.i(0, m.h / 3), 1);
      }
      break;
    case 3:  // walls with gaps
      for (int k = r.i(1, 3); k > 0; k--)
      {
        const bool v = r.p(0.5);
        const int c = r.i(0, (v ? m.w : m.h) - 1);
        if (v)
          box(c, 0, c, m.h - 1, 1);
        else
          box(0, c, m.w - 1, c, 1);
        for (int g = r.i(0, 2); g > 0; g--)
        {
          const int q = r.i(0, (v ? m.h : m.w) - 1), l = r.i(0, 8);
          if (v)
            box(c, q, c, q + l, 0);
          else
            box(q, c, q + l, c, 0);
        }
      }
      break;
    case 4:  // ring around a place
    {
      const int x = r.i(0, m.w - 1), y = r.i(0, m.h - 1), s = r.i(3, 10), t = r.i(1, 2);
      box(x - s, y - s, x + s, y + s, 1);
      box(x - s + t, y - s + t, x + s - t, y + s - t, 0);
      break;
    }
    default:  // border
      box(0, 0, m.w - 1, m.h - 1, 1);
      box(r.i(0, 3), r.i(0, 3), m.w - 1 - r.i(0, 3), m.h - 1 - r.i(0, 3), 0);
      break;
  }
  const double foot = r.pick({0.0, 0.0, 1.0, 2.0}), ring = r.pick({0.0, 2.0, 4.0}), side = r.pick({0.3, 1.0});
  m.d.assign(size_t(n) * m.a, 0);
  const int R = std::ceil(foot + ring);
  for (int t = 0; t < m.a; t++)
  {
    const double c = std::cos(2 * M_PI * t / m.a), s = std::sin(2 * M_PI * t / m.a);
    for (int y = 0; y < m.h; y++)
      for (int x = 0; x < m.w; x++)
      {
        if (!o[y * m.w + x])
          continue;
        for (int j = -R; j <= R; j++)
          for (int i = -R; i <= R; i++)
          {
            if (!m.in(x + i, y + j))
              continue;
            const double u = c * i + s * j, v = -s * i + c * j, e = std::max(std::abs(u) - foot, std::abs(v) - foot * side);
            int q = 0;
            if (e <= 0 || (!i && !j))
              q = 100;
            else if (e < ring)
              q = 99 - int(98 * e / ring);
            int8_t& z = m.at(x + i, y + j, t);
            z = std::max<int>(z, q);
          }
      }
  }
  if (r.p(0.15))
  {
    const double p = r.pick({0.02, 0.3});
    for (auto& v : m.d)
      if (r.p(p))
        v = r.pick({-1, 0, 30, 50, 99, 100});
  }
  if (r.p(0.1))
  {  // unknown region for every yaw
    const int x0 = r.i(0, m.w - 1), y0 = r.i(0, m.h - 1);
    for (int t = 0; t < m.a; t++)
      for (int y = y0; y < std::min(m.h, y0 + 6); y++)
        for (int x = x0; x < std::min(m.w, x0 + 6); x++)
          m.at(x, y, t) = -1;
  }
}
inline costmap_cspace_msgs::CSpace3DUpdate update(const World& m, vf::Rng& r, const ros::Time& t, bool inside, int cx, int cy)
{
  costmap_cspace_msgs::CSpace3DUpdate u;
  u.header.frame_id = m.frame;
  u.header.stamp = t;
  World l;
  l.a = m.a;
  l.w = r.p(0.1) ? r.i(1, 3) : r.i(1, std::max(1, std::min(m.w, 30)));
  l.h = r.p(0.1) ? r.i(1, 3) : r.i(1, std::max(1, std::min(m.h, 30)));
  int x = r.p(0.7) ? cx - l.w / 2 : r.i(0, m.w - 1), y = r.p(0.7) ? cy - l.h / 2 : r.i(0, m.h - 1);
  if (inside)
  {
    x = std::max(0, std::min(m.w - l.w, x));
    y = std::max(0, std::min(m.h - l.h, y));
  }
  else
  {
    if (r.p(0.1))
      l.w = 0;
    if (r.p(0.1))
      l.h = 0;
    if (r.p(0.1))
      l.a = r.i(0, m.a + 1);
    if (r.p(0.1))
      x = m.w - r.i(0, 3);
    if (r.p(0.1))
      y = -r.i(0, 3);
    if (r.p(0.1))
      u.yaw = r.i(0, m.a);
  }
  u.x = x;
  u.y = y;
  u.width = l.w;
  u.height = l.h;
  u.angle = l.a;
  if (l.w && l.h && l.a)
    fill(l, r);
  if (r.p(0.2))
    std::fill(l.d.begin(), l.d.end(), -1);
  u.data.assign(l.d.begin(), l.d.end());
  u.data.resize(size_t(l.w) * l.h * l.a);
  return u;
}
// ---- robot
inline void setPose(double x, double y, double yaw, const std::string& parent = "map")
{
  geometry_msgs::TransformStamped t;
  t.header.frame_id = parent;
  t.header.stamp = node::core().now;
  t.child_frame_id = "base_link";
  t.transform.translation.x = x;
  t.transform.translation.y = y;
  t.transform.rotation = quat(yaw);
  shim::TfTree::get().set(t, false);
}
// ---- grid access observation
struct Access
{
  long n = 0;
  long bad = 0;
  bool armed = true;
};
inline Access& access()
{
  static Access a;
  return a;
}
}  // namespace p3d
extern "C" void neonavigation_vf_grid_access(const int* pos, const int* size, int dim)
{
  auto& a = p3d::access();
  bool ok = true;
  for (int i = 0; i < dim; i++)
    ok &= pos[i] >= 0 && pos[i] < size[i];
  if (ok)
    return;
  __atomic_fetch_add(&a.bad, 1, __ATOMIC_RELAXED);
  if (a.armed)
  {
    a.armed = false;
    std::string s;
    for (int i = 0; i < dim; i++)
      s += vf::fmt(" %d of %d%s", pos[i], size[i], i + 1 < dim ? "," : "");
    if (getenv("VF_TRACE"))
    {
      void* b[20];
      backtrace_symbols_fd(b, backtrace(b, 20), 2);
    }
    vf::violation("access outside the grid map", "cell" + s);
  }
}
#endif
