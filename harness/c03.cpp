// C03: the maps of pointcloud2_to_map and laserscan_to_map mark exactly the cells observed by the frames still held.
#include "cloud.h"
#include "node.h"
#include <costmap_cspace/pointcloud_accumulator.h>
#include <nav_msgs/OccupancyGrid.h>
#include <sensor_msgs/LaserScan.h>
#include <tf2_ros/buffer.h>
#include <cmath>
#include <limits>
#ifndef SCAN
#define SCAN 0
#endif
struct V3
{
  double x = 0, y = 0, z = 0;
};
struct Mat
{
  double m[3][3];
  static Mat rpy(double a, double b, double c)
  {
    const double ca = std::cos(a), sa = std::sin(a), cb = std::cos(b), sb = std::sin(b), cc = std::cos(c), sc = std::sin(c);
    return {{{cc * cb, cc * sb * sa - sc * ca, cc * sb * ca + sc * sa}, {sc * cb, sc * sb * sa + cc * ca, sc * sb * ca - cc * sa}, {-sb, cb * sa, cb * ca}}};
  }
  V3 operator*(const V3& v) const
  {
    V3 o;
    o.x = m[0][0] * v.x + m[0][1] * v.y + m[0][2] * v.z;
    o.y = m[1][0] * v.x + m[1][1] * v.y + m[1][2] * v.z;
    o.z = m[2][0] * v.x + m[2][1] * v.y + m[2][2] * v.z;
    return o;
  }
};
static V3 operator+(const V3& a, const V3& b)
{
  V3 o;
  o.x = a.x + b.x;
  o.y = a.y + b.y;
  o.z = a.z + b.z;
  return o;
}
struct Pose
{
  V3 p;
  double roll = 0, pitch = 0, yaw = 0;
  V3 operator*(const V3& v) const
  {
    return Mat::rpy(roll, pitch, yaw) * v + p;
  }
};
static void sendTf(const std::string& parent, const std::string& child, const Pose& q, const ros::Time& t, bool st)
{
  geometry_msgs::TransformStamped m;
  m.header.stamp = t;
  m.header.frame_id = parent;
  m.child_frame_id = child;
  m.transform.translation.x = q.p.x;
  m.transform.translation.y = q.p.y;
  m.transform.translation.z = q.p.z;
  const double cr = std::cos(q.roll / 2), sr = std::sin(q.roll / 2), cp = std::cos(q.pitch / 2), sp = std::sin(q.pitch / 2), cy = std::cos(q.yaw / 2), sy = std::sin(q.yaw / 2);
  m.transform.rotation.w = cr * cp * cy + sr * sp * sy;
  m.transform.rotation.x = sr * cp * cy - cr * sp * sy;
  m.transform.rotation.y = cr * sp * cy + sr * cp * sy;
  m.transform.rotation.z = cr * cp * sy - sr * sp * cy;
  shim::TfTree::get().set(m, st);
}
// the container: frames still to be held are in it, expired ones are not
struct Payload
{
  long id = -1;
};
static void container(vf::Rng& r)
{
  const double hold = r.pick({0.0, 0.1, 0.5, 1.0, 3.0});
  costmap_cspace::PointcloudAccumulator<Payload> acc{ros::Duration(hold)};
  struct F
  {
    long id;
    double t;
    double later;  // newest stamp pushed after this
  };
  std::vector<F> all;
  double t = r.u(1, 1000), newest = -1;
  const int n = r.i(1, 60);
  for (int i = 0; i < n; i++)
  {
    const double old = t;
    t += r.p(0.7) ? r.u(0, 0.4) : r.p(0.5) ? r.u(0, 2 * hold + 0.1) : -r.u(0, hold + 0.1);
    if (r.p(0.1))
      t = old;
    if (t < 1)
      t = 1;
    Payload p;
    p.id = i;
    acc.push(costmap_cspace::PointcloudAccumulator<Payload>::Points(p, ros::Time(t)));
    for (auto& f : all)
      f.later = std::max(f.later, t);
    all.push_back({i, t, -1});
    newest = std::max(newest, t);
    std::vector<int> seen(i + 1, 0);
    for (auto& q : acc)
      if (VF_OK(q.id >= 0 && q.id <= i, "accumulator:corrupt", "a held frame has number %ld", q.id))
        seen[q.id]++;
    for (auto& f : all)
    {
      VF_CHECK(seen[f.id] <= 1, "accumulator:twice", "frame held %d times", seen[f.id]);
      if (f.t + hold > newest + 1e-6)
      {
        VF_CHECK(seen[f.id] == 1, "accumulator:lost", "frame of %.6f with hold %.3f is gone at %.6f", f.t, hold, newest);
        vf::count("frames to hold", 1);
      }
      else if (f.later > f.t + hold + 1e-6)
      {
        VF_CHECK(seen[f.id] == 0, "accumulator:stale", "frame of %.6f with hold %.3f is still held after one of %.6f", f.t, hold, f.later);
        vf::count("expired frames", 1);
      }
    }
    vf::evaluated(1);
  }
  if (r.p(0.3))
  {
    acc.clear();
    VF_CHECK(acc.begin() == acc.end(), "accumulator:clear", "frames are left after clear");
  }
}
struct Frame
{
  std::vector<V3> pts;  // in the global frame
  double stamp;
  double later = -1;
};
struct Buf
{
  double hold;
  std::vector<Frame> f;
  double newest = -1;
  void push(const Frame& x)
  {
    for (auto& g : f)
      g.later = std::max(g.later, x.stamp);
    f.push_back(x);
    newest = std::max(newest, x.stamp);
    // bound the memory of the model
    std::vector<Frame> k;
    for (auto& g : f)
      if (!(g.later > g.stamp + hold + 1e-6))
        k.push_back(g);
    gone.clear();
    for (auto& g : f)
      if (g.later > g.stamp + hold + 1e-6)
        gone.push_back(g);
    f.swap(k);
  }
  std::vector<Frame> gone;  // expired by the latest push
  bool must(const Frame& g) const
  {
    return g.stamp + hold > newest + 1e-6;
  }
};
static void body(vf::Rng& r, long)
{
  auto& core = node::core();
  core.reset();
  container(r);
  const std::string ns = SCAN ? "/laserscan_to_map" : "/pointcloud2_to_map";
  const int width = r.pick({1, 2, 7, 30, 31, 60});
  const double res = r.pick({0.05, 0.1, 0.25, 0.3});
  const double hz = r.pick({0.5, 1.0, 5.0, 20.0});
  const double hold = r.pick({0.0, 0.05, 0.3, 1.0, 2.0});
  double z_min = SCAN ? std::numeric_limits<double>::lowest() : 0.1, z_max = SCAN ? std::numeric_limits<double>::max() : 1.0;
  const bool setw = r.p(0.8);
  if (setw)
    core.setParam(ns + "/width", width);
  const int w = setw ? width : 30;
  core.setParam(ns + "/resolution", res);
  core.setParam(ns + "/hz", hz);
  core.setParam(ns + "/accum_duration", hold);
  if (r.p(0.6))
  {
    z_min = r.u(-1, 0.5);
    z_max = z_min + r.u(0, 1.5);
    core.setParam(ns + "/z_min", z_min);
    core.setParam(ns + "/z_max", z_max);
  }
  const std::string gf = r.p(0.5) ? "map" : "odom", rf = r.p(0.5) ? "base_link" : "robot";
  core.setParam(ns + "/global_frame", gf);
  core.setParam(ns + "/robot_frame", rf);
  const double half = w * res / 2, scale = r.pick({1.0, 10.0, 90.0});
  Pose mount;
  mount.p.x = r.u(-1, 1);
  mount.p.y = r.u(-1, 1);
  mount.p.z = r.u(-0.2, 1);
  mount.yaw = r.u(-M_PI, M_PI);
  if (r.p(0.4))
  {
    mount.roll = r.u(-0.6, 0.6);
    mount.pitch = r.u(-0.6, 0.6);
  }
  struct Sample
  {
    double t;
    Pose p;
  };
  std::vector<Sample> hist;
  Pose robot;
  robot.p.x = r.u(-1, 1) * scale;
  robot.p.y = r.u(-1, 1) * scale;
  robot.p.z = r.p(0.5) ? 0 : r.u(-3, 3);
  robot.yaw = r.u(-M_PI, M_PI);
  const bool jumps = r.p(0.2);
  Buf buf[2];
  buf[0].hold = hold;
  buf[1].hold = 0;
  long maps = 0;
  nav_msgs::OccupancyGrid got;
  core.observe<nav_msgs::OccupancyGrid>("/map_local", [&](const nav_msgs::OccupancyGrid& m)
                                        {
                                          maps++;
                                          got = m;
                                        });
  double newest_any = -1;
  uint64_t h = 0;
  bool marked = false, cleared = false;
  auto poseAt = [&](double t, Pose& out) -> bool
  {
    if (hist.size() < 2 || t > hist.back().t - 1e-6 + 1e-6 || t < hist.front().t)
      return false;
    size_t k = 0;
    while (k + 2 < hist.size() && hist[k + 1].t <= t)
      k++;
    const Sample &a = hist[k], &b = hist[k + 1];
    const double q = (t - a.t) / (b.t - a.t);
    out = a.p;
    out.p.x += q * (b.p.p.x - a.p.p.x);
    out.p.y += q * (b.p.p.y - a.p.p.y);
    out.p.z += q * (b.p.p.z - a.p.p.z);
    out.yaw += q * (b.p.yaw - a.p.yaw);
    return true;
  };
  auto tf = [&]()
  {
    const double t = core.now.toSec();
    hist.push_back({t, robot});
    while (hist.size() > 60)
      hist.erase(hist.begin());
    sendTf(gf, rf, robot, ros::Time(t), false);
  };
  // judge the latest published map
  auto judge = [&]()
  {
    maps = 0;
    vf::evaluated(1);
    vf::count("maps", 1);
    if (!VF_OK(static_cast<int>(got.info.width) == w && static_cast<int>(got.info.height) == w && got.data.size() == static_cast<size_t>(w) * w, "map:size", "%ux%u with %zu cells, expected %d",
               got.info.width, got.info.height, got.data.size(), w))
      return;
    VF_CHECK(std::abs(got.info.resolution - res) < 1e-6, "map:resolution", "%f", got.info.resolution);
    VF_CHECK(got.header.frame_id == gf, "map:frame", "%s", got.header.frame_id.c_str());
    const double ox = got.info.origin.position.x, oy = got.info.origin.position.y;
    const double slack = res * 1.01 + 1e-4;
    if (!VF_OK(std::abs(ox + half - robot.p.x) <= slack && std::abs(oy + half - robot.p.y) <= slack, "map:centre", "centre %f %f for robot %f %f, resolution %f", ox + half, oy + half, robot.p.x,
               robot.p.y, res))
      return;
    const double rr = got.info.resolution;
    std::vector<char> must(w * w, 0), may(w * w, 0);
    auto mark = [&](const V3& p, bool definite)
    {
      if (!std::isfinite(p.x) || !std::isfinite(p.y) || !std::isfinite(p.z))
        return;
      const double e = (2e-5 + (std::abs(p.x) + std::abs(p.y)) * 1e-6);
      const double z = p.z - robot.p.z, ez = 2e-5 + (std::abs(p.x) + std::abs(p.y) + std::abs(p.z)) * 1e-6;
      if (z < z_min - ez || z > z_max + ez)
      {
        vf::count("points out of the height range", 1);
        return;
      }
      if (z < z_min + ez || z > z_max - ez)
        definite = false;
      const double x0 = std::floor((p.x - e - ox) / rr), x1 = std::floor((p.x + e - ox) / rr), y0 = std::floor((p.y - e - oy) / rr), y1 = std::floor((p.y + e - oy) / rr);
      if (x1 < 0 || y1 < 0 || x0 >= w || y0 >= w)
      {
        if (x1 >= -1 && y1 >= -1 && x0 <= w && y0 <= w)
          vf::count("points just outside the area", 1);
        return;
      }
      if (x0 != x1 || y0 != y1)
        definite = false;
      for (double y = y0; y <= y1; y++)
        for (double x = x0; x <= x1; x++)
          if (x >= 0 && y >= 0 && x < w && y < w)
          {
            may[static_cast<int>(y) * w + static_cast<int>(x)] = 1;
            if (definite)
              must[static_cast<int>(y) * w + static_cast<int>(x)] = 1;
          }
    };
    for (auto& b : buf)
      for (auto& f : b.f)
        for (auto& p : f.pts)
          mark(p, b.must(f));
    for (int i = 0; i < w * w; i++)
    {
      const int v = got.data[i];
      h = vf::hashAdd(h, v);
      VF_CHECK(v == 0 || v == 100, "map:value", "value %d", v);
      if (must[i])
      {
        marked = true;
        vf::count("cells to be marked", 1);
        VF_CHECK(v == 100, "map:missing", "cell (%d, %d) of %d holds an observed point but has value %d", i % w, i / w, w, v);
      }
      else if (!may[i])
        VF_CHECK(v == 0, "map:extra", "cell (%d, %d) of %d holds no observed point but has value %d", i % w, i / w, w, v);
    }
    for (auto& b : buf)
      for (auto& f : b.gone)
        if (!f.pts.empty())
        {
          cleared = true;
          vf::count("maps after a frame expired", 1);
        }
  };
  auto motion = [&]()
  {
    if (jumps && r.p(0.05))
    {
      robot.p.x = r.u(-1, 1) * scale;
      robot.p.y = r.u(-1, 1) * scale;
    }
    robot.p.x += r.u(-0.1, 0.1);
    robot.p.y += r.u(-0.1, 0.1);
    robot.p.z += r.p(0.1) ? r.u(-0.1, 0.1) : 0;
    robot.yaw += r.u(-0.2, 0.2);
  };
  // a point, in the sensor frame, interesting for the map around the robot
  auto point = [&](const Pose& base) -> V3
  {
    V3 g;
    const int k = r.i(0, 9);
    if (k == 0)
    {
      g.x = robot.p.x + r.u(-1, 1) * 5 * half;
      g.y = robot.p.y + r.u(-1, 1) * 5 * half;
    }
    else if (k <= 3)
    {
      // around the border
      const double d = r.pick({-1.0, 1.0}) * (half + r.u(-1.6, 1.6) * res), o = r.u(-1, 1) * (half + res);
      const bool f = r.p(0.5);
      g.x = robot.p.x + (f ? d : o);
      g.y = robot.p.y + (f ? o : d);
    }
    else
    {
      g.x = robot.p.x + r.u(-1, 1) * half;
      g.y = robot.p.y + r.u(-1, 1) * half;
    }
    const double a = std::max(z_min, -3.0), b = std::min(z_max, 3.0);
    g.z = robot.p.z + (r.p(0.75) ? r.u(a, b) : r.p(0.5) ? r.u(a - 1, a) : r.u(b, b + 1));
    // into the sensor frame
    V3 q;
    q.x = g.x - base.p.x;
    q.y = g.y - base.p.y;
    q.z = g.z - base.p.z;
    const Mat mb = Mat::rpy(base.roll, base.pitch, base.yaw), mm = Mat::rpy(mount.roll, mount.pitch, mount.yaw);
    auto inv = [](const Mat& m, const V3& v)
    {
      V3 o;
      o.x = m.m[0][0] * v.x + m.m[1][0] * v.y + m.m[2][0] * v.z;
      o.y = m.m[0][1] * v.x + m.m[1][1] * v.y + m.m[2][1] * v.z;
      o.z = m.m[0][2] * v.x + m.m[1][2] * v.y + m.m[2][2] * v.z;
      return o;
    };
    q = inv(mb, q);
    q.x -= mount.p.x;
    q.y -= mount.p.y;
    q.z -= mount.p.z;
    return inv(mm, q);
  };
  node::spinWith([&]()
                 {
    double start = r.u(20, 1e5);
    core.now = ros::Time(start);
    bool mounted = r.p(0.8);
    if (mounted)
      sendTf(rf, "laser", mount, core.now, true);
    tf();
    node::advance(0.05);
    motion();
    tf();
    const int steps = r.i(5, 60);
    for (int s = 0; s < steps && core.ok; s++)
    {
      node::advance(r.p(0.8) ? r.u(0.01, 0.3) : r.u(0.3, 3));
      motion();
      tf();
      node::advance(0.02);
      tf();
      if (!mounted && r.p(0.1))
      {
        mounted = true;
        sendTf(rf, "laser", mount, core.now, true);
      }
      const double now = core.now.toSec();
      double stamp = now - 0.01;
      if (r.p(0.25))
        stamp = now - r.u(0.01, hold + 0.3);
      if (r.p(0.05))
        stamp = now + r.u(0.05, 5);  // transform not available yet
      if (r.p(0.05) && newest_any > 0)
        stamp = newest_any;
      stamp = ros::Time(stamp).toSec();
      Pose base;
      const bool frame_ok = r.p(0.95);
      const bool ok = poseAt(stamp, base) && mounted && frame_ok;
      if (!ok)
        base = robot;
      const bool single = !SCAN && r.p(0.25);
      Frame f;
      f.stamp = stamp;
      const std::string frame = frame_ok ? (r.p(0.9) ? "laser" : "/laser") : "nowhere";
      auto addPoint = [&](const V3& p)
      {
        f.pts.push_back(base * (mount * p));
      };
      const int n = r.p(0.1) ? 0 : r.i(1, 40);
#if SCAN
      sensor_msgs::LaserScan m;
      m.header.frame_id = frame;
      m.header.stamp = ros::Time(stamp);
      m.range_min = r.u(0, 0.5);
      m.range_max = r.u(1, 30);
      m.angle_min = r.u(-M_PI, M_PI);
      m.angle_increment = r.pick({-1.0, 1.0}) * r.u(0.005, 0.3);
      m.angle_max = m.angle_min + (n - 1) * m.angle_increment;
      if (r.p(0.3))
        m.intensities.resize(n, 1.f);
      for (int i = 0; i < n; i++)
      {
        const int k = r.i(0, 11);
        const float d = k == 0 ? std::numeric_limits<float>::quiet_NaN() : k == 1 ? std::numeric_limits<float>::infinity() : k == 2 ? 0.f : k == 3 ? m.range_max + r.u(0.01, 1) : k == 4 ? -r.u(0, 3) : k == 5 ? r.u(0, 30) : half * r.u(0, 1.6) + r.u(0, 1);
        m.ranges.push_back(d);
        if (!(d >= m.range_min && d < m.range_max))
        {
          vf::count("ranges out of bounds", 1);
          continue;
        }
        const double a = static_cast<double>(m.angle_min) + i * static_cast<double>(m.angle_increment);
        V3 p;
        p.x = static_cast<double>(d) * std::cos(a);
        p.y = static_cast<double>(d) * std::sin(a);
        addPoint(p);
      }
      core.send("/scan", m);
#else
      std::vector<Pt> pts;
      for (int i = 0; i < n; i++)
      {
        if (r.p(0.03))
        {
          const float big[] = {std::numeric_limits<float>::quiet_NaN(), std::numeric_limits<float>::infinity(), 1e20f, -1e20f, 3e9f};
          const float v = big[r.i(0, 4)];
          const int c = r.i(0, 2);
          pts.push_back(Pt{{c == 0 ? v : 1.f, c == 1 ? v : 1.f, c == 2 ? v : 1.f}});
          vf::count("not finite or huge points", 1);
          continue;  // outside of every map
        }
        const V3 p = point(base);
        pts.push_back(Pt{{static_cast<float>(p.x), static_cast<float>(p.y), static_cast<float>(p.z)}});
        V3 q;
        q.x = pts.back()[0];
        q.y = pts.back()[1];
        q.z = pts.back()[2];
        addPoint(q);
      }
      core.send(single ? "/cloud_singleshot" : "/cloud", cloudMsg(pts, frame, ros::Time(stamp), r.i(0, 2)));
#endif
      if (ok)
        buf[single].push(f);
      else
        vf::count("frames without transform", 1);
      const bool due = ok && stamp > newest_any + 1 / hz + 1e-6;
      core.drain();
      if (due)
        VF_CHECK(maps == 1, "map:none", "%ld maps for a frame %.3f s after all before it", maps, stamp - newest_any);
      if (!ok)
        VF_CHECK(maps == 0, "map:without-transform", "map published for a frame without transform");
      if (maps)
        judge();
      newest_any = std::max(newest_any, ok ? stamp : newest_any);
    }
    core.ok = false;
  });
  if (marked && cleared)
    vf::nontrivial(h);
}
int main(int argc, char** argv)
{
  return vf::run(argc, argv, body);
}
