// C04: the local map of largemap_to_map copies the large map, hides only what the options ask for, and hides all of it.
#include "node.h"
#include <nav_msgs/OccupancyGrid.h>
#include <tf2_ros/buffer.h>
#include <cmath>
static void body(vf::Rng& r, long)
{
  auto& core = node::core();
  core.reset();
  const std::string ns = "/largemap_to_map";
  const int w0 = r.pick({1, 2, 9, 16, 25, 30, 30, 40});
  const bool setw = r.p(0.9);
  const int w = setw ? w0 : 30;
  if (setw)
    core.setParam(ns + "/width", w);
  const double hz = r.pick({1.0, 0.5, 10.0});
  core.setParam(ns + "/hz", hz);
  const bool round_map = r.p(0.4), occlusion = r.p(0.5), ring = r.p(0.25);
  if (round_map || r.p(0.5))
    core.setParam(ns + "/round_local_map", round_map);
  if (occlusion || r.p(0.5))
    core.setParam(ns + "/simulate_occlusion", occlusion);
  if (ring || r.p(0.5))
    core.setParam(ns + "/simulate_surrounded", ring);
  const std::string rf = r.p(0.5) ? "base_link" : "robot";
  core.setParam(ns + "/robot_frame", rf);
  const std::string gf = r.p(0.5) ? "map" : "world";
  nav_msgs::OccupancyGrid big, got;
  bool has_big = false;
  long maps = 0;
  uint64_t h = 0;
  bool copied = false, hidden = false;
  double px = 0, py = 0;
  core.observe<nav_msgs::OccupancyGrid>("/map_local", [&](const nav_msgs::OccupancyGrid& m)
                                        {
                                          maps++;
                                          got = m;
                                        });
  auto newMap = [&]()
  {
    big = nav_msgs::OccupancyGrid();
    big.header.frame_id = gf;
    big.header.stamp = core.now;
    big.info.resolution = r.pick({0.05f, 0.1f, 0.1f, 0.25f, 0.33f});
    big.info.width = r.p(0.05) ? 0 : r.i(1, 120);
    big.info.height = r.p(0.05) ? 0 : r.i(1, 120);
    const double res = big.info.resolution;
    const int kind = r.i(0, 2);
    const double s = r.pick({1.0, 10.0, 100.0});
    double ox = r.u(-s, s), oy = r.u(-s, s);
    if (kind == 0)
      ox = oy = 0;
    else if (kind == 1)
    {
      ox = std::round(ox / res) * res;
      oy = std::round(oy / res) * res;
    }
    big.info.origin.position.x = ox;
    big.info.origin.position.y = oy;
    big.info.origin.position.z = r.p(0.2) ? r.u(-1, 1) : 0;
    big.info.origin.orientation.w = 1;
    const int W = big.info.width, H = big.info.height;
    big.data.assign(W * H, 0);
    const double dens = r.pick({0.0, 0.003, 0.01, 0.05, 0.3});
    const bool noise = r.p(0.5);
    for (auto& c : big.data)
      c = r.p(dens) ? 100 : noise ? r.i(-1, 99) : 0;
    for (int k = r.i(0, 4); k > 0; k--)
    {
      // a wall
      const double t = r.u(0, 2 * M_PI), d = r.u(-0.3, 0.6) * std::min(W, H), th = r.pick({1.0, 2.0, 3.0, 5.0}), len = r.u(2, 60), cx = W * r.u(0.2, 0.8), cy = H * r.u(0.2, 0.8);
      for (int y = 0; y < H; y++)
        for (int x = 0; x < W; x++)
        {
          const double a = (x - cx) * std::cos(t) + (y - cy) * std::sin(t) - d, b = -(x - cx) * std::sin(t) + (y - cy) * std::cos(t);
          if (a >= 0 && a < th && std::abs(b) < len / 2)
            big.data[y * W + x] = 100;
        }
    }
    core.send("/map", big);
    core.drain();
    has_big = true;
  };
  auto place = [&]()
  {
    const double res = has_big ? big.info.resolution : 0.1;
    const double bw = big.info.width * res, bh = big.info.height * res;
    const int k = r.i(0, 5);
    px = big.info.origin.position.x + (k == 0 ? r.u(-1, 2) * (bw + w * res) : r.u(-0.1, 1.1) * bw);
    py = big.info.origin.position.y + (k == 0 ? r.u(-1, 2) * (bh + w * res) : r.u(-0.1, 1.1) * bh);
    geometry_msgs::TransformStamped m;
    m.header.stamp = core.now;
    m.header.frame_id = gf;
    m.child_frame_id = rf;
    m.transform.translation.x = px;
    m.transform.translation.y = py;
    m.transform.translation.z = r.p(0.3) ? r.u(-2, 2) : 0;
    const double yaw = r.u(-M_PI, M_PI);
    m.transform.rotation.z = std::sin(yaw / 2);
    m.transform.rotation.w = std::cos(yaw / 2);
    shim::TfTree::get().set(m, false);
  };
  auto judge = [&]()
  {
    vf::evaluated(1);
    vf::count("maps", 1);
    const double res = big.info.resolution;
    if (!VF_OK(static_cast<int>(got.info.width) == w && static_cast<int>(got.info.height) == w && got.data.size() == static_cast<size_t>(w) * w && got.info.resolution == big.info.resolution, "size",
               "%ux%u, %zu cells, resolution %f, expected %d, %f", got.info.width, got.info.height, got.data.size(), got.info.resolution, w, res))
      return;
    VF_CHECK(got.header.frame_id == gf, "frame", "%s", got.header.frame_id.c_str());
    VF_CHECK(got.header.stamp == core.now, "stamp", "%f at %f", got.header.stamp.toSec(), core.now.toSec());
    const auto& q = got.info.origin.orientation;
    VF_CHECK(q.x == 0 && q.y == 0 && q.z == 0 && q.w == 1, "orientation", "%f %f %f %f", q.x, q.y, q.z, q.w);
    const double ox = got.info.origin.position.x, oy = got.info.origin.position.y;
    const double e = (std::abs(px) + std::abs(py)) * 1e-6 + 1e-5;
    if (!VF_OK(std::abs(ox + w * res / 2 - px) <= res + e && std::abs(oy + w * res / 2 - py) <= res + e, "centre", "map centre %f %f, robot %f %f, resolution %f", ox + w * res / 2, oy + w * res / 2, px,
               py, res))
      return;
    const int W = big.info.width, H = big.info.height;
    const double sx = (ox - big.info.origin.position.x) / res, sy = (oy - big.info.origin.position.y) / res;
    const double es = e / res;
    const double c = w / 2.0;
    // the cells of the local map before hiding, for each possible rounding of grids that are not aligned
    std::string why;
    bool good = false;
    std::vector<int> gxs{static_cast<int>(std::lround(sx - es))}, gys{static_cast<int>(std::lround(sy - es))};
    if (std::lround(sx + es) != gxs[0])
      gxs.push_back(std::lround(sx + es));
    if (std::lround(sy + es) != gys[0])
      gys.push_back(std::lround(sy + es));
    struct Obst
    {
      double x, y;
      bool block;  // center of 3x3 obstacles
    };
    for (int gx : gxs)
      for (int gy : gys)
      {
        std::string bad;
        std::vector<int> val(w * w), alt(w * w);  // the two possible values around the circles
        std::vector<char> solid(w * w, 0), maybe(w * w, 0);
        long n_copy = 0, n_out = 0, n_hid = 0, n_ring = 0;
        for (int y = 0; y < w; y++)
          for (int x = 0; x < w; x++)
          {
            const int i = y * w + x;
            const int X = gx + x, Y = gy + y;
            const int copy = X < 0 || Y < 0 || X >= W || Y >= H ? -1 : big.data[Y * W + X];
            const double d = std::hypot(x + 0.5 - c, y + 0.5 - c);
            // 0: no, 1: unsure, 2: yes
            auto lim = [](double a, double b)
            {
              return a < b - 0.75 ? 2 : a > b + 0.75 ? 0 : 1;
            };
            const int in = lim(d, c), in2 = lim(d, c - 2);
            const int on_ring = !ring ? 0 : in == 0 || in2 == 2 ? 0 : in == 2 && in2 == 0 ? 2 : 1;
            const int outside = !round_map ? 0 : 2 - in;
            std::vector<int> p;
            if (on_ring)
              p.push_back(100);
            if (on_ring != 2)
            {
              if (outside)
                p.push_back(-1);
              if (outside != 2)
                p.push_back(copy);
            }
            const int v = got.data[i];
            val[i] = p[0];
            alt[i] = p.back();
            bool any = false;
            for (int a : p)
              any |= a == v;
            if (!any && !occlusion && bad.empty())
              bad = vf::fmt("cell (%d, %d) of %d is %d, expected %d or %d; large map cell (%d, %d) of %dx%d is %d", x, y, w, v, p[0], p.back(), X, Y, W, H, copy);
            if (p.size() == 3 && occlusion)
              alt[i] = val[i] = -1000;  // rare: three values
            solid[i] = true;
            for (int a : p)
            {
              solid[i] &= a == 100;
              maybe[i] |= a == 100;
            }
            if (p.size() == 1 && on_ring == 2)
              n_ring++;
            else if (X < 0 || Y < 0 || X >= W || Y >= H)
              n_out++;
            else
              n_copy++;
          }
        if (occlusion)
        {
          std::vector<Obst> ob;
          for (int y = 0; y < w; y++)
            for (int x = 0; x < w; x++)
              if (maybe[y * w + x])
              {
                bool blk = x > 0 && y > 0 && x < w - 1 && y < w - 1;
                for (int b = -1; b <= 1 && blk; b++)
                  for (int a = -1; a <= 1 && blk; a++)
                    blk &= !!solid[(y + b) * w + x + a];
                ob.push_back({x + 0.5 - c, y + 0.5 - c, blk});
              }
          for (int y = 0; y < w; y++)
            for (int x = 0; x < w; x++)
            {
              const int i = y * w + x;
              const double tx = x + 0.5 - c, ty = y + 0.5 - c, l = std::hypot(tx, ty);
              bool must = false, may = false;
              for (auto& o : ob)
              {
                if (l < 1e-6)
                  break;
                const double along = (o.x * tx + o.y * ty) / l, across = std::abs(o.x * ty - o.y * tx) / l;
                const double t = std::max(0.0, std::min(l, along));
                if (o.block && across <= 0.5 && along >= 3 && along <= l - 4)
                {
                  must = true;
                  break;
                }
                if (std::abs(o.x - tx) < 0.1 && std::abs(o.y - ty) < 0.1)
                  continue;
                if (std::hypot(o.x - t * tx / l, o.y - t * ty / l) < 1.7)
                  may = true;
              }
              const int v = got.data[i];
              if (val[i] == -1000)
                continue;
              if (must)
              {
                n_hid++;
                if (v != -1 && bad.empty())
                  bad = vf::fmt("cell (%d, %d) of %d behind an obstacle is %d", x, y, w, v);
              }
              else if (!(v == val[i] || v == alt[i] || (may && v == -1)) && bad.empty())
                bad = vf::fmt("cell (%d, %d) of %d is %d, expected %d or %d; %s", x, y, w, v, val[i], alt[i], may ? "may be hidden" : "not hidden");
            }
        }
        if (bad.empty())
        {
          good = true;
          copied |= n_copy > 0;
          hidden |= n_hid > 0 || n_ring > 0;
          vf::count("copied cells", n_copy);
          vf::count("cells outside of the large map", n_out);
          vf::count("hidden cells", n_hid);
          vf::count("ring cells", n_ring);
          break;
        }
        if (why.empty() || (gx == std::lround(sx) && gy == std::lround(sy)))
          why = bad;
      }
    VF_CHECK(good, occlusion && why.find("behind") != std::string::npos ? "not hidden" : "cell", "%s (shift %f %f)", why.c_str(), sx, sy);
    for (size_t i = 0; i < got.data.size(); i += 7)
      h = vf::hashAdd(h, got.data[i]);
  };
  node::spinWith([&]()
                 {
    const double period = 1 / hz;
    bool has_tf = false;
    if (r.p(0.7))
      newMap();
    if (r.p(0.7))
    {
      place();
      has_tf = true;
    }
    const int steps = r.i(1, 6);
    for (int s = 0; s < steps; s++)
    {
      if (r.p(0.3))
        newMap();
      if (r.p(0.7))
      {
        place();
        has_tf = true;
      }
      if (r.p(0.1))
      {
        shim::TfTree::get().links.clear();
        has_tf = false;
      }
      maps = 0;
      node::advance(period * 1.01);
      core.drain();
      const bool due = has_big && has_tf;
      if (!due)
        vf::count("ticks without map or transform", 1);
      if (VF_OK(maps == (due ? 1 : 0), "publication", "%ld maps in a period, map %d transform %d", maps, has_big, has_tf) && due)
        judge();
    }
    core.ok = false;
  });
  if (copied && hidden)
    vf::nontrivial(h);
}
int main(int argc, char** argv)
{
  return vf::run(argc, argv, body);
}
