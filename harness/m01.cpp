// M01: pointcloud_to_maps node on random multi-floor clouds against an independent reading of the documented layering.
#include "node.h"
#include "cloud.h"
#include <map_organizer_msgs/OccupancyGridArray.h>
#include <nav_msgs/OccupancyGrid.h>
#include <cmath>
#include <map>
#include <set>
typedef nav_msgs::OccupancyGrid Grid;
static void body(vf::Rng& r, long)
{
  auto& core = node::core();
  core.reset();
  const std::string ns = "/pointcloud_to_maps";
  double grid = 0.05, pt_rate = 0.5, robot_h = 1.0, floor_h = 0.1, floor_tol = 0.2, min_area = 100, area_rate = 0.8;
  grid = r.pick({0.05, 0.1, 0.2, 0.15, 0.3, 0.07, 0.5});
  pt_rate = r.p(0.4) ? 0.5 : r.u(0.05, 0.9);
  robot_h = r.p(0.4) ? 1.0 : r.u(0.3, 2.0);
  floor_h = r.p(0.4) ? 0.1 : r.u(0, 3) * grid;
  floor_tol = r.p(0.4) ? 0.2 : r.u(0, 4) * grid;
  area_rate = r.p(0.4) ? 0.8 : r.u(0, 0.95);
  const int kmin = r.p(0.3) ? 0 : r.i(0, 300);
  min_area = (kmin + 0.5) * grid * grid;
  core.setParam(ns + "/grid", grid);
  core.setParam(ns + "/points_thresh_rate", pt_rate);
  core.setParam(ns + "/robot_height", robot_h);
  core.setParam(ns + "/floor_height", floor_h);
  core.setParam(ns + "/floor_tolerance", floor_tol);
  core.setParam(ns + "/min_floor_area", min_area);
  core.setParam(ns + "/floor_area_thresh_rate", area_rate);
  const int rh = std::lround(robot_h / grid), fh = std::lround(floor_h / grid), ft = std::lround(floor_tol / grid);

  std::vector<Grid> single[64];
  std::vector<map_organizer_msgs::OccupancyGridArray> arrays;
  core.observe<map_organizer_msgs::OccupancyGridArray>("/maps", [&](const map_organizer_msgs::OccupancyGridArray& m) { arrays.push_back(m); });
  for (int i = 0; i < 64; i++)
    core.observe<Grid>(ns + "/map" + std::to_string(i), [&, i](const Grid& m) { single[i].push_back(m); });

  const int clouds = r.i(1, 3);
  node::spinWith([&]()
  {
    for (int c = 0; c < clouds; c++)
    {
      // cells of the points, in grid units, and the points well inside of them
      struct Cell
      {
        int x, y, z;
      };
      std::vector<Cell> cells;
      const int kind = r.i(0, 9);
      const int bx = r.i(-60, 40), by = r.i(-60, 40), bz = r.p(0.3) ? 0 : r.i(-150, 150);
      if (kind == 0)
        vf::count("empty clouds", 1);
      else if (kind == 1)
      {
        const int n = r.i(1, 5);
        for (int i = 0; i < n; i++)
          cells.push_back({ bx + r.i(-3, 3), by + r.i(-3, 3), bz + r.i(-5, 5) });
      }
      else
      {
        const int floors = r.i(1, 4);
        int z = bz;
        int w = r.i(4, 24), h = r.i(4, 24), ox = 0, oy = 0;
        for (int f = 0; f < floors; f++)
        {
          const double density = r.p(0.4) ? 1.0 : r.u(0.2, 1.0);
          if (r.p(0.4))
          {
            w = r.i(4, 24);
            h = r.i(4, 24);
            ox = r.i(-5, 5);
            oy = r.i(-5, 5);
          }
          const int rough = r.p(0.6) ? 0 : r.i(0, 2);
          const double slope = r.p(0.7) ? 0 : r.u(-0.2, 0.2);
          const int rep = r.p(0.7) ? 1 : r.i(1, 3);
          for (int x = 0; x < w; x++)
            for (int y = 0; y < h; y++)
              for (int k = 0; k < rep; k++)
                if (r.p(density))
                  cells.push_back({ bx + ox + x, by + oy + y, z + static_cast<int>(std::floor(slope * x)) + r.i(0, rough) });
          const int objs = r.i(0, 5);
          for (int o = 0; o < objs; o++)
          {
            const int px = r.i(0, w - 1), py = r.i(0, h - 1), len = r.i(1, 6), dir = r.i(0, 1);
            const int z0 = r.p(0.5) ? 0 : r.i(0, rh + 2), z1 = z0 + r.i(0, rh + 3);
            for (int l = 0; l < len; l++)
              for (int k = z0; k <= z1; k++)
                cells.push_back({ bx + ox + px + (dir ? l : 0), by + oy + py + (dir ? 0 : l), z + k });
          }
          z += r.p(0.8) ? rh + r.i(-1, 10) : r.i(1, 4);
        }
        for (size_t i = cells.size(); i > 1; i--)
          std::swap(cells[i - 1], cells[r.i(0, i - 1)]);
      }
      std::vector<Pt> pts;
      for (auto& p : cells)
        pts.push_back(Pt{ static_cast<float>((p.x + r.u(0.05, 0.95)) * grid), static_cast<float>((p.y + r.u(0.05, 0.95)) * grid),
                          static_cast<float>((p.z + r.u(0.05, 0.95)) * grid) });

      // reference
      std::map<int, int> hist;
      int hist_max = 0;
      for (auto& p : cells)
        hist_max = std::max(hist_max, ++hist[p.z]);
      const int min_points = hist_max * pt_rate;
      typedef std::pair<int, int> XY;
      struct Level
      {
        std::set<XY> ground, wall;
        std::set<XY> free_;
        int merged = 0;
        bool in = false;
        int area = 0;
      };
      std::map<int, Level> lv;
      int area_max = 0;
      for (auto& hh : hist)
        if (hh.second > min_points)
        {
          Level& l = lv[hh.first];
          for (auto& p : cells)
          {
            const int d = p.z - hh.first;
            if (std::abs(d) <= fh)
              l.ground.insert(XY(p.x, p.y));
            else if (fh + ft < d && d <= rh)
              l.wall.insert(XY(p.x, p.y));
          }
          for (auto& g : l.ground)
            if (!l.wall.count(g))
              l.free_.insert(g);
          l.area = l.free_.size();
          area_max = std::max(area_max, l.area);
        }
      bool judge = true;
      auto area = [&](int i) { return lv.count(i) ? lv[i].area : 0; };
      for (auto& l : lv)
      {
        const double thr = static_cast<double>(area_max) * area_rate;
        if (std::fabs(l.second.area - thr) < 1e-3)
          judge = judge && !(l.second.area > 0);
        if (l.second.area > thr && area(l.first - 1) <= l.second.area && area(l.first + 1) <= l.second.area)
          l.second.in = true;
      }
      // plateaus of equal area on adjacent levels are one floor at the lowest of them
      for (auto it = lv.rbegin(); it != lv.rend(); ++it)
      {
        auto up = lv.find(it->first + 1);
        if (it->second.in && up != lv.end() && up->second.in)
        {
          vf::count("merged levels", 1);
          it->second.free_.insert(up->second.free_.begin(), up->second.free_.end());
          it->second.merged = 1;
          up->second.free_.clear();
        }
      }
      std::map<int, Level*> expect;
      for (auto& l : lv)
        if (l.second.in && static_cast<int>(l.second.free_.size()) > kmin)
          expect[l.first] = &l.second;

      arrays.clear();
      for (auto& s : single)
        s.clear();
      auto msg = cloudMsg(pts, "world", core.now, r.i(0, 2));
      core.send("/mapcloud", msg);
      core.drain();
      vf::evaluated(1);
      vf::count("clouds", 1);
      if (!VF_OK(arrays.size() == 1, "one-array", "%zu map arrays for one cloud of %zu points", arrays.size(), pts.size()))
        return;
      if (cells.empty())
      {
        VF_CHECK(arrays[0].maps.empty(), "empty-cloud", "%zu floors from an empty cloud", arrays[0].maps.size());
        continue;
      }
      int x0 = 1 << 30, x1 = -(1 << 30), y0 = x0, y1 = x1;
      for (auto& p : cells)
      {
        x0 = std::min(x0, p.x);
        x1 = std::max(x1, p.x);
        y0 = std::min(y0, p.y);
        y1 = std::max(y1, p.y);
      }
      std::set<int> seen;
      int prev = -(1 << 30);
      for (size_t n = 0; n < arrays[0].maps.size(); n++)
      {
        const Grid& m = arrays[0].maps[n];
        vf::count("floors", 1);
        const double zl = m.info.origin.position.z / grid;
        const int z = std::lround(zl);
        if (!VF_OK(std::fabs(zl - z) < 1e-3, "level", "floor %zu at height %g is at no level of %g m", n, m.info.origin.position.z, grid))
          return;
        VF_CHECK(z > prev, "floor-order", "floor %zu at level %d follows level %d", n, z, prev);
        prev = z;
        VF_CHECK(m.header.frame_id == "world" && m.header.stamp == msg.header.stamp, "header", "floor %zu in frame %s", n, m.header.frame_id.c_str());
        VF_CHECK(m.info.origin.orientation.w == 1 && m.info.origin.orientation.x == 0 && m.info.origin.orientation.y == 0 && m.info.origin.orientation.z == 0, "orientation", "floor %zu is rotated", n);
        VF_CHECK(std::fabs(m.info.resolution - grid) < 1e-6, "resolution", "resolution %g instead of %g", m.info.resolution, grid);
        const long ox = std::lround(m.info.origin.position.x / grid), oy = std::lround(m.info.origin.position.y / grid);
        const long w = m.info.width, h = m.info.height;
        if (!VF_OK(m.data.size() == static_cast<size_t>(w * h) && std::fabs(m.info.origin.position.x / grid - ox) < 1e-3 && std::fabs(m.info.origin.position.y / grid - oy) < 1e-3 &&
                          ox <= x0 && oy <= y0 && ox + w > x1 && oy + h > y1,
                      "extent", "map of %ld x %ld cells from (%ld, %ld) for points in (%d, %d) to (%d, %d)", w, h, ox, oy, x0, y0, x1, y1))
          return;
        VF_CHECK(single[n].size() == 1 && single[n][0].data == m.data && single[n][0].info == m.info, "single-map", "map%zu differs from floor %zu of the array (%zu messages)", n, n, single[n].size());
        seen.insert(z);
        VF_CHECK(hist[z] > min_points, "few-points", "floor at level %d with %d points, the fullest level has %d and the rate is %g", z, hist[z], hist_max, pt_rate);
        if (judge)
          VF_CHECK(expect.count(z), "unexpected-floor", "floor at level %d (candidate %d, %d free cells, minimum %d)", z, lv.count(z) ? lv[z].in : -1, lv.count(z) ? static_cast<int>(lv[z].free_.size()) : -1, kmin);
        if (!lv.count(z))
          continue;
        const Level& l = lv[z];
        auto value = [&](int x, int y) { return static_cast<int>(m.data[(x - ox) + (y - oy) * w]); };
        long occ = 0, fre = 0;
        bool bad = false;
        for (int y = oy; y < oy + h && !bad; y++)
          for (int x = ox; x < ox + w && !bad; x++)
          {
            const int v = value(x, y);
            const XY c(x, y);
            const bool wall = l.wall.count(c), was_free = l.free_.count(c);
            if (v == 100)
            {
              occ++;
              bad |= !VF_OK(wall, "phantom-obstacle", "cell (%d, %d) of floor level %d is occupied without a point in the robot's height", x, y, z);
            }
            else if (v == 0)
            {
              fre++;
              if (wall && !was_free)
              {
                bad |= !VF_OK(false, "lost-obstacle", "cell (%d, %d) of floor level %d is free with a point in the robot's height", x, y, z);
                continue;
              }
              bool near = false;
              for (int dx = -5; dx <= 5 && !near; dx++)
                for (int dy = -5; dy <= 5 && !near; dy++)
                  near = dx * dx + dy * dy <= 25 && l.free_.count(XY(x + dx, y + dy));
              bad |= !VF_OK(near, "phantom-floor", "cell (%d, %d) of floor level %d is free without floor points nearby", x, y, z);
            }
            else
            {
              bad |= !VF_OK(v == -1, "value", "cell (%d, %d) of floor level %d has value %d", x, y, z, v);
              bad |= !VF_OK(!was_free, "lost-floor", "cell (%d, %d) of floor level %d has floor points but is unknown", x, y, z);
              bad |= !VF_OK(!wall, "lost-obstacle", "cell (%d, %d) of floor level %d is unknown with a point in the robot's height", x, y, z);
            }
          }
        vf::count("occupied cells", occ);
        vf::count("free cells", fre);
        if (occ && fre)
          vf::nontrivial(vf::hashAdd(vf::hashAdd(vf::hashAdd(z, occ), fre), m.info.width));
      }
      if (judge)
      {
        for (auto& e : expect)
          VF_CHECK(seen.count(e.first), "dropped-floor", "floor at level %d (%g m) with %zu free cells (minimum %d) and %d points is missing", e.first, e.first * grid, e.second->free_.size(), kmin, hist[e.first]);
        if (expect.size() > 1)
          vf::count("multi-floor clouds", 1);
      }
    }
  });
}
int main(int argc, char** argv)
{
  if (std::string(argv[argc - 1]) != "--verbose" && !freopen("/dev/null", "w", stdout))
    return 2;
  return vf::run(argc, argv, body);
}
