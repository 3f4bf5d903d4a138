// P06: cost-to-go map against Dijkstra, from scratch and after histories of local changes
#include "vf.h"
#include <limits>
#include <queue>
#include <omp.h>
#include <ros/ros.h>
#include <planner_cspace/planner_3d/distance_map.h>
using namespace planner_cspace;
using namespace planner_cspace::planner_3d;
using Vec = CyclicVecInt<3, 2>;
using Vecf = CyclicVecFloat<3, 2>;
static const double INF = std::numeric_limits<float>::max();

struct Edge
{
  int dx, dy;
  std::vector<std::pair<int, int>> via;
  double euclid, k;
};

struct World
{
  int w, h;
  double res, ec, wc, wr;
  BlockMemGridmap<char, 3, 2, 0x80> cm;
  CostmapBBF::Ptr bbf;
  std::vector<Edge> edges;
  bool use_bbf;
};

static void makeEdges(World& W)
{
  for (int dx = -4; dx <= 4; dx++)
    for (int dy = -4; dy <= 4; dy++)
    {
      if ((!dx && !dy) || dx * dx + dy * dy > 16)
        continue;
      Edge e;
      e.dx = dx;
      e.dy = dy;
      const double len = std::hypot(dx, dy);
      const int n = static_cast<int>(len + 1e-9);
      float x = 0, y = 0;
      const float sx = static_cast<float>(dx) / n, sy = static_cast<float>(dy) / n;
      for (int i = 0; i < n; i++)
      {
        const std::pair<int, int> c(std::lround(x), std::lround(y));
        if (e.via.empty() || e.via.back() != c)
          e.via.push_back(c);
        x += sx;
        y += sy;
      }
      e.euclid = len * W.ec;
      e.k = W.res / 100.0 * (len / n);
      W.edges.push_back(e);
    }
}

static std::vector<double> reference(const World& W, int gx, int gy)
{
  std::vector<double> g(W.w * W.h, INF);
  using Q = std::pair<double, int>;
  std::priority_queue<Q, std::vector<Q>, std::greater<Q>> q;
  std::vector<double> cc(W.w * W.h);
  std::vector<char> bad(W.w * W.h);
  for (int y = 0; y < W.h; y++)
    for (int x = 0; x < W.w; x++)
    {
      const int c = W.cm[Vec(x, y, 0)];
      bad[x + y * W.w] = c > 99;
      cc[x + y * W.w] = c * W.wc + W.bbf->getCost(Vec(x, y, 0)) * W.wr;
    }
  g[gx + gy * W.w] = -0.5 * W.ec;
  q.push(Q(-0.5 * W.ec, gx + gy * W.w));
  while (!q.empty())
  {
    const Q t = q.top();
    q.pop();
    if (t.first > g[t.second])
      continue;
    const int x = t.second % W.w, y = t.second / W.w;
    for (const Edge& e : W.edges)
    {
      const int nx = x + e.dx, ny = y + e.dy;
      if (nx < 0 || ny < 0 || nx >= W.w || ny >= W.h)
        continue;
      double sum = 0;
      bool hit = false;
      for (const auto& v : e.via)
      {
        const int a = x + v.first + (y + v.second) * W.w;
        if (bad[a])
        {
          hit = true;
          break;
        }
        sum += cc[a];
      }
      if (hit)
        continue;
      const double c = t.first + e.euclid + sum * e.k;
      const int a = nx + ny * W.w;
      if (c < g[a])
      {
        g[a] = c;
        q.push(Q(c, a));
      }
    }
  }
  g[gx + gy * W.w] = 0;
  return g;
}

static void compare(const World& W, const DistanceMap& dm, const Vec& s, const Vec& e, double overshoot, bool scratch, int updates, uint64_t& sig,
                    const std::string& how)
{
  const std::vector<double> ref = reference(W, e[0], e[1]);
  const double smax = ref[s[0] + s[1] * W.w];
  // cells surely inside the explored range
  const double within = smax >= INF ? INF : smax + overshoot * 0.999 - W.ec;
  long judged = 0, unreach = 0;
  for (int y = 0; y < W.h; y++)
    for (int x = 0; x < W.w; x++)
    {
      const double r = ref[x + y * W.w], g = dm[Vec(x, y, 0)];
      const double eps = 1e-4 * (1 + std::fabs(r < INF ? r : 0)) + 1e-3 * W.ec;
      if (std::isnan(g))
        vf::violation("cost-to-go is not a number", vf::fmt("%d %d %s", x, y, how.c_str()));
      else if (r >= INF)
      {
        unreach++;
        VF_CHECK(g >= INF, std::string("unreachable cell has a cost ") + how, "map %dx%d goal %d %d cell %d %d: %g (updates %d)", W.w, W.h, e[0], e[1], x, y, g, updates);
      }
      else if (r < within)
      {
        judged++;
        if (g >= INF)
          vf::violation(std::string("reachable cell marked unreachable ") + how,
                        vf::fmt("map %dx%d start %d %d goal %d %d cell %d %d: true cost %g (updates %d)", W.w, W.h, s[0], s[1], e[0], e[1], x, y, r, updates));
        else if (scratch)
          VF_CHECK(std::fabs(g - r) <= eps, std::string("cost-to-go differs from the shortest distance ") + how, "map %dx%d goal %d %d cell %d %d: %g, shortest %g", W.w, W.h,
                   e[0], e[1], x, y, g, r);
        else
        {
          VF_CHECK(g >= r - eps, std::string("cost-to-go below the shortest distance ") + how, "map %dx%d goal %d %d cell %d %d: %g, shortest %g (updates %d)", W.w, W.h,
                   e[0], e[1], x, y, g, r, updates);
          const double slack = (g - r) / W.ec;
          vf::State& S = vf::st();
          long& m1 = S.counters["max excess after update, thousandths of a cell"];
          m1 = std::max(m1, std::lround(slack * 1000));
          if (slack > 0.01)
            vf::count("cells above the shortest distance after an update");
          // up to half a cell: the goal itself starts at minus half a cell only when searched from scratch
          VF_CHECK(slack <= 0.5 + eps / W.ec, std::string("stale cost-to-go ") + how, "map %dx%d start %d %d goal %d %d cell %d %d: %g, shortest %g (updates %d)",
                   W.w, W.h, s[0], s[1], e[0], e[1], x, y, g, r, updates);
        }
      }
      else
        VF_CHECK(g >= r - eps, std::string("cost-to-go below the shortest distance out of range ") + how, "map %dx%d goal %d %d cell %d %d: %g, shortest %g (updates %d)",
                 W.w, W.h, e[0], e[1], x, y, g, r, updates);
    }
  vf::evaluated(judged + unreach);
  vf::count("cells judged", judged);
  vf::count("unreachable cells", unreach);
  sig = vf::hashAdd(sig, smax + judged);
}

static void oneCase(vf::Rng& r, long)
{
  World W;
  const bool big = r.p(0.3);
  W.w = r.i(6, big ? 120 : 40);
  W.h = r.i(6, big ? 120 : 40);
  W.res = r.pick({0.05, 0.1, 0.25, 1.0});
  const double vel = r.u(0.2, 2);
  W.ec = 1.0 / vel * r.pick({1.0, W.res});
  W.wc = r.pick({0.0, 1.0, 10.0, 50.0});
  W.wr = r.pick({0.0, 1.0, 20.0});
  W.use_bbf = r.p(0.5);
  if (W.use_bbf)
    W.bbf.reset(new CostmapBBFImpl());
  else
    W.bbf.reset(new CostmapBBFNoOp());
  const Vec size2(W.w, W.h, 1);
  W.cm.reset(size2);
  W.cm.clear(0);
  W.bbf->reset(size2);
  makeEdges(W);
  const int tasks = r.pick({1, 2, 16, 128});
  omp_set_num_threads(r.i(1, 3));
  CostCoeff cc;
  cc.weight_costmap_ = W.wc;
  cc.weight_remembered_ = W.wr;
  cc.angle_resolution_aspect_ = 1;
  cc.min_curve_radius_ = 0.1;
  cc.max_vel_ = vel;
  cc.max_ang_vel_ = 1;
  cc.weight_ang_vel_ = 1;
  costmap_cspace_msgs::MapMetaData3D info;
  info.width = W.w;
  info.height = W.h;
  info.angle = 4;
  info.linear_resolution = W.res;
  info.angular_resolution = M_PI / 2;
  DistanceMap dm(W.cm, W.bbf);
  dm.setParams(cc, tasks);
  BlockMemGridmap<char, 3, 2, 0x40> cm3, hyst;
  cm3.reset(Vec(W.w, W.h, 4));
  hyst.reset(Vec(W.w, W.h, 4));
  const Vecf ec(static_cast<float>(W.ec), static_cast<float>(W.ec), 0.2f);
  DistanceMap::Params p;
  p.euclid_cost = ec;
  p.range = r.i(1, 8);
  p.local_range = r.i(0, big ? 20 : 10);
  p.longcut_range = r.i(0, big ? 20 : 10);
  p.size = size2;
  p.resolution = W.res;
  GridAstarModel3D::Ptr model(new GridAstarModel3D(info, ec, p.local_range, dm.gridmap(), cm3, hyst, W.cm, cc, 2));
  const double overshoot = W.ec * (p.range + p.local_range + p.longcut_range);
  dm.init(model, p);
  // static map and what is seen over it
  BlockMemGridmap<char, 3, 2, 0x80> base;
  base.reset(size2);
  base.clear(0);
  const int style = r.i(0, 3);
  for (int y = 0; y < W.h; y++)
    for (int x = 0; x < W.w; x++)
    {
      char v = style == 1 ? r.i(0, 40) : 0;
      if (style == 2 && (x % 7 == 3) && (y * 31 + x * 17) % 11)
        v = 100;
      if (style == 3 && r.p(0.25))
        v = 100;
      base[Vec(x, y, 0)] = v;
    }
  for (int k = r.i(0, 6); k > 0; k--)
  {
    const bool hor = r.p(0.5);
    const int at = hor ? r.i(0, W.h - 1) : r.i(0, W.w - 1), a = r.i(0, hor ? W.w - 1 : W.h - 1), b = r.i(a, hor ? W.w - 1 : W.h - 1);
    for (int i = a; i <= b; i++)
      base[hor ? Vec(i, at, 0) : Vec(at, i, 0)] = 100;
  }
  auto copyBase = [&](int x0, int y0, int x1, int y1)
  {
    for (int y = y0; y <= y1; y++)
      for (int x = x0; x <= x1; x++)
        W.cm[Vec(x, y, 0)] = base[Vec(x, y, 0)];
  };
  copyBase(0, 0, W.w - 1, W.h - 1);
  auto cell = [&]()
  { return Vec(r.i(0, W.w - 1), r.i(0, W.h - 1), 0); };
  Vec s = cell(), e = cell();
  for (int t = 0; t < 5 && base[e] > 99; t++)
    e = cell();
  uint64_t sig = 0;
  dm.create(s, e);
  compare(W, dm, s, e, overshoot, true, 0, sig, "after construction");
  const int steps = r.i(0, vf::st().thorough ? 40 : 12);
  // previous local map
  int px0 = 0, py0 = 0, px1 = -1, py1 = -1;
  int updates = 0;
  const int lw = r.i(2, std::max(3, W.w / 2)), lh = r.i(2, std::max(3, W.h / 2));
  for (int k = 0; k < steps; k++)
  {
    const int what = r.i(0, 19);
    if (what == 0)
    {
      e = cell();
      dm.create(s, e);
      updates = 0;
      compare(W, dm, s, e, overshoot, true, updates, sig, "after construction");
      continue;
    }
    if (what == 1)
    {
      // new static map or parameters: everything starts over
      dm.init(model, p);
      dm.create(s, e);
      updates = 0;
      compare(W, dm, s, e, overshoot, true, updates, sig, "after construction");
      continue;
    }
    // the robot moves a little, and sometimes far
    if (r.p(0.8))
      s = Vec(std::min(W.w - 1, std::max(0, s[0] + r.i(-3, 3))), std::min(W.h - 1, std::max(0, s[1] + r.i(-3, 3))), 0);
    else
      s = cell();
    bool fresh = false;
    if (what == 2)
    {
      // a new goal comes with the update
      const Vec e2 = cell();
      fresh = e2[0] != e[0] || e2[1] != e[1];
      e = e2;
    }
    // a local map around the robot replaces the previous one
    int x0 = std::max(0, s[0] - lw / 2), y0 = std::max(0, s[1] - lh / 2), x1 = std::min(W.w - 1, x0 + lw), y1 = std::min(W.h - 1, y0 + lh);
    if (r.p(0.1))
      x0 = r.i(0, W.w - 1), x1 = r.i(x0, W.w - 1), y0 = r.i(0, W.h - 1), y1 = r.i(y0, W.h - 1);
    copyBase(px0, py0, px1, py1);
    const int obst = r.i(0, 5);
    for (int o = 0; o < obst; o++)
    {
      const int ox = r.i(x0, x1), oy = r.i(y0, y1), ow = r.i(0, 4), oh = r.i(0, 4);
      const char v = r.p(0.7) ? 100 : r.i(1, 99);
      for (int y = oy; y <= std::min(y1, oy + oh); y++)
        for (int x = ox; x <= std::min(x1, ox + ow); x++)
          W.cm[Vec(x, y, 0)] = std::max(W.cm[Vec(x, y, 0)], v);
    }
    // closes the area around the robot off now and then
    if (r.p(0.1))
      for (int x = x0; x <= x1; x++)
        W.cm[Vec(x, (y0 + y1) / 2, 0)] = 100;
    if (px1 < px0)
      px0 = x0, py0 = y0, px1 = x1, py1 = y1;
    int ux0 = std::min(px0, x0), uy0 = std::min(py0, y0), ux1 = std::max(px1, x1), uy1 = std::max(py1, y1);
    if (W.use_bbf && r.p(0.5))
    {
      // remembered costs change inside the updated area only
      BlockMemGridmap<char, 3, 2, 0x80> up;
      up.reset(size2);
      up.clear(-1);
      for (int y = uy0; y <= uy1; y++)
        for (int x = ux0; x <= ux1; x++)
          up[Vec(x, y, 0)] = W.cm[Vec(x, y, 0)];
      W.bbf->remember(&up, s, 3.0f, 0.3f, 1, 200);
      W.bbf->updateCostmap();
      vf::count("remembered costs updated");
    }
    ux0 = std::max(0, ux0 - 1);
    uy0 = std::max(0, uy0 - 1);
    ux1 = std::min(W.w - 1, ux1 + 1);
    uy1 = std::min(W.h - 1, uy1 + 1);
    px0 = x0, py0 = y0, px1 = x1, py1 = y1;
    dm.update(s, e, DistanceMap::Rect(Vec(ux0, uy0, 0), Vec(ux1, uy1, 0)));
    updates = fresh ? 0 : updates + 1;
    vf::count("updates");
    compare(W, dm, s, e, overshoot, fresh, updates, sig, fresh ? "after construction" : "after an update");
    if (r.p(0.1))
    {
      // a start or goal out of the map must not be looked up
      const Vec far(r.pick({-1, W.w, -1000, 1000}), r.pick({-1, W.h, 5, 100000}), 0);
      if (r.p(0.5))
      {
        dm.update(far, e, DistanceMap::Rect(Vec(1, 1, 0), Vec(0, 0, 0)));
        vf::count("start out of the map");
      }
    }
  }
  if (steps > 3)
    vf::nontrivial(sig);
}

int main(int argc, char** argv)
{
  return vf::run(argc, argv, oneCase, []()
                 { shim::Core::get().reset(); });
}
