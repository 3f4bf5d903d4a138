// P05: 3-DOF motion costs against an independent sweep of straight, curved and turning motions
#include "vf.h"
#include <costmap_cspace_msgs/MapMetaData3D.h>
#include <planner_cspace/blockmem_gridmap.h>
#include <planner_cspace/cyclic_vec.h>
#include <planner_cspace/planner_3d/grid_astar_model.h>
#include <planner_cspace/planner_3d/motion_primitive_builder.h>
#include <ros/ros.h>
#include <tuple>
using namespace planner_cspace;
using namespace planner_cspace::planner_3d;
typedef GridAstarModel3D::Vec Vec;
typedef GridAstarModel3D::Vecf Vecf;
typedef GridAstarModel3D::VecWithCost VecWithCost;
typedef std::tuple<int, int, int> Cell;

static int cyc(int a, int n)
{
  return ((a % n) + n) % n;
}
struct Sweep
{
  std::set<Cell> cells;      // cells the motion stays in for a fifth of a cell or more, relative to the start, absolute heading
  std::set<Cell> any;        // everything touched, with slack
  bool straight = false, ok = false;
};
// the curve from heading syaw at the origin to d (absolute end heading d[2]), in cells
static bool pointAt(const Vec& d, int syaw, int angle, double lin, double t, double out[3], bool& straight)
{
  const double ares = 2 * M_PI / angle;
  const double yaw = syaw * ares, yaw_e = d[2] * ares;
  const double dx = d[0] * lin, dy = d[1] * lin;
  const double mx = std::cos(-yaw) * dx - std::sin(-yaw) * dy, my = std::sin(-yaw) * dx + std::cos(-yaw) * dy;
  const double turn = yaw_e - yaw;
  const double sv = std::sin(turn), cv = std::cos(turn);
  straight = std::fabs(sv) < 0.1;
  if (std::fabs(std::fabs(sv) - 0.1) < 1e-4)
    return false;
  if (straight)
  {
    out[0] = d[0] * t;
    out[1] = d[1] * t;
    out[2] = syaw;
    return true;
  }
  const double r1 = my + mx * cv / sv;
  const double r2 = std::copysign(std::hypot(mx, mx * cv / sv), mx * sv);
  double dyaw = turn;
  if (dyaw < -M_PI)
    dyaw += 2 * M_PI;
  else if (dyaw > M_PI)
    dyaw -= 2 * M_PI;
  const double cx_e = dx + r2 * std::cos(yaw_e + M_PI / 2), cy_e = dy + r2 * std::sin(yaw_e + M_PI / 2);
  const double cx_s = r1 * std::cos(yaw + M_PI / 2), cy_s = r1 * std::sin(yaw + M_PI / 2);
  const double r = r1 * (1 - t) + r2 * t, cx = cx_s * (1 - t) + cx_e * t, cy = cy_s * (1 - t) + cy_e * t, cyaw = yaw + t * dyaw;
  out[0] = (cx - r * std::cos(cyaw + M_PI / 2)) / lin;
  out[1] = (cy - r * std::sin(cyaw + M_PI / 2)) / lin;
  out[2] = cyaw / ares;
  return true;
}
static Sweep sweep(const Vec& d, int syaw, int angle, double lin)
{
  Sweep s;
  const double len = std::hypot(d[0], d[1]);
  // fine steps, so that one cell is some hundred of them
  const int n = static_cast<int>(len * 100) + 1;
  Cell run(9999, 0, 0);
  double acc = 0;
  double first[3], prev[3] = {0, 0, 0};
  auto close = [&]()
  {
    if (acc >= 0.22)
      s.cells.insert(run);
  };
  for (int i = 0; i < n; i++)
  {
    double p[3];
    if (!pointAt(d, syaw, angle, lin, i / static_cast<double>(n), p, s.straight))
      return s;
    if (i == 0)
      std::memcpy(first, p, sizeof p);
    // the nearest cell; a hair of slack at the borders
    Cell c[2];
    for (int k = 0; k < 2; k++)
    {
      const double e = k ? 2e-3 : -2e-3;
      int v[3];
      for (int j = 0; j < 3; j++)
        v[j] = static_cast<int>(std::lround(p[j] + e));
      c[k] = Cell(v[0], v[1], cyc(v[2], angle));
    }
    for (int a = 0; a < 8; a++)
    {
      int v[3];
      for (int j = 0; j < 3; j++)
        v[j] = static_cast<int>(std::lround(p[j] + ((a >> j) & 1 ? 2e-3 : -2e-3)));
      s.any.insert(Cell(v[0], v[1], cyc(v[2], angle)));
    }
    // progress counted in the enumeration parameter: steps of a tenth of a cell of the chord
    const double step = len / n;
    if (c[0] == c[1] && c[0] == run)
      acc += step;
    else
    {
      close();
      acc = 0;
      run = c[0] == c[1] ? c[0] : Cell(9999, 0, 0);
    }
    std::memcpy(prev, p, sizeof p);
  }
  close();
  s.cells.erase(Cell(9999, 0, 0));
  s.any.insert(Cell(d[0], d[1], cyc(d[2], angle)));
  s.ok = true;
  return s;
}

struct World
{
  costmap_cspace_msgs::MapMetaData3D info;
  BlockMemGridmap<char, 3, 2, 0x40> cm, hyst, rough;
  BlockMemGridmap<float, 3, 2> est;
  CostCoeff cc;
  Vecf coef;
  int range, local;
  int w, h, n;
};

static float costOf(const GridAstarModel3D& m, const Vec& a, const Vec& b)
{
  static const std::vector<VecWithCost> none;
  return m.cost(a, b, none, b);
}

static void oneCase(vf::Rng& r, long)
{
  World W;
  W.n = r.pick({4, 8, 8, 12, 16, 16, 20, 24});
  W.range = r.i(2, 5);
  W.w = r.i(2, 26);
  W.h = r.i(2, 26);
  if (r.p(0.8))
    W.w += 10, W.h += 10;
  W.local = r.i(1, 12);
  const double lin = r.pick({0.05, 0.1, 0.1, 0.25, 1.0});
  W.info.width = W.w;
  W.info.height = W.h;
  W.info.angle = W.n;
  W.info.linear_resolution = lin;
  W.info.angular_resolution = 2 * M_PI / W.n;
  W.info.origin.orientation.w = 1;
  CostCoeff& c = W.cc;
  c.weight_decel_ = r.u(0, 60);
  c.weight_backward_ = r.u(0, 1.5);
  c.weight_ang_vel_ = r.u(0.1, 2);
  c.weight_costmap_ = r.u(5, 60);
  c.weight_costmap_turn_ = r.p(0.5) ? 0 : r.u(0, 30);
  c.weight_costmap_turn_heuristics_ = r.p(0.5) ? 0 : r.u(0, 30);
  c.weight_remembered_ = 1000;
  c.weight_hysteresis_ = r.u(0, 20);
  c.in_place_turn_ = r.u(0, 30);
  c.hysteresis_max_dist_ = 0.1;
  c.hysteresis_expand_ = 0.1;
  c.min_curve_radius_ = r.pick({0.0, 0.1, 0.3, 1.0}) * r.u(0.5, 2) + 1e-3;
  c.max_vel_ = r.u(0.1, 1.5);
  c.max_ang_vel_ = r.u(0.2, 2);
  c.angle_resolution_aspect_ = 2.0 / std::tan(2 * M_PI / W.n);
  if (!(std::fabs(c.angle_resolution_aspect_) < 1e6))
    c.angle_resolution_aspect_ = 0;
  c.turn_penalty_cost_threshold_ = r.p(0.5) ? 0 : r.i(0, 99);
  const float ec = 1.0f / c.max_vel_ * lin;
  W.coef = Vecf(ec, ec, c.weight_ang_vel_ * (2 * M_PI / W.n) / c.max_ang_vel_);
  const Vec size(W.w, W.h, W.n), size2(W.w, W.h, 1);
  W.cm.reset(size);
  W.hyst.reset(size);
  W.rough.reset(size2);
  W.est.reset(size2);
  W.hyst.clear(0);
  W.est.clear(0);
  const double po = r.pick({0.0, 0.02, 0.05, 0.15, 0.3});
  const bool graded = r.p(0.7);
  for (int y = 0; y < W.h; y++)
    for (int x = 0; x < W.w; x++)
    {
      int lo = 100;
      for (int a = 0; a < W.n; a++)
      {
        const int v = r.p(po) ? 100 : graded ? r.i(0, 99) : 0;
        W.cm[Vec(x, y, a)] = v;
        W.hyst[Vec(x, y, a)] = r.i(0, 100);
        lo = std::min(lo, v);
      }
      W.rough[Vec(x, y, 0)] = r.p(po) ? 100 : lo;
    }
  GridAstarModel3D::Ptr model(new GridAstarModel3D(W.info, W.coef, W.local, W.est, W.cm, W.hyst, W.rough, c, W.range, 0.5, 0.1));
  GridAstarModel2D model2(model);
  const GridAstarModel3D& m = *model;
  uint64_t sig = 0;
  long allowed = 0, forbidden = 0;
  const int picks = vf::st().thorough ? 60 : 15;
  for (int q = 0; q < picks; q++)
  {
    const Vec cur(r.i(0, W.w - 1), r.i(0, W.h - 1), r.i(0, W.n - 1));
    const std::vector<VecWithCost> ss(1, VecWithCost(cur));
    const std::vector<Vec> prims = m.searchGrids(cur, ss, cur);
    VF_CHECK(!prims.empty(), "no motions near the start", "angle %d range %d", W.n, W.range);
    bool turns[2] = {false, false};
    for (const Vec& d : prims)
    {
      Vec next(cur[0] + d[0], cur[1] + d[1], cyc(cur[2] + d[2], W.n));
      // --- the motions offered are those of a non-holonomic robot
      Vec rel(d[0], d[1], next[2]);
      if (d[0] == 0 && d[1] == 0)
      {
        const int t = cyc(d[2], W.n);
        VF_CHECK(t != 0, "offers staying in place", "heading step %d of %d", d[2], W.n);
        if (t == 1)
          turns[0] = true;
        if (t == W.n - 1)
          turns[1] = true;
      }
      else
      {
        const double yaw = cur[2] * 2 * M_PI / W.n, turn = std::remainder((next[2] - cur[2]) * 2 * M_PI / W.n, 2 * M_PI);
        const double fx = std::cos(yaw) * d[0] + std::sin(yaw) * d[1], fy = -std::sin(yaw) * d[0] + std::cos(yaw) * d[1];
        VF_CHECK(d[0] * d[0] + d[1] * d[1] <= W.range * W.range, "offered motion longer than the search range", "%d %d range %d", d[0], d[1], W.range);
        VF_CHECK(std::fabs(turn) < M_PI / 2 + 1e-4, "offered motion turns by a right angle or more", "%d %d turn %g", d[0], d[1], turn);
        VF_CHECK(std::fabs(fx) > 0.5 - 1e-3 || std::fabs(fy) < 0.5 + 1e-3, "offered motion slips sideways", "forward %g side %g", fx, fy);
        if (std::fabs(turn) > 1e-3)
        {
          const double r1 = (fy + fx * std::cos(turn) / std::sin(turn)) * lin, r2 = std::copysign(std::fabs(fx / std::sin(turn)), fx * std::sin(turn)) * lin;
          VF_CHECK(std::fabs(r1 + r2) / 2 >= c.min_curve_radius_ * (1 - 1e-3) - 1e-5, "offered curve tighter than the minimum radius",
                   "radius %g, minimum %g", (r1 + r2) / 2, c.min_curve_radius_);
          VF_CHECK(std::fabs(r1 - r2) < 1.5 * lin + 1e-3, "offered curve drifts", "radii %g %g", r1, r2);
          VF_CHECK(fx * fy * turn > -1e-6, "offered curve bends the wrong way", "forward %g side %g turn %g", fx, fy, turn);
        }
        else if (std::fabs(fy) > 1e-6 && std::fabs(c.angle_resolution_aspect_) < 1e6)
          VF_CHECK(std::fabs(fx / fy) >= c.angle_resolution_aspect_ * (1 - 1e-3), "offered straight motion slips sideways", "forward %g side %g", fx, fy);
      }
      if (next[0] < 0 || next[1] < 0 || next[0] >= W.w || next[1] >= W.h)
        continue;
      // --- cost
      const float k = costOf(m, cur, next);
      vf::evaluated();
      VF_CHECK(std::isfinite(k) && (k >= 0 || k == -1), "motion cost neither finite nor forbidding", "from %d %d %d to %d %d %d: %g", cur[0], cur[1], cur[2],
               next[0], next[1], next[2], k);
      const bool ends = W.cm[cur] > 99 || W.cm[next] > 99;
      bool must = ends, clear = !ends;
      const char* kind = "end point";
      Cell where(0, 0, 0);
      std::vector<Cell> inner;
      if (d[0] == 0 && d[1] == 0)
      {
        kind = "in-place turn";
        int t = cyc(d[2], W.n);
        const bool half = 2 * t == W.n;
        const int dir = 2 * t < W.n ? 1 : -1, cnt = dir > 0 ? t : W.n - t;
        for (int i = 1; i < cnt; i++)
        {
          const Cell x(0, 0, cyc(cur[2] + dir * i, W.n));
          const bool bad = W.cm[Vec(cur[0], cur[1], std::get<2>(x))] > 99;
          if (half)
            continue;
          inner.push_back(x);
          if (bad && !must)
            must = true, where = x;
          if (bad)
            clear = false;
        }
        if (half)
        {
          // either way round: forbidden for sure only when both ways are blocked
          bool b0 = false, b1 = false;
          for (int i = 1; i < cnt; i++)
          {
            b0 = b0 || W.cm[Vec(cur[0], cur[1], cyc(cur[2] + i, W.n))] > 99;
            b1 = b1 || W.cm[Vec(cur[0], cur[1], cyc(cur[2] - i, W.n))] > 99;
          }
          must = must || (b0 && b1);
          clear = clear && !b0 && !b1;
        }
      }
      else
      {
        const Sweep s = sweep(rel, cur[2], W.n, lin);
        if (!s.ok)
          continue;
        kind = s.straight ? "straight motion" : "curve";
        for (const Cell& x : s.cells)
        {
          const Vec g(cur[0] + std::get<0>(x), cur[1] + std::get<1>(x), std::get<2>(x));
          if (g[0] < 0 || g[1] < 0 || g[0] >= W.w || g[1] >= W.h)
          {
            if (!s.straight && !must)
              must = true, where = x;
            continue;
          }
          if (!(g == cur) && !(g == next))
            inner.push_back(x);
          if (W.cm[g] > 99)
          {
            if (!must)
              where = x;
            must = true;
          }
        }
        for (const Cell& x : s.any)
        {
          const Vec g(cur[0] + std::get<0>(x), cur[1] + std::get<1>(x), std::get<2>(x));
          if (g[0] < 0 || g[1] < 0 || g[0] >= W.w || g[1] >= W.h || W.cm[g] > 99)
            clear = false;
        }
        if (!s.straight && (cur[0] < W.range || cur[1] < W.range || cur[0] >= W.w - W.range || cur[1] >= W.h - W.range))
          clear = false;  // curves near the map edge may be ignored
      }
      if (k >= 0)
      {
        allowed++;
        VF_CHECK(!must, std::string("allowed through a lethal cell: ") + kind, "map %dx%dx%d from %d %d %d to %d %d %d, lethal at +%d +%d heading %d, cost %g",
                 W.w, W.h, W.n, cur[0], cur[1], cur[2], next[0], next[1], next[2], std::get<0>(where), std::get<1>(where), std::get<2>(where), k);
        const double turn = std::fabs(std::remainder((next[2] - cur[2]) * 2 * M_PI / W.n, 2 * M_PI)) / (2 * M_PI / W.n);
        const double lb = std::hypot(d[0], d[1]) * W.coef[0] + turn * W.coef[2];
        VF_CHECK(k >= lb * (1 - 1e-4), "motion cheaper than the bare distance and turn", "from %d %d %d to %d %d %d: %g < %g", cur[0], cur[1], cur[2],
                 next[0], next[1], next[2], k, lb);
        // hysteresis only adds
        if (r.p(0.05))
        {
          model->enableHysteresis(true);
          const float kh = costOf(m, cur, next);
          model->enableHysteresis(false);
          VF_CHECK(kh >= k * (1 - 1e-5), "hysteresis lowers a cost", "%g -> %g", k, kh);
        }
        if (r.p(0.1) && !inner.empty())
        {
          const Cell x = r.pick(inner);
          const Vec g(cur[0] + std::get<0>(x), cur[1] + std::get<1>(x), std::get<2>(x));
          char& cell = W.cm[g];
          const char old = cell;
          cell = r.i(old, 99);
          const float k2 = costOf(m, cur, next);
          VF_CHECK(k2 >= k * (1 - 1e-5), std::string("cost falls when a cell gets dearer: ") + kind, "%d -> %d: %g -> %g", old, cell, k, k2);
          if (d[0] != 0 || d[1] != 0)
          {
            const double add = (static_cast<int>(cell) - old) * lin * c.weight_costmap_ / 100.0;
            if (add * 0.05 > 1e-4 * k)
              VF_CHECK(k2 > k, std::string("cost ignores a cell of the sweep: ") + kind, "from %d %d %d to %d %d %d cell +%d +%d heading %d %d -> %d: %g -> %g",
                       cur[0], cur[1], cur[2], next[0], next[1], next[2], std::get<0>(x), std::get<1>(x), std::get<2>(x), old, cell, k, k2);
          }
          cell = 100;
          const float k3 = costOf(m, cur, next);
          VF_CHECK(k3 < 0, std::string("allowed through a lethal cell: ") + kind, "planted: from %d %d %d to %d %d %d, lethal at +%d +%d heading %d, cost %g",
                   cur[0], cur[1], cur[2], next[0], next[1], next[2], std::get<0>(x), std::get<1>(x), std::get<2>(x), k3);
          cell = old;
          vf::count("cells planted");
        }
      }
      else
      {
        forbidden++;
        VF_CHECK(!clear, std::string("forbidden though free: ") + kind, "map %dx%dx%d from %d %d %d to %d %d %d", W.w, W.h, W.n, cur[0], cur[1], cur[2], next[0],
                 next[1], next[2]);
      }
      vf::count(kind);
      sig = vf::hashAdd(sig, k);
    }
    VF_CHECK(W.n <= 4 || (turns[0] && turns[1]), "no small in-place turns offered", "angle %d", W.n);
    // --- rough model
    const Vec c2(cur[0], cur[1], 0);
    const std::vector<Vec>& l2 = model2.searchGrids(c2, ss, c2);
    for (int t = 0; t < 30 && !l2.empty(); t++)
    {
      const Vec d = l2[r.next() % l2.size()];
      const Vec next(cur[0] + d[0], cur[1] + d[1], 0);
      if ((d[0] == 0 && d[1] == 0) || next[0] < 0 || next[1] < 0 || next[0] >= W.w || next[1] >= W.h)
        continue;
      const float k = model2.cost(c2, next, ss, next);
      VF_CHECK(std::isfinite(k) && (k >= 0 || k == -1), "rough cost neither finite nor forbidding", "%g", k);
      const Sweep s = sweep(Vec(d[0], d[1], 0), 0, W.n, lin);
      bool must = false, clear = true;
      for (const Cell& x : s.cells)
      {
        const Vec g(cur[0] + std::get<0>(x), cur[1] + std::get<1>(x), 0);
        // the end is checked as the start of the next motion
        must = must || (W.rough[g] > 99 && !(g[0] == next[0] && g[1] == next[1]));
      }
      for (const Cell& x : s.any)
      {
        const Vec g(cur[0] + std::get<0>(x), cur[1] + std::get<1>(x), 0);
        clear = clear && g[0] >= 0 && g[1] >= 0 && g[0] < W.w && g[1] < W.h && W.rough[g] <= 99;
      }
      VF_CHECK(!(k >= 0 && must), "rough motion allowed through a lethal cell", "from %d %d to %d %d", cur[0], cur[1], next[0], next[1]);
      VF_CHECK(!(k < 0 && clear), "rough motion forbidden though free", "from %d %d to %d %d", cur[0], cur[1], next[0], next[1]);
      VF_CHECK(k < 0 || k >= std::hypot(d[0], d[1]) * W.coef[0] * (1 - 1e-4), "rough motion cheaper than the bare distance", "%g", k);
      VF_CHECK(model2.costEstim(c2, next) <= std::hypot(d[0], d[1]) * W.coef[0] * (1 + 1e-4), "rough estimate above the bare distance", "%g",
               model2.costEstim(c2, next));
      vf::evaluated(2);
      vf::count("rough motions");
    }
    // --- estimate: infinite exactly where the cost map says so, else cost-to-go plus the turn
    {
      const Vec g(r.i(0, W.w - 1), r.i(0, W.h - 1), r.i(0, W.n - 1));
      const float base = r.p(0.2) ? std::numeric_limits<float>::max() : r.u(0, 100);
      W.est[Vec(cur[0], cur[1], 0)] = base;
      const float e = m.costEstim(cur, g);
      const int dt = std::abs(static_cast<int>(std::lround(std::remainder((cur[2] - g[2]) * 1.0, W.n))));
      if (base == std::numeric_limits<float>::max())
        VF_CHECK(e == base, "estimate for an unreachable cell", "%g", e);
      else
        VF_CHECK(std::fabs(e - (base + dt * W.coef[2])) <= 1e-4 * (1 + e), "estimate", "%g, expected %g", e, base + dt * W.coef[2]);
      vf::evaluated();
    }
    // --- interpolated path of a few allowed motions
    if (q % 5 == 0)
    {
      std::list<Vec> path;
      Vec p = cur;
      path.push_back(p);
      for (int t = 0; t < 6; t++)
      {
        const std::vector<Vec>& pr = m.searchGrids(p, std::vector<VecWithCost>(1, VecWithCost(p)), p);
        const Vec d = pr[r.next() % pr.size()];
        Vec nx(p[0] + d[0], p[1] + d[1], cyc(p[2] + d[2], W.n));
        if (nx[0] < 0 || nx[1] < 0 || nx[0] >= W.w || nx[1] >= W.h)
          continue;
        path.push_back(nx);
        p = nx;
      }
      const std::list<Vecf> ip = m.interpolatePath(path);
      VF_CHECK(!ip.empty(), "interpolated path empty", "%zu cells", path.size());
      if (!ip.empty())
      {
        const Vecf a = ip.front(), b = ip.back();
        VF_CHECK(std::fabs(a[0] - cur[0]) < 1e-3 && std::fabs(a[1] - cur[1]) < 1e-3, "interpolated path does not start at the first cell", "%g %g", a[0], a[1]);
        VF_CHECK(std::fabs(b[0] - p[0]) < 1e-3 && std::fabs(b[1] - p[1]) < 1e-3 && std::fabs(std::remainder(b[2] - p[2], W.n)) < 1e-3,
                 "interpolated path does not end at the last cell", "%g %g %g", b[0], b[1], b[2]);
        Vecf pv = a;
        for (const Vecf& x : ip)
        {
          VF_CHECK(std::hypot(x[0] - pv[0], x[1] - pv[1]) <= 1.0, "interpolated path jumps", "%g %g to %g %g", pv[0], pv[1], x[0], x[1]);
          pv = x;
        }
        // passes every cell of the path
        for (const Vec& v : path)
        {
          double best = 1e9;
          for (const Vecf& x : ip)
            best = std::min<double>(best, std::hypot(x[0] - v[0], x[1] - v[1]));
          VF_CHECK(best < 1e-2, "interpolated path leaves out a cell", "%d %d nearest %g", v[0], v[1], best);
        }
        // stays on the sweeps
        for (const Vecf& x : ip)
        {
          double best = 1e9;
          auto it = path.begin();
          for (auto nx = std::next(it); nx != path.end(); ++it, ++nx)
          {
            const Vec rel((*nx)[0] - (*it)[0], (*nx)[1] - (*it)[1], (*nx)[2]);
            if (rel[0] == 0 && rel[1] == 0)
            {
              best = std::min<double>(best, std::hypot(x[0] - (*it)[0], x[1] - (*it)[1]));
              continue;
            }
            bool st;
            double pt[3];
            for (int u = 0; u <= 100; u++)
              if (pointAt(rel, (*it)[2], W.n, lin, u / 100.0, pt, st))
                best = std::min(best, std::hypot(x[0] - (*it)[0] - pt[0], x[1] - (*it)[1] - pt[1]));
              else
                best = 0;
          }
          if (path.size() > 1)
            VF_CHECK(best < 0.1, "interpolated path leaves the motion", "%g %g by %g", x[0], x[1], best);
        }
        vf::evaluated(ip.size());
        vf::count("interpolated poses", ip.size());
      }
    }
  }
  vf::count("allowed", allowed);
  vf::count("forbidden", forbidden);
  if (allowed > 20 && forbidden > 20)
    vf::nontrivial(sig);
}

int main(int argc, char** argv)
{
  return vf::run(argc, argv, oneCase, []()
                 { shim::Core::get().reset(); });
}
