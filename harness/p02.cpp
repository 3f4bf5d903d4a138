// P02: search and cost map expansion with many threads: no unordered accesses (race detector), same verdict and values as one thread.
#include "astar_ref.h"
#include <limits>
#include <omp.h>
#include <ros/ros.h>
#include <planner_cspace/planner_3d/distance_map.h>
using namespace planner_cspace;
using namespace planner_cspace::planner_3d;
extern "C" {
void gomp_shake(uint64_t seed, int level);
long gomp_stat(int k);
}
typedef CyclicVecInt<3, 2> Vec3;
typedef CyclicVecFloat<3, 2> Vecf3;
static const bool small =
#if defined(__SANITIZE_THREAD__)
    true;
#else
    false;
#endif

template <int DIM, int NC>
static void searchCase(vf::Rng& r)
{
  using A = GridAstar<DIM, NC>;
  using P = Problem<DIM, NC>;
  using Vec = typename P::Vec;
  P pr;
  pr.gen(r, r.pick({8, 16, 28}));
  if (pr.starts.empty())
    return;
  pr.solve();
  A as(pr.m->size);
  const int threads = r.i(2, 6), tasks = r.pick({2, 4, 7, 16, 64});
  as.setSearchTaskNum(tasks);
  if (r.p(0.2))
    as.setQueueSizeLimit(0);
  omp_set_num_threads(threads);
  const bool progress = r.p(0.5);
  const long stop = progress && r.p(0.2) ? r.i(1, 30) : -1;
  bool cancelled = false;
  long calls = 0;
  const bool best = r.p(0.5);
  std::list<Vec> path;
  const bool ok = as.search(
      pr.starts, pr.goal, path, pr.m,
      [&](const std::list<Vec>& p, const SearchStats&) -> bool
      {
        const std::string bad = pr.validPath(p);
        VF_CHECK(bad.empty(), "partial-path", "%d threads: %s", threads, bad.c_str());
        cancelled = stop >= 0 && ++calls >= stop;
        return !cancelled;
      },
      0, progress ? 0.0f : 1e9f, best);
  vf::evaluated();
  vf::count("searches");
  const bool reach = std::isfinite(pr.dist[pr.m->idx(pr.goal)]);
  const std::string bad = ok || best ? pr.validPath(path) : "";
  VF_CHECK(bad.empty(), "path", "%d threads: %s", threads, bad.c_str());
  if (!cancelled)
    VF_CHECK(ok == reach, "verdict", "%d threads, %d tasks: found %d, reachable %d", threads, tasks, ok, reach);
  if (ok)
    VF_CHECK(!path.empty() && path.back() == pr.goal, "path end", "%d threads: the path does not end at the goal", threads);
  if (path.size() > 4)
    vf::nontrivial(vf::hashAdd(static_cast<double>(pr.m->salt), threads * 100 + tasks));
}

static void distCase(vf::Rng& r)
{
  const int w = r.i(8, small ? 40 : 80), h = r.i(8, small ? 40 : 80);
  const double res = 0.1, vel = r.u(0.3, 1.5);
  BlockMemGridmap<char, 3, 2, 0x80> cm;
  const Vec3 size2(w, h, 1);
  cm.reset(size2);
  cm.clear(0);
  const bool use_bbf = r.p(0.5);
  CostmapBBF::Ptr bbf;
  if (use_bbf)
    bbf.reset(new CostmapBBFImpl());
  else
    bbf.reset(new CostmapBBFNoOp());
  bbf->reset(size2);
  CostCoeff cc;
  cc.weight_costmap_ = r.pick({0.0, 10.0, 50.0});
  cc.weight_remembered_ = r.pick({0.0, 10.0});
  cc.angle_resolution_aspect_ = 1;
  cc.min_curve_radius_ = 0.1;
  cc.max_vel_ = vel;
  cc.max_ang_vel_ = 1;
  cc.weight_ang_vel_ = 1;
  // costs below zero take the guarded branch
  if (r.p(0.15))
    cc.weight_costmap_ = -r.u(100, 3000);
  costmap_cspace_msgs::MapMetaData3D info;
  info.width = w;
  info.height = h;
  info.angle = 4;
  info.linear_resolution = res;
  info.angular_resolution = M_PI / 2;
  BlockMemGridmap<char, 3, 2, 0x40> cm3, hyst;
  cm3.reset(Vec3(w, h, 4));
  hyst.reset(Vec3(w, h, 4));
  const float e1 = 1.0 / vel * res;
  const Vecf3 ec(e1, e1, 0.2f);
  DistanceMap::Params p;
  p.euclid_cost = ec;
  p.range = r.i(1, 4);
  p.local_range = r.i(0, 10);
  p.longcut_range = r.i(0, 10);
  p.size = size2;
  p.resolution = res;
  DistanceMap a(cm, bbf), b(cm, bbf);
  a.setParams(cc, r.pick({2, 5, 16, 64, 128}));
  b.setParams(cc, 1);
  GridAstarModel3D::Ptr ma(new GridAstarModel3D(info, ec, p.local_range, a.gridmap(), cm3, hyst, cm, cc, 2));
  GridAstarModel3D::Ptr mb(new GridAstarModel3D(info, ec, p.local_range, b.gridmap(), cm3, hyst, cm, cc, 2));
  a.init(ma, p);
  b.init(mb, p);
  const int style = r.i(0, 2);
  for (int y = 0; y < h; y++)
    for (int x = 0; x < w; x++)
      cm[Vec3(x, y, 0)] = style == 0 ? 0 : style == 1 ? (r.p(0.2) ? 100 : r.i(0, 60)) : (x % 6 == 3 && (x * 7 + y * 3) % 11 ? 100 : 0);
  auto cell = [&]()
  { return Vec3(r.i(0, w - 1), r.i(0, h - 1), 0); };
  Vec3 s = cell(), e = cell();
  const int threads = r.i(2, 6);
  const int steps = r.i(1, 4);
  for (int k = 0; k < steps; k++)
  {
    Vec3 lo(0, 0, 0), hi(w - 1, h - 1, 0);
    if (k)
    {
      lo = cell();
      hi = Vec3(std::min(w - 1, lo[0] + r.i(0, w / 2)), std::min(h - 1, lo[1] + r.i(0, h / 2)), 0);
      for (int y = lo[1]; y <= hi[1]; y++)
        for (int x = lo[0]; x <= hi[0]; x++)
          if (r.p(0.3))
            cm[Vec3(x, y, 0)] = r.p(0.5) ? 100 : r.i(0, 99);
      lo = Vec3(std::max(0, lo[0] - 1), std::max(0, lo[1] - 1), 0);
      hi = Vec3(std::min(w - 1, hi[0] + 1), std::min(h - 1, hi[1] + 1), 0);
      s = cell();
    }
    omp_set_num_threads(threads);
    if (k == 0)
      a.create(s, e);
    else
      a.update(s, e, DistanceMap::Rect(lo, hi));
    omp_set_num_threads(1);
    if (k == 0)
      b.create(s, e);
    else
      b.update(s, e, DistanceMap::Rect(lo, hi));
    vf::evaluated();
    vf::count(k ? "map updates" : "maps built");
    // cells up to the start's own cost are settled whatever the order
    const float lim = b[s];
    long cells = 0;
    for (int y = 0; y < h && cc.weight_costmap_ >= 0; y++)
      for (int x = 0; x < w; x++)
      {
        const float va = a[Vec3(x, y, 0)], vb = b[Vec3(x, y, 0)];
        if (std::min(va, vb) > lim && lim < 1e30f)
          continue;
        cells++;
        if (std::abs(va - vb) > 1e-4f * (1 + std::abs(vb)))
        {
          vf::violation("cost-to-go", vf::fmt("%dx%d, %d threads, step %d: cell %d,%d costs %f, with one thread %f", w, h, threads, k, x, y, va, vb));
          y = h;
          break;
        }
      }
    vf::count("cells compared", cells);
  }
  vf::nontrivial(vf::hashAdd(vf::hashAdd(1, w * 1000 + h), threads + 0.1 * e[0]));
}

static void modelCase(vf::Rng& r)
{
  // the planner's own motion model shares its caches between the threads
  const int w = r.i(8, 22), h = r.i(8, 22), n = r.pick({4, 8, 16});
  costmap_cspace_msgs::MapMetaData3D info;
  info.width = w;
  info.height = h;
  info.angle = n;
  info.linear_resolution = 0.1;
  info.angular_resolution = 2 * M_PI / n;
  info.origin.orientation.w = 1;
  CostCoeff c{};
  c.weight_decel_ = 50;
  c.weight_backward_ = 0.9;
  c.weight_ang_vel_ = 1;
  c.weight_costmap_ = 50;
  c.weight_costmap_turn_ = 1;
  c.weight_costmap_turn_heuristics_ = 0;
  c.weight_remembered_ = 0;
  c.weight_hysteresis_ = 5;
  c.in_place_turn_ = 3;
  c.hysteresis_max_dist_ = 0.1;
  c.hysteresis_expand_ = 0.1;
  c.min_curve_radius_ = 0.1;
  c.max_vel_ = 0.5;
  c.max_ang_vel_ = 1;
  c.angle_resolution_aspect_ = 2.0 / std::tan(2 * M_PI / n);
  if (!(std::fabs(c.angle_resolution_aspect_) < 1e6))
    c.angle_resolution_aspect_ = 0;
  c.turn_penalty_cost_threshold_ = 0;
  BlockMemGridmap<char, 3, 2, 0x40> cm, hyst, rough;
  BlockMemGridmap<float, 3, 2> est;
  const Vec3 size(w, h, n), size2(w, h, 1);
  cm.reset(size);
  hyst.reset(size);
  rough.reset(size2);
  est.reset(size2);
  cm.clear(0);
  hyst.clear(100);
  rough.clear(0);
  est.clear(0);
  for (int y = 0; y < h; y++)
    for (int x = 0; x < w; x++)
      if (r.p(0.1))
      {
        rough[Vec3(x, y, 0)] = 100;
        for (int a = 0; a < n; a++)
          cm[Vec3(x, y, a)] = 100;
      }
  const float e1 = 0.2;
  const Vecf3 ec(e1, e1, 0.2f);
  GridAstarModel3D::Ptr model(new GridAstarModel3D(info, ec, r.i(1, 10), est, cm, hyst, rough, c, r.i(2, 4), 0.5, 0.1));
  model->enableHysteresis(r.p(0.5));
  GridAstar<3, 2> as(size);
  std::vector<GridAstar<3, 2>::VecWithCost> starts;
  const Vec3 s(r.i(0, w - 1), r.i(0, h - 1), r.i(0, n - 1)), e(r.i(0, w - 1), r.i(0, h - 1), r.i(0, n - 1));
  starts.emplace_back(s);
  if (s == e || cm[s] > 99 || cm[e] > 99)
    return;
  bool res[2];
  for (int k = 0; k < 2; k++)
  {
    omp_set_num_threads(k ? r.i(2, 6) : 1);
    as.setSearchTaskNum(k ? r.pick({2, 8, 30}) : 1);
    std::list<Vec3> path;
    res[k] = as.search(
        starts, e, path, model, [](const std::list<Vec3>&, const SearchStats&) { return true; }, 0, 1e9f, true);
    if (res[k])
      VF_CHECK(!path.empty() && path.back() == e && path.front() == s, "path end", "the path does not join start and goal");
    vf::evaluated();
  }
  vf::count("planner model searches");
  VF_CHECK(res[0] == res[1], "verdict", "planner model %dx%dx%d: one thread finds %d, several %d", w, h, n, res[0], res[1]);
}

int main(int argc, char** argv)
{
  return vf::run(
      argc, argv, [](vf::Rng& r, long c)
      {
        const long before[4] = {gomp_stat(0), gomp_stat(1), gomp_stat(2), gomp_stat(3)};
        gomp_shake(r.next(), r.pick({0, 5, 20, 60}));
        switch (c % 5)
        {
          case 0:
            searchCase<3, 2>(r);
            break;
          case 1:
            searchCase<2, 0>(r);
            break;
          case 2:
          case 3:
            distCase(r);
            break;
          default:
            modelCase(r);
        }
        vf::count("parallel regions with several threads", gomp_stat(1) - before[1]);
        vf::count("barriers crossed", gomp_stat(2) - before[2]);
        vf::count("critical sections", gomp_stat(3) - before[3]); },
      []()
      { shim::Core::get().reset(); });
}
