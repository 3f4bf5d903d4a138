#include "astar_ref.h"
#include <omp.h>

template <int DIM, int NC>
void one(vf::Rng& r, long c)
{
  using A = planner_cspace::GridAstar<DIM, NC>;
  using P = Problem<DIM, NC>;
  using Vec = typename P::Vec;
  std::unique_ptr<A> as;
  const int rounds = r.i(1, 3);
  for (int k = 0; k < rounds; k++)
  {
    P pr;
    pr.gen(r, vf::st().thorough ? r.pick({6, 12, 24, 50}) : r.pick({6, 12, 24, 36}));
    bool set_tasks = true;
    if (!as || r.p(0.3))
    {
      if (r.p(0.5))
      {
        // an object whose storage held something else before
        void* mem = operator new(sizeof(A));
        memset(mem, r.pick({0, 0x7f, 0xff, 1}), sizeof(A));
        as.reset(new (mem) A(pr.m->size));
        set_tasks = r.p(0.7);
      }
      else
      {
        as.reset(new A());
        as->reset(pr.m->size);
      }
    }
    else
      as->reset(pr.m->size);
    const int tasks = r.pick({1, 1, 1, 2, 5, 30});
    // a reused object may have kept the task number of the former round
    if (set_tasks)
      as->setSearchTaskNum(tasks);
    const bool single = set_tasks && tasks == 1;
    omp_set_num_threads(r.pick({1, 1, 1, 1, 1, 2, 3}));
    if (pr.starts.empty())
    {
      std::list<Vec> path;
      const bool ok = as->search(pr.starts, pr.goal, path, pr.m, [](const std::list<Vec>&, const planner_cspace::SearchStats&)
                                 { return true; },
                                 0, 1e9f);
      VF_CHECK(!ok, "found-without-start", "search without starts succeeded");
      vf::evaluated();
      continue;
    }
    pr.solve();
    const size_t limit = r.p(0.1) ? r.i(1, 200) : 0;
    as->setQueueSizeLimit(limit);
    const bool progress = r.p(0.4);
    const long stop_after = progress && r.p(0.4) ? r.i(1, 40) : -1;
    const bool best = r.p(0.5);
    const float leave = r.p(0.15) ? r.i(1, 20) * 0.5f : 0.0f;
    long calls = 0;
    bool cancelled = false;
    auto cb = [&](const std::list<Vec>& p, const planner_cspace::SearchStats& s) -> bool
    {
      ++calls;
      vf::count("partial paths checked");
      const std::string bad = pr.validPath(p);
      VF_CHECK(bad.empty(), "partial-path", "progress path: %s", bad.c_str());
      if (stop_after >= 0 && calls >= stop_after)
      {
        cancelled = true;
        return false;
      }
      return true;
    };
    Vec goal = pr.goal;
    std::vector<typename P::VecWithCost> starts = pr.starts;
    // cyclic axes may be given at any congruent value
    if (r.p(0.3))
    {
      for (int i = NC; i < DIM; i++)
        goal[i] += pr.m->size[i] * r.i(-2, 2);
      for (auto& s : starts)
        for (int i = NC; i < DIM; i++)
          s.v_[i] += pr.m->size[i] * r.i(-2, 2);
    }
    std::list<Vec> path;
    const bool ok = as->search(starts, goal, path, pr.m, cb, leave, progress ? 0.0f : 1e9f, best);
    vf::evaluated();
    const double gd = pr.dist[pr.m->idx(pr.goal)];
    bool reach = std::isfinite(gd), may = reach;
    if (leave > 0)
    {
      for (size_t q = 0; q < pr.dist.size(); q++)
      {
        if (!std::isfinite(pr.dist[q]))
          continue;
        const float h = pr.m->costEstim(pr.m->at(q), pr.goal);
        reach |= h < leave;
        may |= std::floor(h) < leave;
      }
    }
    const std::string where = vf::fmt("size %dx%d%s starts %zu tasks %d threads %d leave %g limit %zu goal (%d,%d) cost there %d", pr.m->size[0], pr.m->size[1],
                                      DIM > 2 ? vf::fmt("x%d", pr.m->size[2]).c_str() : "", starts.size(), tasks, omp_get_max_threads(), leave, limit, pr.goal[0], pr.goal[1], pr.m->cell[pr.m->idx(pr.goal)]);
    if (ok)
    {
      vf::count("found");
      VF_CHECK(may, "found-unreachable", "%s", where.c_str());
      const std::string bad = pr.validPath(path);
      VF_CHECK(bad.empty(), "invalid-path", "%s: %s", where.c_str(), bad.c_str());
      if (!path.empty())
      {
        const Vec end = path.back();
        // the estimate at a start is handled as an integer
        const bool at_end = end == pr.goal || (leave > 0 && std::floor(pr.m->costEstim(end, pr.goal)) < leave);
        VF_CHECK(at_end, "path-end", "%s: ends elsewhere at (%d,%d) with estimate %g", where.c_str(), end[0], end[1], pr.m->costEstim(end, pr.goal));
        if (bad.empty() && single && limit == 0)
        {
          vf::count("optimality checked");
          const double want = pr.dist[pr.m->idx(end)] - pr.dist[pr.m->idx(path.front())];
          const double got = pr.costOf(path);
          VF_CHECK(std::abs(want - got) < 1e-3, "not-cheapest", "%s: cost %f, cheapest %f", where.c_str(), got, want);
          // the first start is only passed over when it is itself reached more cheaply from another start
          if (leave > 0 && !pr.isStart(end))
          {
            double bestf = 1e300;
            for (size_t q = 0; q < pr.dist.size(); q++)
              if (std::isfinite(pr.dist[q]) && (pr.m->costEstim(pr.m->at(q), pr.goal) < leave || pr.m->at(q) == pr.goal))
                bestf = std::min(bestf, pr.dist[q] + pr.m->costEstim(pr.m->at(q), pr.goal));
            VF_CHECK(pr.dist[pr.m->idx(end)] + pr.m->costEstim(end, pr.goal) <= bestf + 1, "not-cheapest-leave", "%s", where.c_str());
          }
        }
      }
      if (path.size() > 3)
      {
        uint64_t h = vf::hashAdd(0, static_cast<double>(pr.m->salt));
        vf::nontrivial(vf::hashAdd(h, tasks));
        vf::sample(vf::fmt("%s moves %zu, path of %zu cells, cost %.3f", where.c_str(), pr.m->moves.size(), path.size(), pr.costOf(path)));
      }
    }
    else
    {
      vf::count(cancelled ? "cancelled" : "not found");
      if (!cancelled && limit == 0)
        VF_CHECK(!reach, "missed-path", "%s: goal is reachable at cost %f", where.c_str(), gd);
      if (best)
      {
        vf::count("best partial checked");
        const std::string bad = pr.validPath(path);
        VF_CHECK(bad.empty(), "best-partial-path", "%s: %s", where.c_str(), bad.c_str());
        if (!cancelled && limit == 0 && single && !path.empty() && !std::isfinite(gd) && !reach)
        {
          // nothing found: the best effort ends at a cell with the least integer estimate seen
          const int got = pr.m->costEstim(path.back(), pr.goal);
          int least = 1 << 30;
          for (size_t q = 0; q < pr.dist.size(); q++)
            if (std::isfinite(pr.dist[q]))
              least = std::min<int>(least, pr.m->costEstim(pr.m->at(q), pr.goal));
          VF_CHECK(got <= least + 1, "best-not-best", "%s: estimate %d, reachable %d", where.c_str(), got, least);
        }
      }
    }
  }
}
int main(int argc, char** argv)
{
  return vf::run(argc, argv, [](vf::Rng& r, long c)
                 {
    switch (c % 4)
    {
      case 0:
        return one<2, 2>(r, c);
      case 1:
        return one<3, 2>(r, c);
      case 2:
        return one<2, 0>(r, c);
      default:
        return one<3, 2>(r, c);
    } });
}
