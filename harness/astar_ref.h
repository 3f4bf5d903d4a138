// Random search problems for GridAstar and their reference solution.
#ifndef ASTAR_REF_H
#define ASTAR_REF_H
#include <functional>
#include <list>
#include <memory>
#include <queue>
#include <planner_cspace/grid_astar.h>
#include "vf.h"

template <int DIM, int NONCYCLIC>
struct RandModel : public planner_cspace::GridAstarModelBase<DIM, NONCYCLIC>
{
  using Base = planner_cspace::GridAstarModelBase<DIM, NONCYCLIC>;
  using Vec = typename Base::Vec;
  using VecWithCost = typename Base::VecWithCost;
  Vec size;
  std::vector<Vec> moves, moves_b;
  int R = 1;
  bool two_lists = false;
  float kest = 0;
  float extra = 0;
  std::vector<int> cell;   // 0 free .. 7 weight, -1 blocked (cost -1), -2 blocked (max), -3 not estimable
  uint64_t salt = 0;
  double forbid = 0;
  bool asym = false;

  size_t idx(const Vec& v) const
  {
    size_t a = 0;
    for (int i = 0; i < DIM; i++)
      a = a * size[i] + v[i];
    return a;
  }
  size_t total() const
  {
    size_t a = 1;
    for (int i = 0; i < DIM; i++)
      a *= size[i];
    return a;
  }
  Vec at(size_t k) const
  {
    Vec v;
    for (int i = DIM - 1; i >= 0; i--)
    {
      v[i] = k % size[i];
      k /= size[i];
    }
    return v;
  }
  bool wrap(Vec& v) const
  {
    for (int i = 0; i < DIM; i++)
    {
      if (i < NONCYCLIC)
      {
        if (v[i] < 0 || v[i] >= size[i])
          return false;
      }
      else
        v[i] = ((v[i] % size[i]) + size[i]) % size[i];
    }
    return true;
  }
  int cheb(const Vec& a, const Vec& b) const
  {
    int m = 0;
    for (int i = 0; i < DIM; i++)
    {
      int d = std::abs(a[i] - b[i]);
      if (i >= NONCYCLIC)
        d = std::min(d, size[i] - d);
      m = std::max(m, d);
    }
    return m;
  }
  float edge(const Vec& a, const Vec& b) const
  {
    const int c = cell[idx(b)];
    if (c == -1)
      return -1;
    if (c == -2)
      return std::numeric_limits<float>::max();
    uint64_t h = vf::mix(salt ^ (idx(a) * 1000003 + idx(b)));
    if (!asym)
      h = vf::mix(salt ^ (std::min(idx(a), idx(b)) * 1000003 + std::max(idx(a), idx(b))));
    if (forbid > 0 && (h & 0xffff) < forbid * 65536)
      return -1;
    // multiples of 1/8: float sums are exact
    return 1.0f + extra + c * 0.5f + ((h >> 20) & 7) * 0.125f;
  }
  float cost(const Vec& cur, const Vec& next, const std::vector<VecWithCost>&, const Vec&) const override
  {
    return edge(cur, next);
  }
  float costEstim(const Vec& cur, const Vec& goal) const override
  {
    if (cell[idx(cur)] == -3)
      return (salt & 1) ? -1 : std::numeric_limits<float>::max();
    return kest * ((cheb(cur, goal) + R - 1) / R);
  }
  const std::vector<Vec>& searchGrids(const Vec& cur, const std::vector<VecWithCost>&, const Vec&) const override
  {
    return two_lists && ((cur[0] + cur[1]) & 1) ? moves_b : moves;
  }
  // the set of moves allowed from a
  bool allowed(const Vec& a, const Vec& b) const
  {
    bool in = false;
    for (const Vec& d : searchGrids(a, {}, b))
    {
      Vec n = a + d;
      if (wrap(n) && n == b)
        in = true;
    }
    if (!in)
      return false;
    const int c = cell[idx(b)];
    if (c == -3)
      return false;
    const float e = edge(a, b);
    return e >= 0 && e != std::numeric_limits<float>::max();
  }
};

template <int DIM, int NONCYCLIC>
struct Problem
{
  using Model = RandModel<DIM, NONCYCLIC>;
  using Vec = typename Model::Vec;
  using VecWithCost = typename Model::VecWithCost;
  std::shared_ptr<Model> m;
  std::vector<VecWithCost> starts;
  Vec goal;
  std::vector<double> dist;

  void gen(vf::Rng& r, int maxw)
  {
    m = std::make_shared<Model>();
    for (int i = 0; i < DIM; i++)
      m->size[i] = i < NONCYCLIC ? r.i(1, maxw) : r.i(1, 8);
    if (NONCYCLIC == 0)
      for (int i = 0; i < DIM; i++)
        m->size[i] = r.i(2, maxw);
    m->R = r.i(1, 3);
    auto mk = [&](std::vector<Vec>& mv)
    {
      if (r.p(0.5))
      {
        std::function<void(int, Vec)> rec = [&](int i, Vec v)
        {
          if (i == DIM)
          {
            if (!(v == Vec()))
              mv.push_back(v);
            return;
          }
          for (int d = -1; d <= 1; d++)
          {
            Vec w = v;
            w[i] = d;
            rec(i + 1, w);
          }
        };
        rec(0, Vec());
      }
      else
      {
        const int n = r.i(1, 14);
        for (int k = 0; k < n; k++)
        {
          Vec v;
          for (int i = 0; i < DIM; i++)
            v[i] = r.i(-m->R, m->R);
          if (!(v == Vec()))
            mv.push_back(v);
        }
        if (mv.empty())
        {
          Vec v;
          v[0] = 1;
          mv.push_back(v);
        }
      }
    };
    mk(m->moves);
    m->two_lists = r.p(0.3);
    if (m->two_lists)
      mk(m->moves_b);
    m->extra = r.pick({0.0f, 0.0f, 1.0f, 3.5f});
    m->kest = r.pick({0.0f, 1.0f, 1.0f, 1.0f, 0.5f}) * (1.0f + m->extra);
    m->salt = r.next();
    m->forbid = r.pick({0.0, 0.0, 0.1, 0.4});
    m->asym = r.p(0.4);
    m->cell.resize(m->total());
    const int style = r.i(0, 4);
    const double dens = r.pick({0.0, 0.1, 0.3, 0.45});
    for (size_t k = 0; k < m->cell.size(); k++)
    {
      m->cell[k] = style == 0 ? 0 : r.i(0, 7);
      if (r.p(dens))
        m->cell[k] = -r.i(1, 3);
    }
    if (style == 4)
    {
      // a wall with at most one gap
      const int y = r.i(0, m->size[1] - 1), gap = r.i(-1, m->size[0] - 1);
      for (size_t k = 0; k < m->cell.size(); k++)
        if (m->at(k)[1] == y && m->at(k)[0] != gap)
          m->cell[k] = -1;
    }
    goal = m->at(r.next() % m->cell.size());
    if (m->cell[m->idx(goal)] == -3)
      m->cell[m->idx(goal)] = 0;
    const int ns = r.p(0.6) ? 1 : r.i(1, 5);
    starts.clear();
    for (int k = 0; k < ns; k++)
    {
      Vec s = m->at(r.next() % m->cell.size());
      if (s == goal || m->cell[m->idx(s)] == -3)
        continue;
      bool dup = false;
      for (auto& o : starts)
        dup |= o.v_ == s;
      if (!dup)
        starts.emplace_back(s, r.p(0.5) ? 0.0f : r.i(0, 40) * 0.125f);
    }
  }
  void solve()
  {
    const double inf = std::numeric_limits<double>::infinity();
    dist.assign(m->total(), inf);
    using Q = std::pair<double, size_t>;
    std::priority_queue<Q, std::vector<Q>, std::greater<Q>> q;
    for (auto& s : starts)
      if (s.c_ < dist[m->idx(s.v_)])
      {
        dist[m->idx(s.v_)] = s.c_;
        q.push({s.c_, m->idx(s.v_)});
      }
    while (!q.empty())
    {
      auto [d, k] = q.top();
      q.pop();
      if (d > dist[k])
        continue;
      const Vec a = m->at(k);
      for (const Vec& mv : m->searchGrids(a, {}, goal))
      {
        Vec b = a + mv;
        if (!m->wrap(b) || m->cell[m->idx(b)] == -3)
          continue;
        const float e = m->edge(a, b);
        if (e < 0 || e == std::numeric_limits<float>::max())
          continue;
        if (d + e < dist[m->idx(b)])
        {
          dist[m->idx(b)] = d + e;
          q.push({d + e, m->idx(b)});
        }
      }
    }
  }
  bool isStart(const Vec& v) const
  {
    for (auto& s : starts)
      if (s.v_ == v)
        return true;
    return false;
  }
  // "" when the path consists of allowed moves from a start
  std::string validPath(const std::list<Vec>& p) const
  {
    if (p.empty())
      return "empty";
    for (const Vec& v : p)
    {
      Vec w = v;
      if (!m->wrap(w) || !(w == v))
        return "cell outside the map";
    }
    if (!isStart(p.front()))
      return "does not begin at a start";
    auto it = p.begin();
    Vec prev = *it;
    for (++it; it != p.end(); ++it)
    {
      if (!m->allowed(prev, *it))
        return vf::fmt("move (%d,%d)->(%d,%d) not allowed", prev[0], prev[1], (*it)[0], (*it)[1]);
      prev = *it;
    }
    return "";
  }
  double costOf(const std::list<Vec>& p) const
  {
    auto it = p.begin();
    Vec prev = *it;
    double c = 0;
    for (++it; it != p.end(); ++it)
    {
      c += m->edge(prev, *it);
      prev = *it;
    }
    return c;
  }
};
#endif
