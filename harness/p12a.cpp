// P12: the two-joint cost model never lets a move pass a lethal cell, checked against an independent walk.
#include <memory>
#include <planner_cspace/planner_2dof_serial_joints/grid_astar_model.h>
#include "vf.h"
using namespace planner_cspace;
using namespace planner_cspace::planner_2dof_serial_joints;
using Model = GridAstarModel2DoFSerialJoint;
using Vec = Model::Vec;
static int wrapS(int v, int n)
{
  v = ((v % n) + n) % n;
  return v >= n / 2 ? v - n : v;  // [n/2-n, n/2)
}
int main(int argc, char** argv)
{
  return vf::run(argc, argv, [](vf::Rng& r, long)
                 {
    const int res = r.p(0.7) ? 2 * r.i(4, 40) : r.i(8, 81);
    const int n = 2 * res;
    BlockMemGridmap<char, 2, 0, 0x40> cm;
    cm.reset(Vec(n, n));
    cm.clear(0);
    std::vector<char> ref(static_cast<size_t>(n) * n, 0);
    auto set = [&](int a, int b, char c)
    {
      for (int i = 0; i < 2; i++)
        for (int j = 0; j < 2; j++)
        {
          const int x = ((a % res) + res) % res + i * res, y = ((b % res) + res) % res + j * res;
          cm[Vec(x, y)] = c;
          ref[static_cast<size_t>(y) * n + x] = c;
        }
    };
    const int blobs = r.i(0, 12);
    for (int k = 0; k < blobs; k++)
    {
      const int x = r.i(0, res - 1), y = r.i(0, res - 1), w = r.i(0, 6), h = r.i(0, 6);
      const char c = r.p(0.6) ? 100 : r.p(0.3) ? 99 : r.i(1, 98);
      for (int i = 0; i <= w; i++)
        for (int j = 0; j <= h; j++)
          set(x + i, y + j, c);
    }
    Model::Vecf coef(static_cast<float>(r.u(0.1, 3)), static_cast<float>(r.u(0.1, 3)));
    CostCoeff cc;
    cc.weight_cost_ = r.u(0, 10);
    cc.expand_ = 0.1;
    const int range = r.i(1, std::max(1, std::min(12, res / 2 - 1)));
    Model m(coef, res, cm, cc, range);
    const std::vector<GridAstarModelBase<2, 0>::VecWithCost> starts;
    // the move set is the full square
    const auto& sl = m.searchGrids(Vec(0, 0), starts, Vec(0, 0));
    {
      std::set<std::pair<int, int>> have;
      for (auto& v : sl)
        have.insert({v[0], v[1]});
      long miss = 0, far = 0;
      for (int x = -1; x <= 1; x++)
        for (int y = -1; y <= 1; y++)
          if ((x || y) && !have.count({x, y}))
            miss++;
      for (auto& h : have)
        far += std::abs(h.first) > range || std::abs(h.second) > range;
      VF_CHECK(!miss, "moves:unit", "res %d range %d: %ld unit moves are not offered", res, range, miss);
      VF_CHECK(!far, "moves:range", "res %d range %d: %ld moves beyond the range", res, range, far);
    }
    long ok = 0, bad = 0;
    for (int q = 0; q < 400; q++)
    {
      const Vec cur(r.i(0, n - 1), r.i(0, n - 1));
      Vec next = r.p(0.7) ? Vec(cur[0] + r.i(-range, range), cur[1] + r.i(-range, range)) : Vec(r.i(0, n - 1), r.i(0, n - 1));
      const float c = m.cost(cur, next, starts, next);
      vf::evaluated();
      const bool in = next[0] >= 0 && next[1] >= 0 && next[0] < n && next[1] < n;
      if (!in)
      {
        VF_CHECK(c < 0, "cost:outside", "res %d (%d,%d)->(%d,%d) leaves the angle range but costs %f", res, cur[0], cur[1], next[0], next[1], c);
        vf::count("moves out of range");
        continue;
      }
      const int d0 = wrapS(next[0] - cur[0], res), d1 = wrapS(next[1] - cur[1], res);
      const double len = std::hypot(d0, d1);
      const int steps = static_cast<int>(len + 1e-9);
      double lo = 0, hi = 0;
      bool must = false, may = false;
      for (int i = 0; i < steps; i++)
      {
        // candidates: the nearest cells, both when the sample lies between two
        const double x = cur[0] + static_cast<double>(d0) * i / steps, y = cur[1] + static_cast<double>(d1) * i / steps;
        int mn = 1000, mx = -1;
        for (double ex : {-1e-3, 1e-3})
          for (double ey : {-1e-3, 1e-3})
          {
            int gx = static_cast<int>(std::lround(x + ex)), gy = static_cast<int>(std::lround(y + ey));
            gx = ((gx % res) + res) % res;
            gy = ((gy % res) + res) % res;
            const int v = ref[static_cast<size_t>(gy) * n + gx];
            mn = std::min(mn, v);
            mx = std::max(mx, v);
          }
        must |= mn > 99;
        may |= mx > 99;
        lo += mn;
        hi += mx;
      }
      const double e = std::abs(coef[0] * d0) + std::abs(coef[1] * d1);
      const double wl = e + lo * cc.weight_cost_ / 100, wh = e + hi * cc.weight_cost_ / 100;
      if (must)
      {
        VF_CHECK(c < 0, "cost:collision", "res %d (%d,%d)->(%d,%d) passes a lethal cell but costs %f", res, cur[0], cur[1], next[0], next[1], c);
        vf::count("moves in collision");
        bad++;
      }
      else if (may)
      {
        vf::count("moves not judged");
      }
      else
      {
        const double tol = 1e-4 * (1 + wh);
        VF_CHECK(c >= wl - tol && c <= wh + tol, "cost:value", "res %d (%d,%d)->(%d,%d) costs %f, expected %f..%f", res, cur[0],
                 cur[1], next[0], next[1], c, wl, wh);
        vf::count("free moves");
        ok++;
      }
      const float est = m.costEstim(cur, next);
      const double un = std::abs(coef[0] * (next[0] - cur[0])) + std::abs(coef[1] * (next[1] - cur[1]));
      VF_CHECK(est <= un * 1.0001 + 1e-4, "estimate", "res %d (%d,%d)->(%d,%d) is estimated %f, above the least possible %f", res, cur[0],
               cur[1], next[0], next[1], est, un);
    }
    if (ok > 20 && bad > 20)
      vf::nontrivial(vf::hashAdd(vf::hashAdd(vf::hashBytes(ref.data(), ref.size()), range), coef[0])); });
}
