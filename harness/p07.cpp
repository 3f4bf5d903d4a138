// P07: remembered obstacles against a direct model of the Bayes update
#include "vf.h"
#include <planner_cspace/bbf.h>
#include <planner_cspace/blockmem_gridmap.h>
#include <planner_cspace/planner_3d/costmap_bbf.h>
using namespace planner_cspace;
using namespace planner_cspace::planner_3d;
typedef CostmapBBF::Vec Vec;
static const double LO = 0.1 / 0.9, HI = 0.9 / 0.1;

static double stepOdds(double o, double f)
{
  return std::min(HI, std::max(LO, o * f));
}
static bool near(double a, double b, double rel = 2e-5)
{
  return std::fabs(a - b) <= rel * std::max(1e-3, std::max(std::fabs(a), std::fabs(b)));
}

static void filterCase(vf::Rng& r)
{
  const float init = std::exp(r.u(-2, 2));
  bbf::BinaryBayesFilter f(init);
  VF_CHECK(near(f.get(), init), "bbf initial odds", "%g", init);
  double cur = f.get();
  for (int i = 0; i < 60; i++)
  {
    const double pr = r.u(0.01, 0.99);
    const float odds = r.p(0.2) ? std::exp(r.u(-12, 12)) : bbf::probabilityToOdds(static_cast<float>(pr));
    const double ex = stepOdds(cur, odds);
    const float got = f.update(odds);
    VF_CHECK(near(got, ex), "bbf update", "odds %g times %g gives %g, expected %g", cur, odds, got, ex);
    VF_CHECK(got == f.get(), "bbf get", "update returned %g, get %g", got, f.get());
    VF_CHECK(got >= LO * (1 - 1e-5) && got <= HI * (1 + 1e-5), "bbf bounds", "odds %g", got);
    VF_CHECK(near(f.getProbability(), got / (1.0 + got)), "bbf probability", "odds %g prob %g", got, f.getProbability());
    VF_CHECK(std::fabs(f.getNormalizedProbability() - (got / (1.0 + got) - 0.1) / 0.8) < 1e-4, "bbf normalized", "odds %g -> %g", got,
             f.getNormalizedProbability());
    VF_CHECK(near(bbf::oddsToProbability(bbf::probabilityToOdds(static_cast<float>(pr))), pr, 1e-4), "odds round trip", "%g", pr);
    cur = got;
    vf::evaluated(5);
  }
  vf::count("filter updates", 60);
}

static void mapCase(vf::Rng& r)
{
  CostmapBBFImpl b;
  CostmapBBFNoOp no;
  BlockMemGridmap<char, 3, 2> cm;
  int w = 0, h = 0, yaws = 1;
  std::vector<double> odds;
  std::vector<int> cost;  // what getCost must return
  std::vector<char> obs;
  uint64_t sig = 1;
  int remembered = 0, hits = 0;
  auto read = [&]()
  {
    std::vector<double> v(w * h, -1);
    long n = 0;
    b.forEach([&](const Vec& p, bbf::BinaryBayesFilter& f)
              {
                n++;
                if (p[0] < 0 || p[1] < 0 || p[0] >= w || p[1] >= h)
                  vf::violation("forEach out of map", vf::fmt("%d,%d of %dx%d", p[0], p[1], w, h));
                else
                  v[p[1] * w + p[0]] = f.get();
              });
    VF_CHECK(n == static_cast<long>(w) * h, "forEach count", "%ld visits of %dx%d cells", n, w, h);
    return v;
  };
  auto compare = [&](const char* what)
  {
    const std::vector<double> v = read();
    for (int i = 0; i < w * h; i++)
    {
      if (!near(v[i], odds[i]))
      {
        vf::violation(std::string("odds after ") + what, vf::fmt("cell %d,%d has %g, expected %g (map %dx%d)", i % w, i / w, v[i], odds[i], w, h));
        break;
      }
    }
    odds = v;
    for (int i = 0; i < w * h; i++)
    {
      const int c = b.getCost(Vec(i % w, i / w, r.i(0, yaws - 1)));
      if (c != cost[i])
      {
        vf::violation(std::string("cost after ") + what, vf::fmt("cell %d,%d has %d, expected %d (map %dx%d)", i % w, i / w, c, cost[i], w, h));
        break;
      }
    }
    vf::evaluated(2L * w * h);
  };
  auto resize = [&]()
  {
    w = r.i(1, r.p(0.3) ? 150 : 40);
    h = r.i(1, r.p(0.3) ? 150 : 40);
    yaws = r.i(1, 4);
    b.reset(Vec(w, h, yaws));
    no.reset(Vec(w, h, yaws));
    cm.reset(Vec(w, h, yaws));
    odds.assign(w * h, LO);
    cost.assign(w * h, 0);
    compare("reset");
  };
  resize();
  const int ops = r.i(5, 25);
  for (int o = 0; o < ops; o++)
  {
    const double k = r.u();
    sig = vf::mix(sig ^ static_cast<uint64_t>(k * 1e9));
    if (k < 0.6)
    {
      obs.assign(w * h, 0);
      const double po = r.u(0, 0.5), pu = r.u(0, 0.3);
      for (int y = 0; y < h; y++)
        for (int x = 0; x < w; x++)
        {
          const double u = r.u();
          const int c = u < po ? 100 : u < po + pu ? -1 : r.pick({0, 0, 1, 50, 99, r.i(0, 99)});
          obs[y * w + x] = c;
          cm[Vec(x, y, 0)] = c;
          for (int a = 1; a < yaws; a++)
            cm[Vec(x, y, a)] = r.i(-1, 100);
        }
      const Vec c = r.p(0.7) ? Vec(r.i(0, w - 1), r.i(0, h - 1), 0) : Vec(r.i(-30, w + 30), r.i(-30, h + 30), r.i(0, yaws - 1));
      const int rmax = r.i(0, r.p(0.3) ? 60 : 15), rmin = r.i(0, r.p(0.1) ? 20 : 5);
      const float ho = bbf::probabilityToOdds(static_cast<float>(r.u(0.5, 0.99))), mo = bbf::probabilityToOdds(static_cast<float>(r.u(0.01, 0.5)));
      b.remember(&cm, c, ho, mo, rmin, rmax);
      no.remember(&cm, c, ho, mo, rmin, rmax);
      for (int y = 0; y < h; y++)
        for (int x = 0; x < w; x++)
        {
          const int64_t dx = x - c[0], dy = y - c[1], d2 = dx * dx + dy * dy;
          const int v = obs[y * w + x];
          if (d2 > static_cast<int64_t>(rmax) * rmax || v < 0)
            continue;
          if (v == 100)
          {
            if (d2 < static_cast<int64_t>(rmin) * rmin)
              continue;
            odds[y * w + x] = stepOdds(odds[y * w + x], ho);
            hits++;
          }
          else
            odds[y * w + x] = stepOdds(odds[y * w + x], mo);
          remembered++;
        }
      compare("remember");
      vf::count("observations");
    }
    else if (k < 0.85)
    {
      b.updateCostmap();
      for (int i = 0; i < w * h; i++)
      {
        const double n = (odds[i] / (1.0 + odds[i]) - 0.1) / 0.8 * 100;
        const int got = b.getCost(Vec(i % w, i / w, 0));
        // rounding boundary may fall either way in float
        cost[i] = std::fabs(n - std::floor(n) - 0.5) < 1e-3 && std::abs(got - n) < 0.51 ? got : static_cast<int>(std::lround(n));
      }
      compare("updateCostmap");
      vf::count("cost updates");
    }
    else if (k < 0.93)
    {
      b.clear();
      odds.assign(w * h, LO);
      cost.assign(w * h, 0);
      compare("clear");
      vf::count("clears");
    }
    else
      resize();
    const Vec p(r.i(0, w - 1), r.i(0, h - 1), 0);
    VF_CHECK(no.getCost(p) == 0, "no-op cost", "not 0");
  }
  vf::count("cells observed", remembered);
  vf::count("cells hit", hits);
  if (remembered > 10)
    vf::nontrivial(sig);
}

int main(int argc, char** argv)
{
  return vf::run(argc, argv, [](vf::Rng& r, long)
                 {
                   filterCase(r);
                   mapCase(r); });
}
