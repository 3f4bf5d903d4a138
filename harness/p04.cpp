#include <planner_cspace/cyclic_vec.h>
#include "vf.h"
using namespace planner_cspace;

static long imod(long a, long m)
{
  long r = a % m;
  return r < 0 ? r + m : r;
}
static bool near(double a, double b, double scale)
{
  return std::abs(a - b) <= 1e-5 * (1 + scale);
}
template <int DIM, int NC>
void one(vf::Rng& r)
{
  using VI = CyclicVecInt<DIM, NC>;
  using VF = CyclicVecFloat<DIM, NC>;
  const int range = r.pick({3, 20, 500, 9000});
  auto ri = [&]()
  { VI v; for (int i = 0; i < DIM; i++) v[i] = r.i(-range, range); return v; };
  auto rf = [&]()
  { VF v; for (int i = 0; i < DIM; i++) v[i] = static_cast<float>(r.u(-range, range)); return v; };
  const VI a = ri(), b = ri(), c = ri();
  const VF fa = rf(), fb = rf(), fc = rf();
  // default and copies
  VI z;
  for (int i = 0; i < DIM; i++)
    VF_CHECK(z[i] == 0, "default-zero", "axis %d", i);
  const VI ca(a);
  VF_CHECK(ca == a && !(ca != a), "copy-equal", "copy differs");
  for (int i = 0; i < DIM; i++)
  {
    VI d = a;
    d[i] += r.p(0.5) ? 1 : -1;
    VF_CHECK(!(d == a) && d != a && !(a == d), "inequality", "axis %d", i);
    VF df = fa;
    df[i] += 1.0f;
    VF_CHECK(!(df == fa) && df != fa, "inequality-float", "axis %d", i);
  }
  VF_CHECK(a(a) == ca(ca), "hash", "equal vectors hash differently");
  // componentwise arithmetic
  const VI s = a + b, d = a - b, m = a * b;
  const VF fs = fa + fb, fd = fa - fb, fm = fa * fb;
  for (int i = 0; i < DIM; i++)
  {
    VF_CHECK(s[i] == a[i] + b[i], "add", "axis %d: %d + %d = %d", i, a[i], b[i], s[i]);
    VF_CHECK(d[i] == a[i] - b[i], "sub", "axis %d: %d - %d = %d", i, a[i], b[i], d[i]);
    VF_CHECK(m[i] == a[i] * b[i], "mul", "axis %d", i);
    VF_CHECK(fs[i] == fa[i] + fb[i], "add-float", "axis %d", i);
    VF_CHECK(fd[i] == fa[i] - fb[i], "sub-float", "axis %d", i);
    VF_CHECK(fm[i] == fa[i] * fb[i], "mul-float", "axis %d", i);
  }
  VF_CHECK(a + b == b + a && (a + b) - b == a && (a - b) + b == a && (a + b) + c == a + (b + c), "add-algebra", "group laws");
  VF_CHECK((z - a) + a == z, "negation", "(0-a)+a");
  // conversions round to nearest / keep
  const VF fia(a);
  for (int i = 0; i < DIM; i++)
    VF_CHECK(fia[i] == static_cast<float>(a[i]), "int-to-float", "axis %d", i);
  const VI ifa(fa);
  for (int i = 0; i < DIM; i++)
    VF_CHECK(std::abs(ifa[i] - static_cast<double>(fa[i])) <= 0.5 + 1e-3, "float-to-int", "%f -> %d", fa[i], ifa[i]);
  const VF mix = a + fb;
  for (int i = 0; i < DIM; i++)
    VF_CHECK(near(mix[i], a[i] + static_cast<double>(fb[i]), 2 * range), "add-mixed", "axis %d", i);
  // lengths and products
  long sq = 0;
  double fsq = 0, fn = 0, in = 0;
  for (int i = 0; i < DIM; i++)
  {
    if (i < NC)
    {
      sq += static_cast<long>(a[i]) * a[i];
      fsq += static_cast<double>(fa[i]) * fa[i];
    }
    fn += static_cast<double>(fa[i]) * fa[i];
    in += static_cast<double>(a[i]) * a[i];
  }
  VF_CHECK(a.sqlen() == sq, "sqlen", "%d instead of %ld", a.sqlen(), sq);
  VF_CHECK(near(fa.sqlen(), fsq, fsq), "sqlen-float", "%f instead of %f", fa.sqlen(), fsq);
  VF_CHECK(near(a.len(), std::sqrt(static_cast<double>(sq)), std::sqrt(sq)), "len", "%f", a.len());
  VF_CHECK(near(fa.len(), std::sqrt(fsq), std::sqrt(fsq)), "len-float", "%f", fa.len());
  VF_CHECK(near(fa.norm(), std::sqrt(fn), std::sqrt(fn)), "norm-float", "%f instead of %f", fa.norm(), std::sqrt(fn));
  VF_CHECK(near(a.norm(), std::sqrt(in), std::sqrt(in)), "norm", "%f instead of %f", a.norm(), std::sqrt(in));
  const double big = 2.0 * range * range;
  VF_CHECK(near(a.cross2d(b), static_cast<double>(a[0]) * b[1] - static_cast<double>(a[1]) * b[0], big), "cross", "%f", a.cross2d(b));
  VF_CHECK(near(fa.cross2d(fb), static_cast<double>(fa[0]) * fb[1] - static_cast<double>(fa[1]) * fb[0], big), "cross-float", "%f", fa.cross2d(fb));
  VF_CHECK(near(a.dot2d(b), static_cast<double>(a[0]) * b[0] + static_cast<double>(a[1]) * b[1], big), "dot", "%f", a.dot2d(b));
  VF_CHECK(near(fa.dot2d(fb), static_cast<double>(fa[0]) * fb[0] + static_cast<double>(fa[1]) * fb[1], big), "dot-float", "%f", fa.dot2d(fb));
  if (sq >= 1)
  {
    const double l = std::sqrt(static_cast<double>(sq));
    // an exact square may round either way before truncation only when it is not exact; ints here are exact squares or far enough
    VF_CHECK(near(a.gridToLenFactor(), static_cast<float>(l) / static_cast<int>(static_cast<float>(l)), 2), "grid-len-factor", "%f for len %f", a.gridToLenFactor(), l);
  }
  // distances to a line and a line strip
  if (NC == 2 || NC == 0)
  {
    auto distCheck = [&](auto p, auto q, auto w, const char* kind)
    {
      const double dx = q[0] - static_cast<double>(p[0]), dy = q[1] - static_cast<double>(p[1]);
      const double wx = w[0] - static_cast<double>(p[0]), wy = w[1] - static_cast<double>(p[1]);
      const double L2 = dx * dx + dy * dy;
      if (NC != 2 || L2 < 1)
        return;
      const double line = (dx * wy - dy * wx) / std::sqrt(L2);
      VF_CHECK(std::abs(w.distLine2d(p, q) - line) < 1e-4 * (1 + range), std::string("dist-line") + kind, "%f instead of %f", w.distLine2d(p, q), line);
      double t = (wx * dx + wy * dy) / L2;
      t = std::min(1.0, std::max(0.0, t));
      const double strip = std::hypot(wx - t * dx, wy - t * dy);
      VF_CHECK(std::abs(w.distLinestrip2d(p, q) - strip) < 1e-3 * (1 + range), std::string("dist-strip") + kind, "%f instead of %f", w.distLinestrip2d(p, q), strip);
      vf::count("segment distances");
    };
    distCheck(a, b, c, "");
    distCheck(fa, fb, fc, "-float");
  }
  // cyclic wrapping
  VI size;
  for (int i = 0; i < DIM; i++)
    size[i] = r.pick({1, 2, 3, 4, 5, 8, 16, 17, 64, r.i(1, 400)});
  VI u = a, g = a;
  u.cycleUnsigned(size);
  g.cycle(size);
  for (int i = 0; i < DIM; i++)
  {
    if (i < NC)
    {
      VF_CHECK(u[i] == a[i] && g[i] == a[i], "cycle-other-axis", "axis %d changed", i);
      continue;
    }
    const long res = size[i];
    VF_CHECK(u[i] == imod(a[i], res), "cycle-unsigned", "%d mod %ld = %d", a[i], res, u[i]);
    VF_CHECK(imod(g[i], res) == imod(a[i], res), "cycle-congruent", "%d mod %ld = %d", a[i], res, g[i]);
    VF_CHECK(g[i] >= res / 2 - res && g[i] < res / 2, "cycle-range", "%d mod %ld = %d", a[i], res, g[i]);
    vf::count("wraps");
  }
  VI u2 = u, g2 = g;
  u2.cycleUnsigned(size);
  g2.cycle(size);
  VF_CHECK(u2 == u && g2 == g, "cycle-idempotent", "second wrap changed the vector");
  VI uv = a, gv = a;
  if constexpr (DIM - NC == 1)
  {
    uv.cycleUnsigned(size[DIM - 1]);
    gv.cycle(size[DIM - 1]);
    VF_CHECK(uv == u && gv == g, "cycle-variadic", "list form differs");
  }
  else if constexpr (DIM - NC == 2)
  {
    uv.cycleUnsigned(size[DIM - 2], size[DIM - 1]);
    gv.cycle(size[DIM - 2], size[DIM - 1]);
    VF_CHECK(uv == u && gv == g, "cycle-variadic", "list form differs");
  }
  // range test
  {
    VI p;
    for (int i = 0; i < DIM; i++)
      p[i] = r.p(0.5) ? r.i(-2, size[i] + 1) : r.i(0, size[i] - 1);
    bool out = false;
    for (int i = 0; i < NC; i++)
      out |= p[i] < 0 || p[i] >= size[i];
    VF_CHECK(p.isExceeded(size) == out, "is-exceeded", "(%d,%d) in %dx%d", p[0], p[1], size[0], size[1]);
  }
  // rotation
  if constexpr (DIM == 3)
  {
    const float ang = static_cast<float>(r.u(-M_PI, M_PI));
    VF q = fa;
    q[2] = static_cast<float>(r.u(-M_PI, M_PI));
    const VF q0 = q;
    q.rotate(ang);
    const double cx = std::cos(static_cast<double>(ang)), sx = std::sin(static_cast<double>(ang));
    VF_CHECK(near(q[0], cx * q0[0] - sx * q0[1], 10.0 * range) && near(q[1], sx * q0[0] + cx * q0[1], 10.0 * range), "rotate-float", "(%f,%f) by %f -> (%f,%f)", q0[0], q0[1], ang, q[0], q[1]);
    VF_CHECK(std::abs(std::remainder(static_cast<double>(q[2]) - q0[2] - ang, 2 * M_PI)) < 1e-4 && std::abs(q[2]) <= M_PI + 1e-4, "rotate-angle", "%f by %f -> %f", q0[2], ang, q[2]);
    VI qi = a;
    qi.rotate(ang);
    VF_CHECK(std::abs(qi[0] - (cx * a[0] - sx * a[1])) <= 0.5 + 1e-6 * range * 10 && std::abs(qi[1] - (sx * a[0] + cx * a[1])) <= 0.5 + 1e-6 * range * 10, "rotate-int", "(%d,%d) by %f -> (%d,%d)", a[0], a[1], ang, qi[0], qi[1]);
    vf::count("rotations");
  }
  vf::evaluated();
  vf::nontrivial(vf::hashAdd(vf::hashAdd(vf::hashAdd(DIM * 10 + NC, a[0]), b[1]), fa[0]));
  vf::sample(vf::fmt("DIM %d NONCYCLIC %d a=(%d,%d) b=(%d,%d) cycle size %d: wrapped %d / %d", DIM, NC, a[0], a[1], b[0], b[1], size[DIM - 1], u[DIM - 1], g[DIM - 1]));
}
int main(int argc, char** argv)
{
  return vf::run(argc, argv, [](vf::Rng& r, long c)
                 {
    for (int k = 0; k < 50; k++)
    {
      switch (k % 4)
      {
        case 0: case 1: one<3, 2>(r); break;
        case 2: one<2, 0>(r); break;
        default: one<2, 2>(r);
      }
    } });
}
