// Brute-force reference of the configuration-space cost of one obstacle, in double arithmetic.
#ifndef CS_REF_H
#define CS_REF_H
#include <cmath>
#include <vector>
#include <algorithm>
struct RefShape
{
  std::vector<std::pair<double, double>> v;  // not closed
  double expand = 0, spread = 0;
  int min_cost = 0;
  bool plain = false;
  double radius() const
  {
    double r = 0;
    for (auto& p : v)
      r = std::max(r, std::hypot(p.first, p.second));
    return r;
  }
  // distance to the boundary, inside flag
  double boundary(double px, double py, bool& in) const
  {
    double best = 1e300;
    int cn = 0;
    const size_t n = v.size();
    for (size_t i = 0; i < n; i++)
    {
      const double ax = v[i].first, ay = v[i].second, bx = v[(i + 1) % n].first, by = v[(i + 1) % n].second;
      const double l2 = (bx - ax) * (bx - ax) + (by - ay) * (by - ay);
      double t = l2 > 0 ? ((px - ax) * (bx - ax) + (py - ay) * (by - ay)) / l2 : 0;
      t = std::min(1.0, std::max(0.0, t));
      best = std::min(best, std::hypot(ax + t * (bx - ax) - px, ay + t * (by - ay) - py));
      if ((ay <= py) != (by <= py))
      {
        const double x = ax + (bx - ax) * (py - ay) / (by - ay);
        if (px < x)
          cn++;
      }
    }
    in = cn & 1;
    return best;
  }
  // lowest and highest admissible cost of an obstacle (value 100) seen at robot frame position px, py
  void range(double px, double py, double res, double& lo, double& hi) const
  {
    if (plain && expand == 0 && spread == 0)
    {
      lo = hi = (std::hypot(px, py) < res * 0.5) ? 100 : 0;
      return;
    }
    bool in;
    const double d = plain ? std::hypot(px, py) : boundary(px, py, in);
    if (plain)
      in = d < res * 0.5;
    const double eps = 1e-4 * std::max(1.0, radius() + std::hypot(px, py));
    const double sd = in ? -d : d;
    auto cost = [&](double s, double slack)
    {
      if (s <= 0 || s < expand)
        return 100.0;
      if (s < expand + spread)
        return std::max<double>(min_cost, std::min(100.0, 100 - (s - expand) * (100 - min_cost) / spread + slack));
      return 0.0;
    };
    lo = cost(sd + eps, -1.01);
    hi = cost(sd - eps, 0.01);
    if (std::abs(sd - expand - spread) < res * 0.011 + eps)
      hi = std::max(hi, min_cost + 1.0);
    if (plain && in)
      lo = hi = 100;
    if (lo < 0)
      lo = 0;
  }
};
struct RefTemplate
{
  int rmax, ang;
  std::vector<float> lo, hi;
  void build(const RefShape& s, double res, int angles)
  {
    ang = angles;
    rmax = static_cast<int>(std::ceil((s.radius() + s.expand + s.spread) / res)) + 1;
    const int w = 2 * rmax + 1;
    lo.assign(static_cast<size_t>(w) * w * ang, 0);
    hi = lo;
    for (int a = 0; a < ang; a++)
    {
      const double th = 2 * M_PI * a / ang, c = std::cos(th), sn = std::sin(th);
      for (int y = -rmax; y <= rmax; y++)
        for (int x = -rmax; x <= rmax; x++)
        {
          // robot at offset (x, y) from the obstacle
          const double ox = -x * res, oy = -y * res;
          double l, h;
          s.range(c * ox + sn * oy, -sn * ox + c * oy, res, l, h);
          const size_t i = (static_cast<size_t>(a) * w + y + rmax) * w + x + rmax;
          lo[i] = l;
          hi[i] = h;
        }
    }
  }
  void at(int dx, int dy, int a, double& l, double& h) const
  {
    if (std::abs(dx) > rmax || std::abs(dy) > rmax)
    {
      l = h = 0;
      return;
    }
    const int w = 2 * rmax + 1;
    const size_t i = (static_cast<size_t>(a) * w + dy + rmax) * w + dx + rmax;
    l = lo[i];
    h = hi[i];
  }
};
#endif
