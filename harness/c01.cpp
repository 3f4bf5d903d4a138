// C01: configuration-space cost against a brute-force footprint placement.
#include "vf.h"
#include "cs_ref.h"
#include <ros/ros.h>
#include <costmap_cspace/costmap_3d.h>
using namespace costmap_cspace;

static Polygon toPolygon(const RefShape& s)
{
  Polygon p;
  for (auto& v : s.v)
  {
    Vec a;
    a[0] = v.first;
    a[1] = v.second;
    p.v.push_back(a);
  }
  p.v.push_back(p.v.front());
  return p;
}
static RefShape randomShape(vf::Rng& r, double res)
{
  RefShape s;
  const double k = r.u(1, 6) * res;
  double ox = 0, oy = 0;
  const int t = r.i(0, 6);
  if (t == 0)  // axis-aligned rectangle around the origin
  {
    const double a = k, b = r.u(0.15, 1) * k;
    s.v = {{a, b}, {-a, b}, {-a, -b}, {a, -b}};
  }
  else if (t == 1)  // elongated, origin at one end
  {
    const double a = r.u(2, 6) * res, b = r.u(0.3, 1.2) * res;
    s.v = {{a, b}, {-0.2 * a, b}, {-0.2 * a, -b}, {a, -b}};
  }
  else if (t == 2)  // convex polygon
  {
    const int n = r.i(3, 9);
    const double ph = r.u(0, 7);
    for (int i = 0; i < n; i++)
      s.v.push_back({k * std::cos(ph + 2 * M_PI * i / n), r.u(0.9, 1) * k * std::sin(ph + 2 * M_PI * i / n)});
  }
  else if (t == 3)  // L shape
  {
    const double a = k, b = 0.35 * k;
    s.v = {{-b, -b}, {a, -b}, {a, b}, {b, b}, {b, a}, {-b, a}};
  }
  else if (t == 4)  // origin outside
  {
    const double a = k;
    ox = r.u(1.2, 2) * a;
    s.v = {{a, a}, {-a, a}, {-a, -a}, {a, -a}};
  }
  else if (t == 5)  // star shaped, random radii
  {
    const int n = r.i(4, 9);
    for (int i = 0; i < n; i++)
    {
      const double q = k * r.u(0.4, 1), th = 2 * M_PI * (i + r.u(0, 0.6)) / n;
      s.v.push_back({q * std::cos(th), q * std::sin(th)});
    }
  }
  else  // smaller than a cell
  {
    const double a = r.u(0.05, 0.45) * res;
    s.v = {{a, a}, {-a, a}, {-a, -a}, {a, -a}};
  }
  for (auto& p : s.v)
  {
    // the footprint is single precision
    p.first = static_cast<float>(p.first + ox);
    p.second = static_cast<float>(p.second + oy);
  }
  if (r.p(0.3))
    std::reverse(s.v.begin(), s.v.end());
  return s;
}
static nav_msgs::OccupancyGrid::Ptr randomMap(vf::Rng& r, int w, int h, double res, double x0, double y0, bool levels)
{
  nav_msgs::OccupancyGrid::Ptr m(new nav_msgs::OccupancyGrid);
  m->header.frame_id = "map";
  m->info.width = w;
  m->info.height = h;
  m->info.resolution = res;
  m->info.origin.position.x = x0;
  m->info.origin.position.y = y0;
  m->info.origin.orientation.w = 1;
  m->data.assign(w * h, 0);
  const double pu = r.p(0.4) ? r.u(0, 0.4) : 0;
  for (auto& c : m->data)
    if (r.p(pu))
      c = -1;
  auto val = [&]() -> int8_t
  {
    return levels && r.p(0.5) ? r.i(1, 100) : 100;
  };
  const int k = r.i(0, 6);
  for (int i = 0; i < k; i++)
  {
    const int x = r.i(0, w - 1), y = r.i(0, h - 1), t = r.i(0, 3);
    const int8_t v = val();
    const int lx = t == 0 ? 1 : t == 1 ? r.i(2, w) : t == 2 ? 1 : r.i(2, 6);
    const int ly = t == 0 ? 1 : t == 1 ? 1 : t == 2 ? r.i(2, h) : r.i(2, 6);
    for (int b = y; b < std::min(h, y + ly); b++)
      for (int a = x; a < std::min(w, x + lx); a++)
        m->data[b * w + a] = v;
  }
  if (r.p(0.2))
    for (auto& c : m->data)
      if (r.p(0.05))
        c = val();
  return m;
}
struct Bounds
{
  std::vector<float> lo, hi;
};
static void stamp(Bounds& b, const RefTemplate& t, int w, int h, const nav_msgs::OccupancyGrid& m, int ox, int oy)
{
  const int mw = m.info.width, mh = m.info.height;
  for (int y = 0; y < mh; y++)
    for (int x = 0; x < mw; x++)
    {
      const int v = m.data[y * mw + x];
      if (v <= 0)
        continue;
      const int gx = x + ox, gy = y + oy;
      if (gx < 0 || gy < 0 || gx >= w || gy >= h)
        continue;
      // an obstacle cell which the footprint placed on it does not cover stays unknown
      for (int a = 0; a < t.ang; a++)
      {
        float& l = b.lo[(static_cast<size_t>(a) * h + gy) * w + gx];
        if (l == 0)
          l = -1;
      }
      for (int a = 0; a < t.ang; a++)
        for (int dy = -t.rmax; dy <= t.rmax; dy++)
          for (int dx = -t.rmax; dx <= t.rmax; dx++)
          {
            const int cx = gx + dx, cy = gy + dy;
            if (cx < 0 || cy < 0 || cx >= w || cy >= h)
              continue;
            double l, u;
            t.at(dx, dy, a, l, u);
            const size_t i = (static_cast<size_t>(a) * h + cy) * w + cx;
            if (l > 0 && l * v >= 100)
              b.lo[i] = std::max<float>(b.lo[i], std::floor(l) * v / 100 - 0.999);
            if (u > 0)
              b.hi[i] = std::max<float>(b.hi[i], u * v / 100);
          }
    }
}
static const char* shapeText(const RefShape& s, int ang)
{
  static std::string t;
  t = "footprint";
  char b[80];
  for (auto& p : s.v)
    snprintf(b, 80, " (%.4f,%.4f)", p.first, p.second), t += b;
  snprintf(b, 80, " expand %.3f spread %.3f min %d angles %d", s.expand, s.spread, s.min_cost, ang);
  t += b;
  return t.c_str();
}
static void body(vf::Rng& r, long)
{
  const double res = static_cast<float>(r.pick(std::vector<double>{0.05, 0.1, 0.1, 0.25, 1.0}));
  const int ang = r.pick(std::vector<int>{1, 2, 4, 5, 8, 12, 16});
  const bool plain = r.p(0.15);
  RefShape s;
  if (plain)
  {
    s.v = {{0, 0}};
    s.plain = true;
  }
  else
    s = randomShape(r, res);
  s.expand = r.p(0.3) ? 0 : static_cast<float>(r.u(0, 3) * res);
  s.spread = r.p(0.3) ? 0 : static_cast<float>(r.u(0.1, 5) * res);
  s.min_cost = r.p(0.6) ? 0 : r.i(1, 99);
  const int w = r.i(1, 28), h = r.i(1, 28);
  const double x0 = r.p(0.5) ? 0 : r.i(-50, 50) * res, y0 = r.p(0.5) ? 0 : r.i(-50, 50) * res;
  const auto base = randomMap(r, w, h, res, x0, y0, r.p(0.5));
  RefTemplate t;
  t.build(s, res, ang);

  Costmap3d cm(ang);
  Costmap3dLayerFootprint::Ptr root, over;
  if (plain)
    root = cm.addRootLayer<Costmap3dLayerPlain>();
  else
  {
    root = cm.addRootLayer<Costmap3dLayerFootprint>();
    root->setFootprint(toPolygon(s));
  }
  root->setExpansion(s.expand, s.spread, s.min_cost);
  over = plain ? cm.addLayer<Costmap3dLayerPlain>() : cm.addLayer<Costmap3dLayerFootprint>();
  if (!plain)
    over->setFootprint(toPolygon(s));
  over->setExpansion(s.expand, s.spread, s.min_cost);
  const int maps = r.i(1, 2);
  nav_msgs::OccupancyGrid::ConstPtr b = base;
  int lethal = 0, spread = 0;
  auto judge = [&](const CSpace3DMsg::Ptr m, const Bounds& bd, const char* what, int rx, int ry, int rw, int rh, const std::vector<char>& unknown)
  {
    for (int a = 0; a < ang; a++)
      for (int y = std::max(0, ry); y < std::min<int>(m->info.height, ry + rh); y++)
        for (int x = std::max(0, rx); x < std::min<int>(m->info.width, rx + rw); x++)
        {
          const int c = m->data[m->address(x, y, a)];
          const size_t i = (static_cast<size_t>(a) * m->info.height + y) * m->info.width + x;
          vf::evaluated(1);
          if (unknown[y * m->info.width + x])
          {
            VF_CHECK(c == -1, std::string(what) + ":unknown", "cell %d %d of unknown state has cost %d; %s", x, y, c, shapeText(s, ang));
            continue;
          }
          VF_CHECK(c >= bd.lo[i], std::string(what) + ":missing", "cell %d %d heading %d of %d has cost %d, placing the footprint gives at least %.1f; %s, res %.3f map %ux%u",
                   x, y, a, ang, c, bd.lo[i], shapeText(s, ang), res, m->info.width, m->info.height);
          VF_CHECK(c <= std::max(0.f, bd.hi[i]), std::string(what) + ":excess", "cell %d %d heading %d of %d has cost %d, placing the footprint gives at most %.1f; %s, res %.3f",
                   x, y, a, ang, c, bd.hi[i], shapeText(s, ang), res);
          if (c >= 100)
            lethal++;
          else if (c > 0)
            spread++;
        }
  };
  for (int k = 0; k < maps; k++)
  {
    if (k)
      b = randomMap(r, r.i(1, 28), r.i(1, 28), res, x0, y0, r.p(0.5));
    const int mw = b->info.width, mh = b->info.height;
    root->setBaseMap(b);
    const auto m = root->getMap();
    VF_CHECK(m->info.width == b->info.width && m->info.height == b->info.height && m->info.angle == static_cast<unsigned>(ang) &&
                 m->data.size() == static_cast<size_t>(mw) * mh * ang,
             "base:size", "map size differs");
    Bounds bd;
    bd.lo.assign(static_cast<size_t>(mw) * mh * ang, 0);
    bd.hi = bd.lo;
    stamp(bd, t, mw, mh, *b, 0, 0);
    std::vector<char> unknown(mw * mh);
    for (int i = 0; i < mw * mh; i++)
      unknown[i] = b->data[i] < 0;
    judge(m, bd, "base", 0, 0, mw, mh, unknown);
    // overlays at the same resolution
    const int overlays = r.i(0, 2);
    for (int q = 0; q < overlays; q++)
    {
      const bool full = r.p(0.3);
      const int ow = full ? mw : r.i(1, 20), oh = full ? mh : r.i(1, 20), ox = full ? 0 : r.i(-ow, mw), oy = full ? 0 : r.i(-oh, mh);
      const auto o = randomMap(r, ow, oh, res, x0 + ox * res, y0 + oy * res, r.p(0.5));
      over->processMapOverlay(o, true);
      Bounds od = bd;
      for (int y = 0; y < mh; y++)
        for (int x = 0; x < mw; x++)
          if (unknown[y * mw + x])
          {
            // base obstacles do not count on cells unknown to the base map
            const bool free = x >= ox && y >= oy && x < ox + ow && y < oy + oh && o->data[(y - oy) * ow + x - ox] == 0;
            for (int a = 0; a < ang; a++)
              od.lo[(static_cast<size_t>(a) * mh + y) * mw + x] = free ? 0 : -1;
          }
      stamp(od, t, mw, mh, *o, ox, oy);
      judge(over->getMapOverlay(), od, "overlay", ox, oy, ow, oh, std::vector<char>(mw * mh, 0));
      vf::count("overlays");
    }
  }
  vf::count("lethal cells", lethal);
  vf::count("graded cells", spread);
  if (lethal && (plain || s.v.size() > 2))
    vf::nontrivial(r.next());
}
int main(int argc, char** argv)
{
  return vf::run(argc, argv, body);
}
