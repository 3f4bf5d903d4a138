// C02: after any history of base maps and overlays, the cost map a subscriber of costmap_3d assembles from the
// published full map and partial updates equals the one recomputed from the latest base map and overlays.
#include "node.h"
#include <costmap_cspace/costmap_3d.h>
#include <costmap_cspace_msgs/CSpace3D.h>
#include <costmap_cspace_msgs/CSpace3DUpdate.h>
#include <nav_msgs/OccupancyGrid.h>
#include <memory>
namespace
{
using costmap_cspace::Costmap3dLayerFootprint;
using costmap_cspace::Costmap3dLayerPlain;
struct Layer
{
  enum
  {
    FOOT,
    PLAIN,
    STOP,
    UNKNOWN
  } kind;
  std::string name;
  bool overwrite = false, keep_unknown = false;
  int unknown_cost = -1;
  std::shared_ptr<Costmap3dLayerFootprint> ref;  // its template and range only
  nav_msgs::OccupancyGrid::ConstPtr overlay;
};
typedef std::vector<int> Grid;
struct Model
{
  int w = 0, h = 0, ang = 1;
  Grid lo, hi;
  size_t at(int x, int y, int a) const
  {
    return (static_cast<size_t>(a) * h + y) * w + x;
  }
};
costmap_cspace_msgs::MapMetaData3D meta(const nav_msgs::OccupancyGrid& b, int ang)
{
  costmap_cspace_msgs::MapMetaData3D m;
  m.width = b.info.width;
  m.height = b.info.height;
  m.angle = ang;
  m.linear_resolution = b.info.resolution;
  m.angular_resolution = 2.0 * M_PI / ang;
  m.origin = b.info.origin;
  return m;
}
void stampOne(const Model& m, Grid& g, Layer& l, const nav_msgs::OccupancyGrid& o, int ox, int oy, bool clip, bool clear)
{
  const int R = l.ref->getRangeMax(), ow = o.info.width, oh = o.info.height;
  const auto& t = l.ref->getTemplate();
  for (int a = 0; a < m.ang; a++)
  {
    if (clear)
      for (int y = R; y < oh - R; y++)
        for (int x = R; x < ow - R; x++)
          if (o.data[y * ow + x] >= 0 && x + ox >= 0 && y + oy >= 0 && x + ox < m.w && y + oy < m.h)
            g[m.at(x + ox, y + oy, a)] = -1;
    std::vector<size_t> unknown;
    for (int y = 0; y < oh; y++)
      for (int x = 0; x < ow; x++)
        if (o.data[y * ow + x] < 0 && x + ox >= 0 && y + oy >= 0 && x + ox < m.w && y + oy < m.h && g[m.at(x + ox, y + oy, a)] < 0)
          unknown.push_back(m.at(x + ox, y + oy, a));
    for (int y = 0; y < oh; y++)
      for (int x = 0; x < ow; x++)
      {
        const int v = o.data[y * ow + x], gx = x + ox, gy = y + oy;
        if (v < 0 || gx < 0 || gy < 0 || gx >= m.w || gy >= m.h)
          continue;
        if (v == 0)
        {
          int& c = g[m.at(gx, gy, a)];
          c = std::max(c, 0);
          continue;
        }
        for (int dy = -R; dy <= R; dy++)
          for (int dx = -R; dx <= R; dx++)
          {
            const int cx = gx + dx, cy = gy + dy;
            if (cx < 0 || cy < 0 || cx >= m.w || cy >= m.h)
              continue;
            if (clip && (cx < ox || cy < oy || cx >= ox + ow || cy >= oy + oh))
              continue;
            const int c = t.e(dx, dy, a) * v / 100;
            int& d = g[m.at(cx, cy, a)];
            if (c > 0 && d < c)
              d = c;
          }
      }
    if (l.keep_unknown)
      for (size_t i : unknown)
        g[i] = -1;
  }
}
void apply(Model& m, Layer& l, const nav_msgs::OccupancyGrid& base)
{
  if (l.kind == Layer::STOP)
  {
    m.lo.assign(m.lo.size(), -1);
    m.hi = m.lo;
  }
  else if (l.kind == Layer::UNKNOWN)
  {
    for (size_t i = 0; i < m.lo.size(); i++)
    {
      if (m.hi[i] < 0)
        m.lo[i] = m.hi[i] = l.unknown_cost;
      else if (m.lo[i] < 0)
      {
        m.lo[i] = std::min(l.unknown_cost, 0);
        m.hi[i] = std::max(l.unknown_cost, m.hi[i]);
      }
    }
  }
  else if (l.overlay && l.overlay->header.frame_id == base.header.frame_id)
  {
    const auto& o = *l.overlay;
    l.ref->setMapMetaData(meta(base, m.ang));
    const int ox = std::lround((o.info.origin.position.x - base.info.origin.position.x) / base.info.resolution);
    const int oy = std::lround((o.info.origin.position.y - base.info.origin.position.y) / base.info.resolution);
    stampOne(m, m.lo, l, o, ox, oy, false, l.overwrite);
    stampOne(m, m.hi, l, o, ox, oy, false, l.overwrite);
  }
}
Model baseModel(Layer& root, const nav_msgs::OccupancyGrid& b, int ang)
{
  Model m;
  m.w = b.info.width;
  m.h = b.info.height;
  m.ang = ang;
  m.lo.assign(static_cast<size_t>(m.w) * m.h * ang, -1);
  root.ref->setMapMetaData(meta(b, ang));
  stampOne(m, m.lo, root, b, 0, 0, false, false);
  for (int a = 0; a < ang; a++)
    for (int i = 0; i < m.w * m.h; i++)
      if (b.data[i] < 0)
        m.lo[static_cast<size_t>(a) * m.w * m.h + i] = -1;
  m.hi = m.lo;
  return m;
}
XmlRpc::XmlRpcValue footprintXml(const std::vector<std::pair<double, double>>& v)
{
  XmlRpc::XmlRpcValue x;
  for (size_t i = 0; i < v.size(); i++)
  {
    x[i][0] = v[i].first;
    x[i][1] = v[i].second;
  }
  return x;
}
std::vector<std::pair<double, double>> randomFootprint(vf::Rng& r, double res)
{
  const double a = r.u(0.3, 4) * res, b = r.u(0.3, 3) * res, o = r.p(0.3) ? r.u(-1, 1) * a : 0;
  if (r.p(0.3))
    return {{a + o, 0}, {-a + o, b}, {-a + o, -b}};
  return {{a + o, b}, {-a + o, b}, {-a + o, -b}, {a + o, -b}};
}
costmap_cspace::Polygon polygon(const std::vector<std::pair<double, double>>& v)
{
  return costmap_cspace::Polygon(footprintXml(v));
}
nav_msgs::OccupancyGrid::Ptr randomMap(vf::Rng& r, int w, int h, double res, double x0, double y0)
{
  nav_msgs::OccupancyGrid::Ptr m(new nav_msgs::OccupancyGrid);
  m->header.frame_id = "map";
  m->header.stamp = ros::Time::now();
  m->info.width = w;
  m->info.height = h;
  m->info.resolution = res;
  m->info.origin.position.x = x0;
  m->info.origin.position.y = y0;
  m->info.origin.orientation.w = 1;
  const int bg = r.p(0.3) ? -1 : 0;
  m->data.assign(w * h, bg);
  const int k = r.i(0, 5);
  for (int i = 0; i < k; i++)
  {
    const int x = r.i(0, w - 1), y = r.i(0, h - 1), lx = r.i(1, 5), ly = r.p(0.5) ? 1 : r.i(1, 5);
    const int v = r.p(0.6) ? 100 : r.p(0.4) ? -1 : r.p(0.3) ? 0 : r.i(1, 99);
    for (int b = y; b < std::min(h, y + ly); b++)
      for (int a = x; a < std::min(w, x + lx); a++)
        m->data[b * w + a] = v;
  }
  return m;
}
void body(vf::Rng& r, long)
{
  auto& core = node::core();
  core.reset();
  const double res = static_cast<float>(r.pick({0.05, 0.1, 0.25}));
  const int ang = r.pick({1, 2, 4, 6, 16});
  const std::string P = "/costmap_3d/";
  core.setParam(P + "ang_resolution", ang);
  const auto fp = randomFootprint(r, res);
  core.setParam(P + "footprint", footprintXml(fp));
  auto expansion = [&](Layer& l, double& e, double& s, int& c)
  {
    e = r.p(0.4) ? 0.0 : r.u(0, 2) * res;
    s = r.p(0.4) ? 0.0 : r.u(0.2, 3) * res;
    c = r.p(0.6) ? 0 : r.i(1, 99);
    l.ref->setExpansion(e, s, c);
  };
  Layer root;
  root.kind = Layer::FOOT;
  root.ref.reset(new Costmap3dLayerFootprint);
  root.ref->setFootprint(polygon(fp));
  double e, s;
  int c;
  expansion(root, e, s, c);
  core.setParam(P + "linear_expand", e);
  core.setParam(P + "linear_spread", s);
  if (c || r.p(0.5))
    core.setParam(P + "linear_spread_min_cost", c);
  std::vector<Layer> stat, upd;
  auto makeLayers = [&](const char* key, std::vector<Layer>& v, int n)
  {
    XmlRpc::XmlRpcValue x;
    for (int i = 0; i < n; i++)
    {
      Layer l;
      const int t = r.i(0, 9);
      l.kind = t < 5 ? Layer::FOOT : t < 7 ? Layer::PLAIN : t < 8 ? Layer::STOP : Layer::UNKNOWN;
      l.name = std::string(key) + std::to_string(i);
      XmlRpc::XmlRpcValue& q = x[i];
      q["name"] = l.name;
      l.overwrite = r.p(0.4);
      if (l.overwrite || r.p(0.5))
        q["overlay_mode"] = l.overwrite ? "overwrite" : "max";
      if (l.kind <= Layer::PLAIN)
      {
        q["type"] = l.kind == Layer::FOOT ? "Costmap3dLayerFootprint" : "Costmap3dLayerPlain";
        if (l.kind == Layer::FOOT)
          l.ref.reset(new Costmap3dLayerFootprint);
        else
          l.ref.reset(new Costmap3dLayerPlain);
        double le, ls;
        int lc;
        expansion(l, le, ls, lc);
        q["linear_expand"] = le;
        q["linear_spread"] = ls;
        if (lc || r.p(0.5))
          q["linear_spread_min_cost"] = lc;
        if (l.kind == Layer::FOOT)
        {
          auto f = fp;
          if (r.p(0.4))
          {
            f = randomFootprint(r, res);
            q["footprint"] = footprintXml(f);
          }
          l.ref->setFootprint(polygon(f));
          l.keep_unknown = r.p(0.25);
          if (l.keep_unknown || r.p(0.3))
            q["keep_unknown"] = l.keep_unknown;
        }
      }
      else if (l.kind == Layer::STOP)
        q["type"] = "Costmap3dLayerStopPropagation";
      else
      {
        q["type"] = "Costmap3dLayerUnknownHandle";
        if (r.p(0.8))
        {
          l.unknown_cost = r.i(-1, 100);
          q["unknown_cost"] = l.unknown_cost;
        }
      }
      v.push_back(l);
    }
    core.setParam(P + key, x);
  };
  if (r.p(0.4))
    makeLayers("static_layers", stat, r.i(1, 2));
  if (r.p(0.8))
    makeLayers("layers", upd, r.i(1, 3));
  else
  {
    Layer l;
    l.kind = Layer::FOOT;
    l.name = "map_overlay";
    l.ref.reset(new Costmap3dLayerFootprint);
    l.ref->setFootprint(polygon(fp));
    l.ref->setExpansion(e, s, c);
    l.overwrite = r.p(0.5);
    if (l.overwrite || r.p(0.5))
      core.setParam(P + "overlay_mode", std::string(l.overwrite ? "overwrite" : "max"));
    upd.push_back(l);
    vf::count("single layer mode");
  }

  nav_msgs::OccupancyGrid::Ptr base;
  Model client;
  bool full = false, complete = false, updated = false;
  int fulls = 0, updates = 0, cells = 0, lethal = 0;
  std::string hist;
  auto expectStatic = [&]()
  {
    Model m = baseModel(root, *base, ang);
    for (auto& l : stat)
      apply(m, l, *base);
    return m;
  };
  auto compare = [&](const Model& m, const char* key)
  {
    VF_CHECK(client.w == m.w && client.h == m.h && client.lo.size() == m.lo.size(), std::string(key) + ":size", "map is %dx%d, expected %dx%d", client.w, client.h, m.w, m.h);
    if (client.lo.size() != m.lo.size())
      return;
    for (size_t i = 0; i < m.lo.size(); i++)
    {
      const int v = client.lo[i];
      if (v < m.lo[i] || v > m.hi[i])
      {
        const char* kind = v < m.lo[i] ? (m.lo[i] >= 100 ? ":lethal cell lost" : ":cost too low") : (v >= 100 ? ":stale lethal cell" : ":cost too high");
        vf::violation(std::string(key) + kind, vf::fmt("cell %zu,%zu,%zu of %dx%dx%d is %d, recomputed %d..%d; history %s", i % m.w, i / m.w % m.h, i / m.w / m.h,
                                                       m.w, m.h, m.ang, v, m.lo[i], m.hi[i], hist.c_str()));
        return;
      }
      if (v >= 100)
        lethal++;
    }
    cells += m.lo.size();
  };
  core.observe<costmap_cspace_msgs::CSpace3D>("/costmap", [&](const costmap_cspace_msgs::CSpace3D& m)
                                              {
    fulls++;
    hist += " full";
    VF_CHECK(m.data.size() == static_cast<size_t>(m.info.width) * m.info.height * m.info.angle, "full:data size", "%zu", m.data.size());
    VF_CHECK(m.info.angle == static_cast<unsigned>(ang) && m.header.frame_id == "map", "full:header", "angle %u frame %s", m.info.angle, m.header.frame_id.c_str());
    if (base)
      VF_CHECK(m.info.origin.position.x == base->info.origin.position.x && m.info.linear_resolution == base->info.resolution, "full:info", "origin or resolution differs");
    client.w = m.info.width;
    client.h = m.info.height;
    client.ang = ang;
    client.lo.assign(m.data.begin(), m.data.end());
    full = true;
    complete = false; });
  core.observe<costmap_cspace_msgs::CSpace3DUpdate>("/costmap_update", [&](const costmap_cspace_msgs::CSpace3DUpdate& u)
                                                    {
    updates++;
    hist += vf::fmt(" update(%u,%u %ux%u)", u.x, u.y, u.width, u.height);
    VF_CHECK(full, "update before a map", "no full map was published before");
    VF_CHECK(u.data.size() == static_cast<size_t>(u.width) * u.height * u.angle, "update:data size", "%zu for %ux%ux%u", u.data.size(), u.width, u.height, u.angle);
    updated = u.width > 0 && u.height > 0;
    if (!updated)
      return;
    const bool in = u.x + u.width <= static_cast<unsigned>(client.w) && u.y + u.height <= static_cast<unsigned>(client.h) && u.yaw + u.angle <= static_cast<unsigned>(ang);
    VF_CHECK(in, "update:out of the map", "update %u,%u %ux%u of map %dx%d", u.x, u.y, u.width, u.height, client.w, client.h);
    VF_CHECK(u.header.frame_id == "map", "update:frame", "%s", u.header.frame_id.c_str());
    if (!in || u.data.size() != static_cast<size_t>(u.width) * u.height * u.angle)
      return;
    for (unsigned a = 0; a < u.angle; a++)
      for (unsigned y = 0; y < u.height; y++)
        for (unsigned x = 0; x < u.width; x++)
          client.lo[client.at(u.x + x, u.y + y, u.yaw + a)] = u.data[(static_cast<size_t>(a) * u.height + y) * u.width + x];
    complete = true; });

  int left = r.i(2, 14);
  double x0 = r.i(-20, 20) * res, y0 = r.i(-20, 20) * res;
  int bw = r.i(3, 22), bh = r.i(3, 22);
  uint64_t hash = 0;
  int stale = 0;
  auto step = [&]
  {
    node::advance(r.u(0.01, 2));
    updated = true;
    const int f0 = fulls, u0 = updates;
    const bool new_base = !base ? r.p(0.6) : r.p(0.12);
    if (new_base)
    {
      if (base && r.p(0.6))
      {
        bw = r.i(3, 22);
        bh = r.i(3, 22);
        if (r.p(0.5))
        {
          x0 += r.i(-5, 5) * res;
          y0 += r.i(-5, 5) * res;
        }
      }
      base = randomMap(r, bw, bh, res, x0, y0);
      hist += vf::fmt(" base %dx%d", bw, bh);
      core.send<nav_msgs::OccupancyGrid>("/map", *base);
      core.drain();
      // overlays buffered before the first map are processed now
      VF_CHECK(fulls >= f0 + 1, "no full map after a base map", "%d", fulls - f0);
      hash = vf::hashAdd(hash, bw);
    }
    else
    {
      std::vector<Layer*> c;
      for (auto& l : stat)
        if (l.ref)
          c.push_back(&l);
      for (auto& l : upd)
        if (l.ref)
          c.push_back(&l), c.push_back(&l);
      if (c.empty())
        return;
      Layer& l = *r.pick(c);
      const bool is_static = &l >= stat.data() && &l < stat.data() + stat.size();
      const bool all = r.p(0.15);
      const int ow = all ? bw : r.i(1, 14), oh = all ? bh : r.i(1, 14), ox = all ? 0 : r.i(-3, bw + 2), oy = all ? 0 : r.i(-3, bh + 2);
      auto o = randomMap(r, ow, oh, res, x0 + ox * res, y0 + oy * res);
      if (r.p(0.05))
        o->header.frame_id = "odom";
      hist += vf::fmt(" %s(%d,%d %dx%d%s)", l.name.c_str(), ox, oy, ow, oh, o->header.frame_id == "odom" ? " other frame" : "");
      l.overlay = o;
      core.send<nav_msgs::OccupancyGrid>("/" + l.name, *o);
      core.drain();
      if (base)
      {
        if (is_static)
          VF_CHECK(fulls > f0, "no full map after a static overlay", "%s", hist.c_str());
        else
          VF_CHECK(updates > u0, "no update after an overlay", "%s", hist.c_str());
      }
      hash = vf::hashAdd(hash, ox * 100 + oy);
    }
    if (!base)
      return;
    for (auto* v : {&stat, &upd})
      for (auto& l : *v)
        if (l.overlay)
        {
          // an overlay entirely outside the map makes no update of its own
          const int ox = std::lround((l.overlay->info.origin.position.x - base->info.origin.position.x) / res);
          const int oy = std::lround((l.overlay->info.origin.position.y - base->info.origin.position.y) / res);
          if (ox + static_cast<int>(l.overlay->info.width) <= 0 || oy + static_cast<int>(l.overlay->info.height) <= 0 || ox >= bw || oy >= bh)
            return;
        }
    // an empty update: the overlay left the map, the next one tells
    if (!base || !full || !updated)
      return;
    if (!complete)
      compare(expectStatic(), "full map");
    else
    {
      Model m = expectStatic();
      for (auto& l : upd)
        apply(m, l, *base);
      compare(m, "updated map");
      stale++;
    }
  };
  node::spinWith([&]
                 {
    while (left-- > 0)
      step(); });
  vf::evaluated(cells);
  vf::count("full maps", fulls);
  vf::count("updates", updates);
  vf::count("lethal cells", lethal);
  vf::count("maps compared after updates", stale);
  if (stale > 2)
    vf::nontrivial(vf::hashAdd(hash, r.next()));
}
}  // namespace
int main(int argc, char** argv)
{
  return vf::run(argc, argv, body);
}
