// P11: the predicted start lies on the followed path at the documented place, and the kept part is its obstacle-free piece ahead of the robot.
#include <algorithm>
#include <planner_cspace/planner_3d/grid_metric_converter.h>
#include <planner_cspace/planner_3d/start_pose_predictor.h>
#include "vf.h"
using namespace planner_cspace;
using namespace planner_cspace::planner_3d;
using Vec = StartPosePredictor::Astar::Vec;
namespace
{
struct P
{
  double x, y, yaw;
  bool center;
};
geometry_msgs::Pose pose(double x, double y, double yaw)
{
  geometry_msgs::Pose p;
  p.position.x = x;
  p.position.y = y;
  p.orientation.z = std::sin(yaw / 2);
  p.orientation.w = std::cos(yaw / 2);
  return p;
}
double segDist(const P& a, const P& b, double x, double y)
{
  const double dx = b.x - a.x, dy = b.y - a.y, l2 = dx * dx + dy * dy;
  double t = l2 > 0 ? ((x - a.x) * dx + (y - a.y) * dy) / l2 : 0;
  t = std::max(0.0, std::min(1.0, t));
  return std::hypot(x - a.x - t * dx, y - a.y - t * dy);
}
double angDiff(double a, double b)
{
  return std::abs(std::remainder(a - b, 2 * M_PI));
}
// three-valued
enum Tri
{
  NO,
  YES,
  MAYBE
};
}  // namespace

int main(int argc, char** argv)
{
  return vf::run(argc, argv, [](vf::Rng& r, long)
                 {
    costmap_cspace_msgs::MapMetaData3D info;
    info.width = r.i(8, 40);
    info.height = r.i(8, 40);
    info.angle = r.pick({4, 8, 16});
    const double res = r.pick({0.05, 0.1, 0.25, 1.0});
    info.linear_resolution = res;
    info.angular_resolution = 2 * M_PI / info.angle;
    info.origin.position.x = r.p(0.3) ? 0 : r.u(-20, 20);
    info.origin.position.y = r.p(0.3) ? 0 : r.u(-20, 20);
    info.origin.orientation.w = 1;
    const int W = info.width, H = info.height, A = info.angle;
    GridAstar<3, 2>::Gridmap<char, 0x40> cm;
    cm.reset(Vec(W, H, A));
    cm.clear(0);
    // --- a path of grid moves: straight runs forward and back, quarter arcs and turns on the spot
    std::vector<P> msg;
    auto metric = [&](double gx, double gy, double h, bool center)
    {
      P p{static_cast<float>((gx + 0.5) * res + info.origin.position.x), static_cast<float>((gy + 0.5) * res + info.origin.position.y), h, center};
      msg.push_back(p);
    };
    int x = r.i(0, W - 1), y = r.i(0, H - 1), q = r.i(0, 7);
    if (A == 4)
      q &= ~1;
    auto dirx = [](int k) { return static_cast<int>(std::lround(std::cos(k * M_PI / 4) * 1.1)); };
    auto diry = [](int k) { return static_cast<int>(std::lround(std::sin(k * M_PI / 4) * 1.1)); };
    metric(x, y, q * M_PI / 4, true);
    const int moves = r.i(1, 14);
    int sgn = 1;
    for (int m = 0; m < moves; m++)
    {
      const int kind = r.i(0, 9);
      if (r.p(0.25))
        sgn = -sgn;
      if (kind < 6)
      {
        const int l = r.i(1, 4);
        const int dx = dirx(q) * sgn, dy = diry(q) * sgn;
        if (x + dx * l < 0 || x + dx * l >= W || y + dy * l < 0 || y + dy * l >= H)
        {
          sgn = -sgn;
          continue;
        }
        const int sub = r.pick({2, 3, 4, 10});
        for (int k = 1; k <= l * sub; k++)
          metric(x + dx * static_cast<double>(k) / sub, y + dy * static_cast<double>(k) / sub, q * M_PI / 4, k % sub == 0);
        x += dx * l;
        y += dy * l;
      }
      else if (kind < 8 && q % 2 == 0)
      {
        // quarter arc of radius R around a centre beside the robot
        const int R = r.i(1, 4), turn = r.p(0.5) ? 1 : -1;
        const double h = q * M_PI / 4;
        const double cx = x - std::sin(h) * turn * R, cy = y + std::cos(h) * turn * R;
        const double h1 = h + turn * sgn * M_PI / 2;
        const int nx = std::lround(cx + std::sin(h1) * turn * R), ny = std::lround(cy - std::cos(h1) * turn * R);
        if (nx < 0 || nx >= W || ny < 0 || ny >= H)
          continue;
        const int n = 7 * R;
        for (int k = 1; k <= n; k++)
        {
          const double hk = h + (h1 - h) * k / n;
          metric(cx + std::sin(hk) * turn * R, cy - std::cos(hk) * turn * R, hk, k == n);
        }
        q = ((q + turn * sgn * 2) % 8 + 8) % 8;
        x = nx;
        y = ny;
        msg.back().yaw = q * M_PI / 4;
      }
      else
      {
        int dq = r.i(1, 3) * (r.p(0.5) ? 1 : -1);
        if (A == 4)
          dq *= 2;
        const int n = r.p(0.5) ? 1 : r.i(2, 5);
        for (int k = 1; k <= n; k++)
          metric(x, y, q * M_PI / 4 + dq * M_PI / 4 * k / n, k == n);
        q = ((q + dq) % 8 + 8) % 8;
      }
    }
    nav_msgs::Path path;
    path.header.frame_id = "map";
    path.header.seq = 3;
    for (auto& p : msg)
    {
      geometry_msgs::PoseStamped ps;
      ps.header = path.header;
      ps.pose = pose(p.x, p.y, p.yaw);
      path.poses.push_back(ps);
    }
    // turns on the spot keep their first and last pose
    std::vector<P> pts;
    for (size_t i = 0; i < msg.size(); i++)
    {
      const bool same = !pts.empty() && std::hypot(msg[i].x - pts.back().x, msg[i].y - pts.back().y) < 1e-6;
      if (same && pts.size() >= 2 && std::hypot(pts[pts.size() - 2].x - pts.back().x, pts[pts.size() - 2].y - pts.back().y) < 1e-6)
        pts.back() = msg[i];
      else
        pts.push_back(msg[i]);
    }
    StartPosePredictor::Config c;
    c.lin_vel_ = r.u(0.1, 2) * std::min(1.0, res * 4);
    c.ang_vel_ = r.u(0.2, 2);
    c.prediction_sec_ = r.pick({0.0, 0.1, 0.25, 0.5, 1.0, 2.0});
    c.switch_back_prediction_sec_ = r.p(0.3) ? 0.0 : r.u(0.5, 8);
    c.dist_stop_ = r.u(0.1, 3) * res;
    StartPosePredictor sp;
    sp.setConfig(c);

    const int queries = r.i(1, 8);
    uint64_t hs = 5;
    long nt = 0;
    if (r.p(0.3))
    {
      Vec g;
      VF_CHECK(!sp.process(pose(0, 0, 0), cm, info, nav_msgs::Path(), g), "empty path", "an empty path gave a pose");
    }
    for (int k = 0; k < queries; k++)
    {
      // obstacles come and go
      const int no = r.i(0, 3);
      for (int o = 0; o < no; o++)
      {
        const int m = r.i(0, msg.size() - 1);
        const P& p = msg[m];
        Vec g;
        int gx = std::floor((p.x - info.origin.position.x) / res), gy = std::floor((p.y - info.origin.position.y) / res);
        if (r.p(0.7))
          gx = r.i(0, W - 1), gy = r.i(0, H - 1);
        g = Vec(std::max(0, std::min(W - 1, gx)), std::max(0, std::min(H - 1, gy)), r.i(0, A - 1));
        const char v = r.p(0.5) ? 100 : r.p(0.5) ? 99 : 50;
        if (r.p(0.5))
          cm[g] = v;
        else
          for (int a = 0; a < A; a++)
            cm[Vec(g[0], g[1], a)] = v;
      }
      if (r.p(0.4))
        cm.clear(0);
      const int at = r.p(0.15) ? 0 : r.p(0.1) ? static_cast<int>(msg.size()) - 1 : r.i(0, msg.size() - 1);
      const double dev = r.p(0.3) ? 0 : r.u(0, 1.5) * c.dist_stop_, da = r.u(0, 2 * M_PI);
      const double rx = msg[at].x + dev * std::cos(da), ry = msg[at].y + dev * std::sin(da);
      const double ryaw = msg[at].yaw + (r.p(0.5) ? 0 : r.u(-3, 3));
      Vec got(-7, -7, -7);
      const bool ok = sp.process(pose(rx, ry, ryaw), cm, info, path, got);
      const nav_msgs::Path kept = sp.getPreservedPath();
      const double kept_len = sp.getPreservedPathLength();
      vf::evaluated();
      const std::string ctx = vf::fmt("map %dx%dx%d res %g, path of %zu, robot %.4f %.4f %.4f, horizon %.2f/%.2f", W, H, A, res, pts.size(), rx, ry,
                                      ryaw, c.prediction_sec_, c.switch_back_prediction_sec_);
      if (!ok)
        VF_CHECK(kept.poses.empty() && kept_len == 0, "failure:kept", "%s: failed but kept %zu poses, length %f", ctx.c_str(), kept.poses.size(), kept_len);
      // --- where is the robot
      double best = std::hypot(rx - pts[0].x, ry - pts[0].y);
      for (size_t i = 1; i < pts.size(); i++)
        best = std::min(best, segDist(pts[i - 1], pts[i], rx, ry));
      if (best > c.dist_stop_ + 1e-4)
      {
        VF_CHECK(!ok, "far:accepted", "%s: %.4f off the path (limit %.4f) but a pose was given", ctx.c_str(), best, c.dist_stop_);
        vf::count("too far");
        continue;
      }
      if (best > c.dist_stop_ - 1e-4)
        continue;
      std::vector<size_t> begins;
      if (pts.size() == 1)
        begins.push_back(0);
      for (size_t i = 1; i < pts.size(); i++)
        if (segDist(pts[i - 1], pts[i], rx, ry) < best + 1e-4)
        {
          begins.push_back(i);
          if (i == 1 && std::hypot(rx - pts[0].x, ry - pts[0].y) < best + 1e-4)
            begins.push_back(0);
        }
      bool match = false, unsure = false;
      std::string want;
      for (size_t b : begins)
      {
        // arrival times
        std::vector<double> eta(pts.size(), 0);
        eta[b] = std::max(angDiff(pts[b].yaw, ryaw) / c.ang_vel_, std::hypot(pts[b].x - rx, pts[b].y - ry) / c.lin_vel_);
        for (size_t i = b + 1; i < pts.size(); i++)
        {
          const double d = std::hypot(pts[i].x - pts[i - 1].x, pts[i].y - pts[i - 1].y);
          eta[i] = eta[i - 1] + (d > 1e-6 ? d / c.lin_vel_ : angDiff(pts[i].yaw, pts[i - 1].yaw) / c.ang_vel_);
        }
        auto tie = [&](double v, double t) { return std::abs(v - t) < 1e-4 * (1 + t); };
        std::vector<size_t> cands;
        bool sure = true;
        // switch-back points
        size_t pick = pts.size();
        for (size_t v = b + 1; v + 1 < pts.size() && pick == pts.size(); v++)
        {
          const double ax = pts[v].x - pts[v - 1].x, ay = pts[v].y - pts[v - 1].y, bx = pts[v + 1].x - pts[v].x, by = pts[v + 1].y - pts[v].y;
          if (std::hypot(ax, ay) < 1e-6 || std::hypot(bx, by) < 1e-6)
            continue;
          if (ax * bx + ay * by > 0)
            continue;  // keeps the direction of motion
          const double s1 = ax * std::cos(pts[v].yaw) + ay * std::sin(pts[v].yaw), s2 = bx * std::cos(pts[v + 1].yaw) + by * std::sin(pts[v + 1].yaw);
          if (s1 * s2 >= 0)
            continue;
          if (tie(eta[v], c.prediction_sec_) || tie(eta[v], c.switch_back_prediction_sec_))
            sure = false;
          if (pts[v].center && eta[v] > c.prediction_sec_ && eta[v] < c.switch_back_prediction_sec_)
            pick = v;
        }
        const bool is_sb = pick != pts.size();
        if (pick == pts.size())
          for (size_t v = b; v + 1 < pts.size(); v++)
          {
            if (tie(eta[v], c.prediction_sec_))
              sure = false;
            if (eta[v] > c.prediction_sec_ && pts[v].center)
            {
              pick = v;
              break;
            }
          }
        const bool is_end = pick == pts.size();
        if (is_end)
          pick = pts.size() - 1;
        if (!sure)
        {
          unsure = true;
          continue;
        }
        // obstacles on the kept part and at the pose to start from
        Tri coll = NO;
        auto cells = [&](const P& p, std::vector<Vec>& out)
        {
          std::set<std::array<int, 3>> s;
          for (double ex : {-1e-3, 1e-3})
            for (double ey : {-1e-3, 1e-3})
              for (double ea : {-1e-3, 1e-3})
              {
                int a = std::lround(p.yaw / info.angular_resolution + ea) % A;
                if (a < 0)
                  a += A;
                s.insert({static_cast<int>(std::floor((p.x - info.origin.position.x) / res + ex)),
                          static_cast<int>(std::floor((p.y - info.origin.position.y) / res + ey)), a});
              }
          for (auto& e : s)
            out.push_back(Vec(e[0], e[1], e[2]));
        };
        for (size_t v = b; v <= pick; v++)
        {
          std::vector<Vec> cs;
          cells(pts[v], cs);
          size_t n = 0, in = 0;
          for (auto& g : cs)
          {
            if (g[0] < 0 || g[1] < 0 || g[0] >= W || g[1] >= H)
              continue;
            in++;
            n += cm[g] == 100;
          }
          if (n && n == in)
            coll = YES;
          else if (n && coll == NO)
            coll = MAYBE;
        }
        if (coll == MAYBE)
        {
          unsure = true;
          continue;
        }
        if (coll == YES)
        {
          want += vf::fmt(" [from %zu: blocked up to %zu]", b, pick);
          if (!ok)
          {
            match = true;
            vf::count("blocked");
            break;
          }
          continue;
        }
        want += vf::fmt(" [from %zu: pose %zu %s]", b, pick, is_sb ? "switch-back" : is_end ? "end" : "after the horizon");
        if (!ok)
          continue;
        // the start cell is that pose's cell, the kept part the poses before it
        std::vector<Vec> cs;
        cells(pts[pick], cs);
        bool cell_ok = false;
        for (auto& g : cs)
          cell_ok |= g == got;
        if (!cell_ok || kept.poses.size() != pick - b)
          continue;
        bool same = true;
        double len = 0;
        for (size_t v = b; v < pick && same; v++)
        {
          const auto& kp = kept.poses[v - b].pose;
          const double kyaw = 2 * std::atan2(kp.orientation.z, kp.orientation.w);
          same = std::abs(kp.position.x - pts[v].x) < 1e-4 && std::abs(kp.position.y - pts[v].y) < 1e-4 && angDiff(kyaw, pts[v].yaw) < 1e-3;
        }
        for (size_t v = b + 1; v <= pick; v++)
          len += std::hypot(pts[v].x - pts[v - 1].x, pts[v].y - pts[v - 1].y);
        if (!same)
          continue;
        match = true;
        VF_CHECK(std::abs(len - kept_len) < 1e-3 * (1 + len), "length", "%s: kept length %f, the poses span %f", ctx.c_str(), kept_len, len);
        vf::count(is_sb ? "starts at a switch-back" : is_end ? "starts at the end" : "starts after the horizon");
        hs = vf::hashAdd(vf::hashAdd(hs, pick), b);
        nt += pick > b;
        break;
      }
      if (!match)
      {
        if (unsure)
          vf::count("not judged");
        else
          vf::violation(ok ? "start" : "failure", ctx + vf::fmt(": got %d (%d,%d,%d) keeping %zu, expected one of%s", ok, got[0], got[1], got[2],
                                                                kept.poses.size(), want.c_str()));
      }
      if (r.p(0.2))
      {
        sp.clear();
        VF_CHECK(sp.getPreservedPath().poses.empty() && sp.getPreservedPathLength() == 0, "clear", "something is kept after clear()");
      }
    }
    if (nt)
      vf::nontrivial(hs); });
}
