// T04: path geometry queries against their geometric definitions
#include "vf.h"
#include <trajectory_tracker/path2d.h>
using trajectory_tracker::Path2D;
using trajectory_tracker::Pose2D;
using V = Eigen::Vector2d;

static double segDist(const V& a, const V& b, const V& c)
{
  const double l2 = (b - a).squaredNorm();
  double t = l2 > 0 ? (c - a).dot(b - a) / l2 : 0;
  t = std::min(1.0, std::max(0.0, t));
  return (a + (b - a) * t - c).norm();
}
static double wrap(double a)
{
  return std::remainder(a, 2 * M_PI);
}

static Path2D makePath(vf::Rng& r, std::vector<int>& kind)
{
  // kind: 0 forward, 1 backward, 2 turn
  Path2D p;
  const int n = r.i(1, r.p(0.1) ? 80 : 20);
  const double step = r.pick({0.01, 0.05, 0.1, 0.5, 2.0});
  const double off = r.p(0.2) ? r.u(-100, 100) : 0;
  double x = off + r.u(-2, 2), y = off + r.u(-2, 2), yaw = r.u(-M_PI, M_PI);
  p.push_back(Pose2D(V(x, y), yaw, r.u(0, 1)));
  kind.push_back(-1);
  int dir = r.p(0.7) ? 1 : -1;
  const double bend = r.p(0.3) ? 0 : r.u(-0.3, 0.3);
  const bool turns = r.p(0.4), backs = r.p(0.5);
  for (int i = 1; i < n; i++)
  {
    if (turns && r.p(0.15))
    {
      yaw = wrap(yaw + r.u(-3, 3));
      p.push_back(Pose2D(V(x, y), yaw, r.u(0, 1)));
      kind.push_back(2);
      continue;
    }
    if (backs && r.p(0.15))
      dir = -dir;
    const double l = step * r.u(0.3, 1.5);
    yaw = wrap(yaw + bend * r.u(0.5, 1.5));
    x += dir * l * std::cos(yaw);
    y += dir * l * std::sin(yaw);
    p.push_back(Pose2D(V(x, y), yaw, r.u(0, 1)));
    kind.push_back(dir > 0 ? 0 : 1);
  }
  return p;
}

static void lines(vf::Rng& r)
{
  for (int k = 0; k < 20; k++)
  {
    const double s = std::exp(r.u(-3, 4));
    const V a(r.u(-s, s), r.u(-s, s)), c(r.u(-s, s), r.u(-s, s));
    V b(r.u(-s, s), r.u(-s, s));
    if ((b - a).norm() < 0.05 * s)
      continue;
    const double tol = 2e-5 * s;
    const double d = trajectory_tracker::lineStripDistanceSigned(a, b, c), ref = segDist(a, b, c);
    VF_CHECK(std::fabs(std::fabs(d) - ref) <= tol, "line strip distance", "a %g %g b %g %g c %g %g: %g, expected %g", a[0], a[1], b[0], b[1], c[0], c[1], d, ref);
    VF_CHECK(std::fabs(trajectory_tracker::lineStripDistance(a, b, c) - ref) <= tol, "unsigned line strip distance", "%g %g", ref, s);
    const double t = (c - a).dot(b - a) / (b - a).squaredNorm();
    if (std::fabs(t) > 1e-6 && ref > tol)
      VF_CHECK((d < 0) == (t < 0), "sign of the line strip distance", "behind %d: %g", t < 0, d);
    const V pr = trajectory_tracker::projection2d(a, b, c);
    VF_CHECK((pr - (a + t * (b - a))).norm() <= 2e-5 * s * (1 + std::fabs(t)), "projection", "t %g: %g %g", t, pr[0], pr[1]);
    const double cr = (b - a)[0] * (c - a)[1] - (b - a)[1] * (c - a)[0];
    VF_CHECK(std::fabs(trajectory_tracker::lineDistance(a, b, c) - cr / (b - a).norm()) <= tol * 4, "line distance", "%g", cr);
    // curvature of three points on a circle
    const double R = std::exp(r.u(-3, 4)), a0 = r.u(-M_PI, M_PI), d1 = r.u(0.02, 1.5), d2 = r.u(0.02, 1.5);
    const double sg = r.p(0.5) ? 1 : -1;
    const V o(r.u(-1, 1) * R, r.u(-1, 1) * R);
    auto on = [&](double ang)
    { return V(o + R * V(std::cos(ang), std::sin(ang))); };
    const double cv = trajectory_tracker::curv3p(on(a0), on(a0 + sg * d1), on(a0 + sg * (d1 + d2)));
    VF_CHECK(std::fabs(cv * R - sg) < 2e-3, "curvature of three points on a circle", "radius %g side %g: %g", R, sg, cv);
    VF_CHECK(std::fabs(trajectory_tracker::curv3p(a, a + 0.3 * (b - a), b) * s) < 1e-2, "curvature of three points on a line", "scale %g", s);
    // rotation of a pose
    const double ang = r.u(-7, 7), yaw = r.u(-M_PI, M_PI);
    Pose2D q(a, yaw, 0.5);
    q.rotate(ang);
    VF_CHECK(std::fabs(q.pos_[0] - (std::cos(ang) * a[0] - std::sin(ang) * a[1])) <= tol && std::fabs(q.pos_[1] - (std::sin(ang) * a[0] + std::cos(ang) * a[1])) <= tol,
             "rotated position", "%g %g by %g: %g %g", a[0], a[1], ang, q.pos_[0], q.pos_[1]);
    VF_CHECK(std::fabs(wrap(q.yaw_ - yaw - ang)) < 1e-5 && q.yaw_ > -1e-6 && q.yaw_ < 2 * M_PI + 1e-6, "rotated heading", "%g by %g: %g", yaw, ang, q.yaw_);
    vf::evaluated(7);
  }
}

static void queries(vf::Rng& r)
{
  std::vector<int> kind;
  const Path2D p = makePath(r, kind);
  const int n = p.size();
  double scale = 1;
  for (const Pose2D& q : p)
    scale = std::max(scale, q.pos_.norm());
  const double tol = 3e-5 * scale;
  double len = 0;
  for (int i = 1; i < n; i++)
    len += (p[i].pos_ - p[i - 1].pos_).norm();
  VF_CHECK(std::fabs(p.length() - len) <= 1e-4 * (1 + len), "path length", "%g, expected %g", p.length(), len);
  uint64_t sig = vf::hashAdd(n, len);
  for (int k = 0; k < 6; k++)
  {
    const int b = r.p(0.6) ? 0 : r.i(0, n - 1), e = r.p(0.6) ? n : r.i(b, n);
    const auto ib = p.cbegin() + b, ie = p.cbegin() + e;
    // --- nearest segment
    const int at = r.i(0, n - 1);
    const double far = r.pick({0.0, 0.01, 0.3, 3.0});
    V c = p[at].pos_ + V(r.u(-far, far), r.u(-far, far));
    if (at > 0 && r.p(0.5))
      c = c + r.u(-0.2, 1.2) * (p[at - 1].pos_ - p[at].pos_);
    const float range = r.p(0.5) ? 0 : std::exp(r.u(-4, 3));
    const auto res = p.findNearestWithDistance(ib, ie, c, range);
    VF_CHECK(p.findNearest(ib, ie, c, range) == res.first, "nearest with and without distance disagree", "%d %d", b, e);
    if (b == e)
    {
      VF_CHECK(res.first == ie, "nearest of an empty range", "%d of %d", b, n);
    }
    else
    {
      double best = (p[b].pos_ - c).norm(), cum = 0;
      bool sure = true;
      int last = b;
      for (int i = b + 1; i < e; i++)
      {
        // segments which start within the range are searched
        if (i > b + 1)
          cum += (p[i - 1].pos_ - p[i - 2].pos_).norm();
        if (range > 0 && std::fabs(cum - range) < 1e-4 * (1 + cum))
        {
          sure = false;
          break;
        }
        if (range > 0 && cum > range)
          break;
        best = std::min(best, segDist(p[i - 1].pos_, p[i].pos_, c));
        last = i;
      }
      if (sure)
      {
        const int got = res.first - p.cbegin();
        VF_CHECK(got >= b && got < e && got <= last, "nearest outside the searched range", "%d of %d..%d, last %d", got, b, e, last);
        VF_CHECK(std::fabs(res.second - best) <= tol + 5e-6, "distance to the nearest segment", "%g, expected %g (points %d..%d range %g)", res.second, best, b, e, range);
        if (got >= b && got < e)
        {
          const double dd = got > b ? segDist(p[got - 1].pos_, p[got].pos_, c) : (p[b].pos_ - c).norm();
          VF_CHECK(dd <= best + tol + 5e-6, "nearest segment is not the nearest", "segment %d at %g, nearest %g", got, dd, best);
          // clearly nearest to the end of the path: the last point is chosen
          if (last == e - 1 && e - b >= 2 && kind[e - 1] != 2)
          {
            const double dl = segDist(p[e - 2].pos_, p[e - 1].pos_, c);
            if (dl < best + 1e-12 && best > 1e-3 && dl == (p[e - 1].pos_ - c).norm())
              VF_CHECK(got == e - 1 || std::fabs(dd - dl) > 1e-7, "end of the path not preferred", "%d of %d", got, e);
          }
        }
        vf::count("nearest searches");
        sig = vf::hashAdd(sig, best);
      }
    }
    vf::evaluated();
    // --- local goal
    const bool back = r.p(0.5), turn = r.p(0.7);
    int want = e;
    int prev = -1;
    for (int i = b + 1; i < e; i++)
    {
      if (kind[i] == 2)
      {
        if (turn)
        {
          want = i;
          break;
        }
        prev = -1;
      }
      else if (back)
      {
        if (prev >= 0 && prev != kind[i])
        {
          want = i;
          break;
        }
        prev = kind[i];
      }
    }
    const int got = p.findLocalGoal(ib, ie, back, turn) - p.cbegin();
    VF_CHECK(got == want, "local goal", "points %d..%d switch-back %d turn %d: %d, expected %d", b, e, back, turn, got, want);
    vf::count(want < e ? "local goals inside the path" : "no local goal");
    vf::evaluated();
    if (b < e)
    {
      std::vector<int> exp;
      int from = b;
      while (true)
      {
        const int g = p.findLocalGoal(p.cbegin() + from, ie, back, turn) - p.cbegin();
        if (g == e || exp.size() > 200)
          break;
        exp.push_back(g);
        from = g;
      }
      const auto gs = p.enumerateLocalGoals(ib, ie, back, turn);
      bool same = gs.size() == exp.size();
      for (size_t i = 0; same && i < gs.size(); i++)
        same = gs[i] - p.cbegin() == exp[i];
      VF_CHECK(same, "enumerated local goals", "%zu, expected %zu", gs.size(), exp.size());
      vf::evaluated();
    }
    // --- remaining distance
    if (e - b >= 1)
    {
      const int nr = r.i(b, e - 1);
      V on = p[nr].pos_;
      if (nr > b)
        on = p[nr].pos_ + r.u(0, 1) * (p[nr - 1].pos_ - p[nr].pos_);
      bool over = false;
      if (nr == e - 1 && nr > b && r.p(0.4))
      {
        on = p[nr].pos_ + r.u(0.1, 1) * (p[nr].pos_ - p[nr - 1].pos_);
        over = kind[nr] != 2;
      }
      double exp = (p[nr].pos_ - on).norm();
      for (int i = nr + 1; i < e; i++)
        exp += (p[i].pos_ - p[i - 1].pos_).norm();
      if (over)
        exp = -exp;
      if (e - b < 2)
        exp = 0;
      const double d = p.remainedDistance(ib, p.cbegin() + nr, ie, on);
      VF_CHECK(std::fabs(d - exp) <= 1e-9 * scale + 1e-9, "remaining distance", "points %d..%d nearest %d: %g, expected %g", b, e, nr, d, exp);
      vf::count(over ? "overshoots" : "remaining distances");
      vf::evaluated();
    }
    // --- arrival times
    {
      const double v = r.u(0.1, 2), w = r.u(0.1, 2), t0 = r.p(0.5) ? 0 : r.u(0, 10);
      const auto eta = p.getEstimatedTimeOfArrivals(ib, ie, v, w, t0);
      VF_CHECK(static_cast<int>(eta.size()) == e - b, "number of arrival times", "%zu for %d poses", eta.size(), e - b);
      double t = t0;
      for (int i = b; i < e && i - b < static_cast<int>(eta.size()); i++)
      {
        if (i > b)
          t += kind[i] == 2 ? std::fabs(wrap(p[i].yaw_ - p[i - 1].yaw_)) / w : (p[i].pos_ - p[i - 1].pos_).norm() / v;
        VF_CHECK(std::fabs(eta[i - b] - t) <= 1e-4 * (1 + t), "arrival time", "pose %d: %g, expected %g", i, eta[i - b], t);
      }
      vf::evaluated();
    }
    // --- curvature: mean of the three-point curvatures up to the first point out of range
    if (e - b >= 3)
    {
      const float cr = std::exp(r.u(-3, 3));
      double sum = 0;
      int m = 0;
      bool sure = true;
      for (int i = b + 2; i < e; i++)
      {
        const V A = p[i - 2].pos_, B = p[i - 1].pos_, C = p[i].pos_;
        const double lm = std::min((A - B).norm(), std::min((B - C).norm(), (A - C).norm()));
        if (lm < 1e-4 * scale)
        {
          sure = false;
          break;
        }
        const double area2 = (B - A)[0] * (C - A)[1] - (B - A)[1] * (C - A)[0];
        sum += 2 * area2 / ((A - B).norm() * (B - C).norm() * (A - C).norm());
        m++;
        const double dd = (C - c).norm();
        if (std::fabs(dd - cr) < 1e-5 * scale)
        {
          sure = false;
          break;
        }
        if (dd > cr)
          break;
      }
      const double got2 = p.getCurvature(ib, ie, c, cr);
      if (sure && m)
      {
        // cancellation in the three-point formula grows with the offset of the path
        double lmin = 1e9;
        for (int i = b + 1; i < e; i++)
          lmin = std::min(lmin, (p[i].pos_ - p[i - 1].pos_).norm());
        const double ctol = 1e-3 * (1 + std::fabs(sum / m)) + 4e-15 * scale * scale / (lmin * lmin * lmin);
        VF_CHECK(std::fabs(got2 - sum / m) <= ctol, "mean curvature", "points %d..%d range %g: %g, expected %g", b, e, cr, got2, sum / m);
        vf::count("curvatures");
        vf::evaluated();
      }
    }
  }
  if (n > 2)
    vf::nontrivial(sig);
  // --- two poses left: the arc between them
  {
    const double R = std::exp(r.u(-2, 3)) * (r.p(0.5) ? 1 : -1), th = r.u(0.05, 1.2) * (r.p(0.5) ? 1 : -1), y0 = r.u(-M_PI, M_PI);
    Path2D q;
    q.push_back(Pose2D(V(1, 2), y0, 0));
    // left turn about the centre at distance R for th of the sign of motion
    const V ctr = V(1, 2) + R * V(-std::sin(y0), std::cos(y0));
    q.push_back(Pose2D(ctr + R * V(std::sin(y0 + th), -std::cos(y0 + th)), y0 + th, 0));
    const double cv = q.getCurvature(q.cbegin(), q.cend(), V(1, 2), 10);
    VF_CHECK(std::fabs(cv * R - 1) < 2e-2, "curvature of an arc between two poses", "radius %g angle %g: %g", R, th, cv);
    q[1].yaw_ = q[0].yaw_;
    VF_CHECK(q.getCurvature(q.cbegin(), q.cend(), V(1, 2), 10) == 0, "curvature of two poses of the same heading", "%g", q.getCurvature(q.cbegin(), q.cend(), V(1, 2), 10));
    VF_CHECK(q.getCurvature(q.cbegin(), q.cbegin() + 1, V(1, 2), 10) == 0, "curvature of one pose", "%d", 1);
    vf::evaluated(3);
  }
}

template <class M>
static void setVel(M&, double)
{
}
template <>
void setVel(trajectory_tracker_msgs::PoseStampedWithVelocity& m, double v)
{
  m.linear_velocity.x = v;
}

template <class MSG, bool VEL>
static void conversion(vf::Rng& r)
{
  const double eps = r.pick({1e-6, 1e-3, 0.05, 0.2});
  MSG m;
  m.header.frame_id = "f";
  struct P
  {
    double x, y, yaw, v;
  };
  std::vector<P> in;
  const int n = r.i(0, 25);
  double x = r.u(-5, 5), y = r.u(-5, 5);
  double ax = x, ay = y;
  bool fresh = true;
  for (int i = 0; i < n; i++)
  {
    // stays near the last kept position, or leaves it clearly
    if (!fresh)
    {
      const int what = r.i(0, 3);
      if (what == 0)
        x = ax, y = ay;
      else
      {
        const double l = what == 1 ? eps * r.u(0.05, 0.9) : eps * 1.2 + r.u(0, 0.5), a = r.u(-M_PI, M_PI);
        x = ax + l * std::cos(a), y = ay + l * std::sin(a);
        if (what >= 2)
          ax = x, ay = y;
      }
    }
    fresh = false;
    P q{x, y, r.u(-3.1, 3.1), r.u(0, 1)};
    in.push_back(q);
    typename decltype(m.poses)::value_type ps;
    ps.header = m.header;
    ps.pose.position.x = q.x;
    ps.pose.position.y = q.y;
    ps.pose.orientation = tf2::toMsg(tf2::Quaternion(tf2::Vector3(0, 0, 1), q.yaw));
    setVel(ps, q.v);
    m.poses.push_back(ps);
  }
  std::vector<P> want;
  for (size_t i = 0; i < in.size();)
  {
    size_t j = i + 1;
    while (j < in.size() && std::hypot(in[j].x - in[i].x, in[j].y - in[i].y) < eps)
      j++;
    want.push_back(in[i]);
    if (j > i + 1)
      want.push_back(P{in[i].x, in[i].y, in[j - 1].yaw, in[j - 1].v});
    i = j;
  }
  Path2D p;
  if (r.p(0.3))
    p.push_back(Pose2D(V(9, 9), 0, 0));
  p.fromMsg(m, eps);
  VF_CHECK(p.size() == want.size(), "number of poses converted from a message", "%zu poses in, %zu kept, expected %zu", in.size(), p.size(), want.size());
  if (p.size() != want.size())
    return;
  auto same = [&](double gx, double gy, double gyaw, const P& w, double tol)
  { return std::fabs(gx - w.x) < tol && std::fabs(gy - w.y) < tol && std::fabs(wrap(gyaw - w.yaw)) < 1e-5; };
  for (size_t i = 0; i < p.size(); i++)
  {
    VF_CHECK(same(p[i].pos_[0], p[i].pos_[1], p[i].yaw_, want[i], 1e-12), "pose converted from a message", "pose %zu: %g %g %g, expected %g %g %g", i, p[i].pos_[0], p[i].pos_[1],
             p[i].yaw_, want[i].x, want[i].y, want[i].yaw);
    if (VEL)
      VF_CHECK(std::fabs(p[i].velocity_ - want[i].v) < 1e-6, "velocity converted from a message", "pose %zu: %g, expected %g", i, p[i].velocity_, want[i].v);
    else
      VF_CHECK(std::isnan(p[i].velocity_), "velocity of a path without velocities", "%g", p[i].velocity_);
  }
  MSG back;
  back.header.frame_id = "g";
  back.poses.resize(3);
  p.toMsg(back);
  VF_CHECK(back.poses.size() == p.size(), "number of poses converted to a message", "%zu", back.poses.size());
  for (size_t i = 0; i < std::min(back.poses.size(), p.size()); i++)
    VF_CHECK(same(back.poses[i].pose.position.x, back.poses[i].pose.position.y, tf2::getYaw(back.poses[i].pose.orientation), want[i], 1e-12) && back.poses[i].header.frame_id == "g",
             "pose converted to a message", "pose %zu", i);
  vf::evaluated(2 * p.size() + 1);
  vf::count("poses converted", p.size());
  if (want.size() != in.size())
    vf::count("paths with collapsed turns");
}

static void oneCase(vf::Rng& r, long)
{
  lines(r);
  for (int k = 0; k < 4; k++)
    queries(r);
  conversion<nav_msgs::Path, false>(r);
  conversion<trajectory_tracker_msgs::PathWithVelocity, true>(r);
}

int main(int argc, char** argv)
{
  return vf::run(argc, argv, oneCase);
}
