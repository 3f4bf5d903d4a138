// T06: filters, limiters, angle normalisation, running mean, one-dimensional Kalman filter
#include "vf.h"
#include <track_odometry/kalman_filter1.h>
#include <trajectory_tracker/average.h>
#include <trajectory_tracker/basic_control.h>
#include <trajectory_tracker/filter.h>
using trajectory_tracker::Filter;
static const double EPS = 1.2e-7;

static void filters(vf::Rng& r)
{
  const double tc = r.p(0.5) ? std::exp(r.u(-0.69, 5.3)) : r.u(0.5, 20);
  const double a = 2 * tc;
  const double scale = std::exp(r.u(-3, 4));
  const float out0 = r.p(0.3) ? 0 : r.u(-scale, scale);
  const double tol = (1e-4 + 8 * EPS * a) * scale;
  Filter l(Filter::FILTER_LPF, tc, out0), h(Filter::FILTER_HPF, tc, out0);
  VF_CHECK(l.get() == out0 && h.get() == out0, "filter initial value", "tc %g out0 %g: %g %g", tc, out0, l.get(), h.get());
  double lo = out0, hi = out0;
  // steady from the start
  if (r.p(0.3))
    for (int i = 0; i < 20; i++)
    {
      const float y = l.in(out0);
      VF_CHECK(std::fabs(y - out0) <= tol, "low-pass leaves its initial value", "tc %g out0 %g step %d: %g", tc, out0, i, y);
    }
  const int n = r.i(1, 80), mode = r.i(0, 3);
  for (int i = 0; i < n; i++)
  {
    if (r.p(0.03))
    {
      const float v = r.u(-scale, scale);
      l.set(v);
      h.set(v);
      lo = hi = v;
      VF_CHECK(l.get() == v && h.get() == v, "filter set", "set %g, get %g %g", v, l.get(), h.get());
    }
    const float in = mode == 0 ? (i % 2 ? scale : -scale) : mode == 1 ? (r.p(0.1) ? scale : 0) : r.u(-scale, scale);
    lo = std::min<double>(lo, in);
    hi = std::max<double>(hi, in);
    const float y = l.in(in);
    VF_CHECK(y >= lo - tol && y <= hi + tol, "low-pass output outside the range of its inputs", "tc %g step %d: %g not in [%g, %g]", tc, i, y, lo, hi);
    VF_CHECK(y == l.get(), "filter get", "%g %g", y, l.get());
    const float z = h.in(in);
    VF_CHECK(std::isfinite(z) && z == h.get(), "high-pass output", "%g", z);
    vf::evaluated(3);
  }
  // convergence
  const float c = r.u(-scale, scale);
  const double k = std::fabs((a - 1) / (a + 1));
  const int need = k < 1e-9 ? 5 : static_cast<int>(std::log(1e-6) / std::log(k)) + 10;
  float y = 0, z = 0, yp = l.get();
  for (int i = 0; i < need; i++)
  {
    y = l.in(c);
    // monotone approach towards a constant input after the first step
    if (i > 1)
      VF_CHECK(std::fabs(y - c) <= std::fabs(yp - c) + tol, "low-pass moves away from a constant input", "tc %g: %g then %g, input %g", tc, yp, y, c);
    yp = y;
    z = h.in(c);
  }
  VF_CHECK(std::fabs(y - c) <= tol, "low-pass does not converge to a constant input", "tc %g input %g after %d steps: %g", tc, c, need, y);
  VF_CHECK(std::fabs(z) <= tol, "high-pass does not converge to zero", "tc %g input %g after %d steps: %g", tc, c, need, z);
  vf::evaluated(2);
  // rate: first-order lag, half way not before tc*0.3 and not after tc*3 samples
  {
    Filter s(Filter::FILTER_LPF, tc, 0);
    int half = 0;
    while (half < 4000 && s.in(1.0f) < 0.5f)
      half++;
    VF_CHECK(half <= 3 * tc + 2 && half >= 0.3 * tc - 3, "low-pass time constant", "tc %g reaches half after %d samples", tc, half);
    Filter g(Filter::FILTER_HPF, tc, 0);
    g.in(0);
    const float first = g.in(1.0f);
    VF_CHECK(tc < 3 || (first > 0.4 && first <= 1.2), "high-pass does not pass a step", "tc %g: %g", tc, first);
    vf::evaluated(2);
  }
  // angle mode
  Filter p(Filter::FILTER_LPF, tc, 0, true), q(Filter::FILTER_LPF, tc, 0, true);
  double th = r.u(-3, 3);
  for (int i = 0; i < 40; i++)
  {
    th += r.u(-1.2, 1.2);
    const double rem = std::remainder(th - p.get(), 2 * M_PI);
    if (std::fabs(std::fabs(rem) - M_PI) < 0.02)
      continue;
    const double before = p.get();
    const float u = p.in(th), v = q.in(th + 2 * M_PI * r.i(-4, 4));
    VF_CHECK(std::fabs(u - v) < 2e-3, "angle filter depends on full turns", "tc %g step %d: %g and %g", tc, i, u, v);
    if (std::fabs(u - v) >= 2e-3)
      break;
    q.set(u);
    p.set(u);
    // never leaves the shorter arc between the old output and the input
    const double d = u - before;
    VF_CHECK(d * rem >= -2e-3 && std::fabs(d) <= std::fabs(rem) + 2e-3, "angle filter takes the long way", "from %g input %g out %g", before, th, u);
    vf::evaluated(2);
  }
  vf::count("filter runs");
}

static void limiter(vf::Rng& r)
{
  trajectory_tracker::VelAccLimitter l;
  VF_CHECK(l.get() == 0, "limiter initial value", "%g", l.get());
  float vel = r.u(0, 3), acc = r.u(0, 5), dt = r.u(0, 0.2);
  for (int i = 0; i < 60; i++)
  {
    if (r.p(0.1))
      vel = r.u(0, 3);
    if (r.p(0.1))
      acc = r.u(0, 5);
    if (r.p(0.3))
      dt = r.p(0.2) ? 0 : r.u(0, 0.2);
    const double prev = l.get();
    const bool inc = r.p(0.3);
    float v = r.u(-5, 5);
    if (r.p(0.05))
      v = r.pick({INFINITY, -INFINITY, 1e30f, -1e30f, 0.f});
    const float out = inc ? l.increment(v, vel, acc, dt) : l.set(v, vel, acc, dt);
    double want = inc ? prev + v : v;
    want = std::max<double>(-vel, std::min<double>(vel, want));
    const double s = static_cast<double>(acc) * dt;
    const double ex = std::max(prev - s, std::min(prev + s, want));
    VF_CHECK(out == l.get(), "limiter get", "%g %g", out, l.get());
    VF_CHECK(std::fabs(out - prev) <= s + 1e-5, "limiter exceeds the acceleration", "from %g to %g with %g", prev, out, s);
    VF_CHECK(std::fabs(out) <= std::max<double>(vel, std::fabs(prev) - s) + 1e-5, "limiter exceeds the velocity", "%g from %g, limit %g", out, prev, vel);
    VF_CHECK(std::fabs(out - ex) <= 1e-5, "limiter output", "from %g input %g limit %g step %g: %g, expected %g", prev, v, vel, s, out, ex);
    vf::evaluated(4);
    if (r.p(0.05))
    {
      const float nn = l.set(NAN, vel, acc, dt);
      VF_CHECK(std::isfinite(nn), "limiter not finite", "%g", nn);
    }
    if (r.p(0.05))
    {
      l.clear();
      VF_CHECK(l.get() == 0, "limiter clear", "%g", l.get());
    }
  }
  for (int i = 0; i < 40; i++)
  {
    const float x = r.p(0.2) ? static_cast<float>(M_PI * r.i(-9, 9)) : r.u(-100, 100);
    const float y = trajectory_tracker::angleNormalized(x);
    VF_CHECK(y >= -M_PI - 1e-6 && y <= M_PI + 1e-6, "angle not in range", "%g -> %.9g", x, y);
    VF_CHECK(std::fabs(std::remainder(static_cast<double>(y) - x, 2 * M_PI)) < 1e-3, "angle not congruent", "%g -> %g", x, y);
    const float mx = r.u(0, 10);
    const float c = trajectory_tracker::clip(x, mx);
    VF_CHECK(c == (x > mx ? mx : x < -mx ? -mx : x), "clip", "%g by %g: %g", x, mx, c);
    const float t = trajectory_tracker::timeOptimalControl(y, mx);
    VF_CHECK(std::fabs(std::fabs(t) - std::sqrt(2.0 * std::fabs(y) * mx)) < 1e-4 * (1 + std::fabs(t)) && (y == 0 || t * y <= 0), "time optimal control",
             "angle %g acc %g: %g", y, mx, t);
    vf::evaluated(4);
  }
  vf::count("limiter runs");
  trajectory_tracker::Average<double> av;
  VF_CHECK(static_cast<double>(av) == 0, "mean of nothing", "not 0");
  double sum = 0;
  const int n = r.i(1, 30);
  for (int i = 0; i < n; i++)
  {
    const double x = r.u(-10, 10);
    sum += x;
    av += x;
    VF_CHECK(std::fabs(av - sum / (i + 1)) < 1e-9, "mean", "%g, expected %g", static_cast<double>(av), sum / (i + 1));
    vf::evaluated();
  }
}

static void kalman(vf::Rng& r)
{
  track_odometry::KalmanFilter1 k;
  VF_CHECK(k.x_ == 0 && std::isinf(k.sigma_), "kalman initial state", "%g %g", k.x_, k.sigma_);
  if (r.p(0.5))
  {
    const double x = r.u(-5, 5), s = r.u(0.01, 3);
    k.set(x, s);
    VF_CHECK(k.x_ == x && k.sigma_ == s, "kalman set", "%g %g", k.x_, k.sigma_);
  }
  for (int i = 0; i < 80; i++)
  {
    const double x = k.x_, s = k.sigma_;
    if (r.p(0.3))
    {
      const double dx = r.u(-1, 1), ds = r.u(0, 1);
      k.predict(dx, ds);
      VF_CHECK(std::fabs(k.x_ - (x + dx)) < 1e-12 && (std::isinf(s) ? std::isinf(k.sigma_) : std::fabs(k.sigma_ - (s + ds)) < 1e-12), "kalman predict",
               "%g %g", k.x_, k.sigma_);
      vf::evaluated();
      continue;
    }
    const double m = r.u(-10, 10);
    const double q = r.p(0.1) ? INFINITY : r.p(0.05) && s > 0 ? 0 : std::exp(r.u(-9, 9));
    k.measure(m, q);
    vf::evaluated(3);
    if (std::isinf(q))
    {
      VF_CHECK(k.x_ == x && (k.sigma_ == s), "kalman uninformative measurement changes the estimate", "%g %g -> %g %g", x, s, k.x_, k.sigma_);
      continue;
    }
    if (std::isinf(s))
    {
      VF_CHECK(k.x_ == m && k.sigma_ == q, "kalman first measurement", "%g %g -> %g %g", m, q, k.x_, k.sigma_);
      continue;
    }
    VF_CHECK(std::isfinite(k.x_) && std::isfinite(k.sigma_), "kalman not finite", "prior %g %g measured %g %g: %g %g", x, s, m, q, k.x_, k.sigma_);
    const double e = 1e-9;
    VF_CHECK(k.x_ >= std::min(x, m) - e && k.x_ <= std::max(x, m) + e, "kalman estimate not between prior and measurement",
             "prior %g %g measured %g %g: %g", x, s, m, q, k.x_);
    VF_CHECK(k.sigma_ <= s + e && k.sigma_ >= 0, "kalman deviation grows", "prior %g measured %g: %g", s, q, k.sigma_);
    // the surer side weighs more
    const double dp = std::fabs(k.x_ - x), dm = std::fabs(k.x_ - m);
    if (s < 0.99 * q)
      VF_CHECK(dp <= dm + e, "kalman trusts the less certain side", "prior %g %g measured %g %g: %g", x, s, m, q, k.x_);
    if (q < 0.99 * s)
      VF_CHECK(dm <= dp + e, "kalman trusts the less certain side", "prior %g %g measured %g %g: %g", x, s, m, q, k.x_);
    // weight is the ratio of variances
    if (s + q > 0)
      VF_CHECK(std::fabs(k.x_ - (x + (m - x) * (s * s / (s * s + q * q)))) < 1e-6, "kalman gain", "prior %g %g measured %g %g: %g", x, s, m, q, k.x_);
    if (k.sigma_ < 1e-100)
      k.set(k.x_, r.u(0.01, 1));
  }
  vf::count("kalman runs");
}

int main(int argc, char** argv)
{
  return vf::run(argc, argv, [](vf::Rng& r, long c)
                 {
                   filters(r);
                   limiter(r);
                   kalman(r);
                   vf::nontrivial(vf::mix(c + 1)); });
}
