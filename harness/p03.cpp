#include <cstring>
#include <functional>
#include <planner_cspace/blockmem_gridmap.h>
#include "vf.h"
using namespace planner_cspace;

template <class T, int DIM, int NC, int BW, bool EV>
struct Fuzz
{
  using G = BlockMemGridmap<T, DIM, NC, BW, EV>;
  using V = CyclicVecInt<DIM, NC>;
  struct Slot
  {
    std::unique_ptr<G> g;
    V size;
    std::vector<T> ref;
    std::vector<char> known;
    bool ready = false;
    size_t idx(const V& v) const
    {
      size_t a = 0;
      for (int i = 0; i < DIM; i++)
        a = a * size[i] + v[i];
      return a;
    }
    V at(size_t k) const
    {
      V v;
      for (int i = DIM - 1; i >= 0; i--)
      {
        v[i] = k % size[i];
        k /= size[i];
      }
      return v;
    }
    void fresh()
    {
      size_t n = 1;
      for (int i = 0; i < DIM; i++)
        n *= size[i];
      ref.assign(n, T());
      known.assign(n, 0);
      ready = true;
    }
  };
  static V randSize(vf::Rng& r)
  {
    V s;
    for (int i = 0; i < DIM; i++)
    {
      if (i < NC)
        s[i] = r.p(0.3) ? BW * r.i(1, 2) + r.i(-1, 1) : r.i(1, std::max(4, std::min(70, BW * 3)));
      else
        s[i] = r.i(1, 9);
      if (s[i] < 1)
        s[i] = 1;
    }
    if (DIM == 3 && NC == 3)
      s[2] = std::min(s[2], 40);
    if (DIM == 3 && s[0] * s[1] > 2000)
      s[2] = std::min(s[2], 4);
    return s;
  }
  static T val(vf::Rng& r)
  {
    return static_cast<T>(r.i(-128, 127));
  }
  static std::string show(const V& v)
  {
    std::string s;
    for (int i = 0; i < DIM; i++)
      s += (i ? "," : "(") + std::to_string(v[i]);
    return s + ")";
  }
  static bool inside(const V& v, const V& size, int tol)
  {
    for (int i = 0; i < DIM; i++)
    {
      const int t = i < NC ? tol : 0;
      if (v[i] < t || v[i] >= size[i] - t)
        return false;
    }
    return true;
  }
  static void compareAll(Slot& s, const char* op)
  {
    long bad = 0;
    V w;
    for (size_t k = 0; k < s.ref.size(); k++)
    {
      if (!s.known[k])
        continue;
      const V v = s.at(k);
      const G& cg = *s.g;
      if (cg[v] != s.ref[k] || (*s.g)[v] != s.ref[k])
      {
        bad++;
        w = v;
      }
    }
    vf::count("cells compared", s.ref.size());
    VF_CHECK(bad == 0, std::string("content-after-") + op, "size %s block %d: %ld cells differ, e.g. %s", show(s.size).c_str(), BW, bad, show(w).c_str());
    VF_CHECK(s.g->size() == s.size, "size", "size() is not the last given");
    VF_CHECK(s.g->ser_size() >= s.ref.size(), "ser-size", "ser_size %zu smaller than the number of cells %zu", s.g->ser_size(), s.ref.size());
  }
  static void go(vf::Rng& r)
  {
    Slot sl[2];
    for (auto& s : sl)
    {
      s.size = randSize(r);
      if (r.p(0.5))
      {
        s.g.reset(new G(s.size));
        s.fresh();
      }
      else
        s.g.reset(new G());
    }
    const int n = r.i(5, 40);
    std::string hist;
    for (int k = 0; k < n; k++)
    {
      Slot& s = sl[r.i(0, 1)];
      Slot& o = &s == &sl[0] ? sl[1] : sl[0];
      if (!s.ready || r.p(0.12))
      {
        s.size = randSize(r);
        s.g->reset(s.size);
        s.fresh();
        hist += "R";
        vf::count("resets");
        if (r.p(0.7))
        {
          const T v = val(r);
          s.g->clear(v);
          std::fill(s.ref.begin(), s.ref.end(), v);
          std::fill(s.known.begin(), s.known.end(), 1);
        }
        compareAll(s, "reset");
        continue;
      }
      auto randIn = [&](const Slot& q)
      {
        return q.at(r.next() % q.ref.size());
      };
      const int op = r.i(0, 6);
      if (op == 0)
      {
        const int m = r.i(1, 60);
        for (int j = 0; j < m; j++)
        {
          const V v = randIn(s);
          const T x = val(r);
          (*s.g)[v] = x;
          s.ref[s.idx(v)] = x;
          s.known[s.idx(v)] = 1;
        }
        hist += "w";
        compareAll(s, "write");
      }
      else if (op == 1)
      {
        const T v = val(r);
        s.g->clear(v);
        std::fill(s.ref.begin(), s.ref.end(), v);
        std::fill(s.known.begin(), s.known.end(), 1);
        hist += "c";
        compareAll(s, "clear");
      }
      else if (op == 2 && DIM == 3)
      {
        V a = randIn(s), b = randIn(s);
        for (int i = 0; i < DIM; i++)
          if (a[i] > b[i])
            std::swap(a[i], b[i]);
        if (r.p(0.1))
          b[0] = a[0] - 1;  // nothing
        const T x = val(r);
        s.g->clear_partially(x, a, b);
        for (size_t q = 0; q < s.ref.size(); q++)
        {
          const V v = s.at(q);
          bool in = true;
          for (int i = 0; i < DIM; i++)
            in &= a[i] <= v[i] && v[i] <= b[i];
          if (in)
            s.ref[q] = x, s.known[q] = 1;
        }
        hist += "p";
        compareAll(s, "clear_partially");
      }
      else if ((op == 3 || op == 4) && DIM == 3 && o.ready)
      {
        V a, b, d;
        bool same = op == 3;
        for (int i = 0; i < DIM; i++)
        {
          const int lim = std::min(s.size[i], o.size[i]);
          if (same)
          {
            a[i] = r.i(0, lim - 1);
            b[i] = r.i(a[i], lim - 1);
            d[i] = a[i];
          }
          else
          {
            const int len = r.i(1, lim);
            a[i] = r.i(0, o.size[i] - len);
            b[i] = a[i] + len - 1;
            d[i] = r.i(0, s.size[i] - len);
          }
        }
        if (same)
          s.g->copy_partially(*o.g, a, b);
        else
          s.g->copy_partially(d, *o.g, a, b);
        for (size_t q = 0; q < o.ref.size(); q++)
        {
          const V v = o.at(q);
          bool in = true;
          V t;
          for (int i = 0; i < DIM; i++)
          {
            in &= a[i] <= v[i] && v[i] <= b[i];
            t[i] = v[i] - a[i] + d[i];
          }
          if (in)
          {
            s.ref[s.idx(t)] = o.ref[q];
            s.known[s.idx(t)] = o.known[q];
          }
        }
        hist += same ? "k" : "K";
        compareAll(s, same ? "copy_partially" : "copy_partially-offset");
        compareAll(o, "being-copied");
      }
      else if (op == 5 && o.ready)
      {
        *s.g = *o.g;
        s.size = o.size;
        s.ref = o.ref;
        s.known = o.known;
        hist += "=";
        compareAll(s, "assign");
        compareAll(o, "being-assigned");
        // no aliasing
        const V v = randIn(s);
        const T x = val(r);
        (*s.g)[v] = x;
        s.ref[s.idx(v)] = x;
        s.known[s.idx(v)] = 1;
        compareAll(o, "write-to-copy");
      }
      else
      {
        bool all = true;
        for (char q : s.known)
          all &= q;
        if (all)
        {
          const T x = val(r);
          s.g->clear_positive(x);
          for (auto& q : s.ref)
            if (q >= 0)
              q = x;
          hist += "+";
          compareAll(s, "clear_positive");
        }
      }
      if (!s.ready)
        continue;
      // range checks
      for (int j = 0; j < 40; j++)
      {
        V v;
        for (int i = 0; i < DIM; i++)
          v[i] = r.p(0.5) ? r.i(-2, s.size[i] + 2) : r.p(0.5) ? r.i(-1, 1) + (r.p(0.5) ? s.size[i] : 0) : r.i(-100000, 100000);
        const int tol = r.p(0.5) ? 0 : r.i(0, 6);
        const bool got = tol == 0 && r.p(0.5) ? s.g->validate(v) : s.g->validate(v, tol);
        vf::count("range checks");
        if (got != inside(v, s.size, tol))
        {
          // default argument path has tolerance 0 and equals the explicit one
          if (!(tol != 0 && false))
            vf::violation("validate", vf::fmt("validate(%s, tol %d) = %d for size %s", show(v).c_str(), tol, got, show(s.size).c_str()));
        }
        if (EV && v[0] > s.size[0] + 2 * BW && v[1] >= 0)
        {
          const G& cg = *s.g;
          volatile T t = cg[v];
          volatile T t2 = (*s.g)[v];
          (void)t;
          (void)t2;
          vf::count("guarded reads");
        }
      }
      // addressing is injective and stays in the allocation
      if (r.p(0.1))
      {
        auto f = s.g->getAddressor();
        std::set<std::pair<size_t, size_t>> seen;
        for (size_t q = 0; q < s.ref.size(); q++)
        {
          size_t b = 0, a = 0;
          f(s.at(q), b, a);
          if (!seen.insert({b, a}).second)
          {
            vf::violation("address-collision", vf::fmt("size %s cell %s", show(s.size).c_str(), show(s.at(q)).c_str()));
            break;
          }
        }
        vf::count("address tables");
      }
    }
    vf::evaluated();
    if (hist.size() > 4)
    {
      vf::nontrivial(vf::hashBytes(hist.data(), hist.size(), DIM * 1000 + NC * 100 + BW + sizeof(T)) ^ sl[0].size[0] * 131 ^ sl[1].size[1]);
      vf::sample(vf::fmt("DIM %d NONCYCLIC %d block %d sizeof(T) %zu: ops %s, sizes %s %s", DIM, NC, BW, sizeof(T), hist.c_str(), show(sl[0].size).c_str(), show(sl[1].size).c_str()));
    }
  }
};
int main(int argc, char** argv)
{
  return vf::run(argc, argv, [](vf::Rng& r, long c)
                 {
    switch (c % 9)
    {
      case 0: return Fuzz<float, 3, 2, 0x20, false>::go(r);
      case 1: return Fuzz<signed char, 3, 2, 0x40, false>::go(r);
      case 2: return Fuzz<char, 3, 2, 0x10, true>::go(r);
      case 3: return Fuzz<float, 2, 2, 0x20, false>::go(r);
      case 4: return Fuzz<float, 2, 0, 0x20, false>::go(r);
      case 5: return Fuzz<signed char, 3, 3, 8, false>::go(r);
      case 6: return Fuzz<double, 3, 2, 1, false>::go(r);
      case 7: return Fuzz<short, 3, 2, 4, true>::go(r);
      default: return Fuzz<float, 3, 2, 8, false>::go(r);
    } });
}
