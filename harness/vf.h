// Common part of every harness: seeded cases, verdict records, counters, hang guard.
#ifndef VF_H
#define VF_H
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <signal.h>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vf
{
inline uint64_t mix(uint64_t z)
{
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t seed = 1)
    : s(mix(seed))
  {
  }
  uint64_t next()
  {
    s += 0x9e3779b97f4a7c15ULL;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  // inclusive
  int i(int lo, int hi)
  {
    if (hi <= lo)
      return lo;
    return lo + static_cast<int>(next() % static_cast<uint64_t>(static_cast<int64_t>(hi) - lo + 1));
  }
  double u(double lo = 0, double hi = 1)
  {
    return lo + (hi - lo) * ((next() >> 11) * (1.0 / 9007199254740992.0));
  }
  bool p(double prob)
  {
    return u() < prob;
  }
  template <class T>
  const T& pick(const std::vector<T>& v)
  {
    return v[next() % v.size()];
  }
  template <class T>
  T pick(std::initializer_list<T> v)
  {
    return *(v.begin() + next() % v.size());
  }
  double n()
  {
    double a = 0;
    for (int k = 0; k < 12; k++)
      a += u();
    return a - 6;
  }
};

struct State
{
  std::string id, outdir;
  uint64_t seed = 1;
  long from = 0, to = 0;
  int shard = 0, shards = 1;
  bool thorough = false, verbose = false;
  long cur = -1;
  volatile int64_t* mark = nullptr;
  long evaluations = 0;
  std::map<std::string, long> counters;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  std::map<std::string, long> viol;
  FILE* violf = nullptr;
  int case_cpu_limit = 60;
  std::map<std::string, std::string> opt;
};
inline State& st()
{
  static State s;
  return s;
}

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...)
{
  va_list ap;
  va_start(ap, f);
  char buf[4096];
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}

// One violation of the property; key names the kind (stable across line moves), detail the witness.
inline void violation(const std::string& key, const std::string& detail)
{
  State& s = st();
  long n = ++s.viol[key];
  if (n <= 3)
  {
    std::string d = detail;
    for (char& c : d)
      if (c == '\n' || c == '\t')
        c = ' ';
    fprintf(s.violf, "%ld\t%s\t%s\n", s.cur, key.c_str(), d.c_str());
    fflush(s.violf);
    if (getenv("VF_LOG"))
      fprintf(stderr, "VIOL %s %s\n", key.c_str(), d.c_str());
    if (s.verbose)
      printf("VIOL case=%ld key=%s %s\n", s.cur, key.c_str(), d.c_str());
  }
}
#define VF_OK(cond, key, ...) ((cond) ? true : (vf::violation(key, vf::fmt(__VA_ARGS__)), false))
#define VF_CHECK(cond, key, ...)                  \
  do                                              \
  {                                               \
    if (!(cond))                                  \
      ::vf::violation((key), ::vf::fmt(__VA_ARGS__)); \
  } while (0)

inline void count(const std::string& name, long n = 1)
{
  st().counters[name] += n;
}
inline void evaluated(long n = 1)
{
  st().evaluations += n;
}
inline void nontrivial(uint64_t hash)
{
  st().distinct.insert(hash);
}
inline void sample(const std::string& s)
{
  if (st().samples.size() < 3)
    st().samples.push_back(s);
}
inline uint64_t hashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ULL)
{
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; i++)
    h = (h ^ c[i]) * 1099511628211ULL;
  return mix(h);
}
inline uint64_t hashAdd(uint64_t h, double v)
{
  return hashBytes(&v, sizeof v, h);
}

inline std::string jstr(const std::string& s)
{
  std::string o = "\"";
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\')
      o += '\\', o += c;
    else if (c < 32)
      o += ' ';
    else if (c < 127)
      o += c;
    else
      o += '?';
  }
  return o + "\"";
}
inline void finish()
{
  State& s = st();
  std::string p = s.outdir + "/res." + std::to_string(s.shard) + "." + std::to_string(s.from) + ".json";
  FILE* f = fopen(p.c_str(), "w");
  fprintf(f, "{\"evaluations\":%ld,\"counters\":{", s.evaluations);
  bool first = true;
  for (auto& c : s.counters)
    fprintf(f, "%s%s:%ld", first ? "" : ",", jstr(c.first).c_str(), c.second), first = false;
  fprintf(f, "},\"samples\":[");
  for (size_t i = 0; i < s.samples.size(); i++)
    fprintf(f, "%s%s", i ? "," : "", jstr(s.samples[i]).c_str());
  fprintf(f, "],\"violations\":{");
  first = true;
  for (auto& c : s.viol)
    fprintf(f, "%s%s:%ld", first ? "" : ",", jstr(c.first).c_str(), c.second), first = false;
  fprintf(f, "},\"distinct\":[");
  first = true;
  for (uint64_t h : s.distinct)
    fprintf(f, "%s%llu", first ? "" : ",", static_cast<unsigned long long>(h)), first = false;
  fprintf(f, "]}\n");
  fclose(f);
}
inline void onHang(int)
{
  const char m[] = "\nVF-HANG\n";
  (void)!write(2, m, sizeof m - 1);
  _exit(97);
}
inline void armGuard()
{
  // CPU time of the whole process, so machine load does not count
  itimerval t{};
  t.it_value.tv_sec = st().case_cpu_limit;
  setitimer(ITIMER_PROF, &t, nullptr);
}

// runs cases from..to-1 with case%shards==shard
inline int run(int argc, char** argv, const std::function<void(Rng&, long)>& body,
               const std::function<void()>& setup = nullptr)
{
  State& s = st();
  for (int i = 1; i < argc; i++)
  {
    std::string a = argv[i];
    auto val = [&]() -> std::string
    { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--seed")
      s.seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--from")
      s.from = atol(val().c_str());
    else if (a == "--to")
      s.to = atol(val().c_str());
    else if (a == "--shard")
      s.shard = atoi(val().c_str());
    else if (a == "--shards")
      s.shards = atoi(val().c_str());
    else if (a == "--out")
      s.outdir = val();
    else if (a == "--thorough")
      s.thorough = true;
    else if (a == "--verbose")
      s.verbose = true;
    else if (a == "--limit")
      s.case_cpu_limit = atoi(val().c_str());
    else if (a == "--opt")
    {
      std::string o = val();
      size_t e = o.find('=');
      s.opt[o.substr(0, e)] = e == std::string::npos ? "1" : o.substr(e + 1);
    }
  }
  if (s.outdir.empty())
    s.outdir = ".";
  s.violf = fopen((s.outdir + "/viol." + std::to_string(s.shard) + ".tsv").c_str(), "a");
  int fd = open((s.outdir + "/mark." + std::to_string(s.shard)).c_str(), O_RDWR | O_CREAT, 0644);
  if (ftruncate(fd, 8) != 0)
    return 3;
  s.mark = static_cast<int64_t*>(mmap(nullptr, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
  *s.mark = -1;
  signal(SIGPROF, onHang);
  if (setup)
    setup();
  for (long c = s.from; c < s.to; c++)
  {
    if (c % s.shards != s.shard)
      continue;
    s.cur = c;
    *s.mark = c;
    armGuard();
    Rng r(mix(s.seed) ^ mix(static_cast<uint64_t>(c) * 7919 + 13));
    body(r, c);
  }
  *s.mark = -2;
  finish();
  fclose(s.violf);
  fflush(stdout);
  // skip static destruction: nodes under test are judged during the run only
  fflush(stderr);
  _exit(0);
}
}  // namespace vf
#endif
