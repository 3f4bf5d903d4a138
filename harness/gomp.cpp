// OpenMP runtime for race detection: libgomp synchronises with futexes a race detector cannot see, this one with pthreads.
// Compiled without instrumentation, so only pthread calls order the threads of the program under test.
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>
#include <vector>

namespace
{
typedef unsigned long long ull;
const int SLOTS = 64;
struct Slot
{
  std::atomic<long> claim{-1}, ready{-1};
  ull start = 0, count = 0, incr = 0, chunk = 1;
  bool up = true;
  std::atomic<ull> next{0};
};
struct Team
{
  int n = 1;
  pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
  pthread_cond_t c = PTHREAD_COND_INITIALIZER;
  int waiting = 0;
  long gen = 0;
  std::atomic<long> singles{0};
  Slot slots[SLOTS];
  void* copy = nullptr;
  void (*fn)(void*) = nullptr;
  void* data = nullptr;
  bool preset = false;
};
struct Self
{
  Team* team = nullptr;
  int tid = 0;
  long single = 0, ws = 0;
  Slot* cur = nullptr;
  ull sec_n = 0;
  uint64_t rng = 88172645463325252ULL;
};
thread_local Self self;
int g_threads = 1;
int g_level = 0;
uint64_t g_seed = 1;
std::atomic<long> g_barriers{0}, g_regions{0}, g_criticals{0}, g_multi{0};
pthread_mutex_t g_crit = PTHREAD_MUTEX_INITIALIZER, g_atomic = PTHREAD_MUTEX_INITIALIZER, g_names = PTHREAD_MUTEX_INITIALIZER;

struct Worker
{
  pthread_t t;
  pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
  pthread_cond_t c = PTHREAD_COND_INITIALIZER;
  Team* job = nullptr;
  int tid = 0;
  bool done = true;
};
std::vector<Worker*> pool;

void shake()
{
  if (!g_level)
    return;
  self.rng ^= self.rng << 13;
  self.rng ^= self.rng >> 7;
  self.rng ^= self.rng << 17;
  const unsigned v = self.rng >> 33;
  if (v % 100 < static_cast<unsigned>(g_level))
  {
    if (v % 3 == 0)
      usleep(v % 40);
    else
      sched_yield();
  }
}
void enter(Team* t, int tid)
{
  self.team = t;
  self.tid = tid;
  self.single = 0;
  self.ws = t->preset ? 1 : 0;
  self.cur = t->preset ? &t->slots[0] : nullptr;
  self.rng = (g_seed * 0x9e3779b97f4a7c15ULL + tid * 7919 + g_regions * 104729) | 1;
}
void* work(void* p)
{
  Worker* w = static_cast<Worker*>(p);
  for (;;)
  {
    pthread_mutex_lock(&w->m);
    while (!w->job)
      pthread_cond_wait(&w->c, &w->m);
    Team* t = w->job;
    pthread_mutex_unlock(&w->m);
    enter(t, w->tid);
    shake();
    t->fn(t->data);
    pthread_mutex_lock(&w->m);
    w->job = nullptr;
    w->done = true;
    pthread_cond_broadcast(&w->c);
    pthread_mutex_unlock(&w->m);
  }
}
void barrier()
{
  Team* t = self.team;
  if (!t || t->n == 1)
    return;
  shake();
  pthread_mutex_lock(&t->m);
  const long g = t->gen;
  if (++t->waiting == t->n)
  {
    t->waiting = 0;
    t->gen++;
    g_barriers++;
    pthread_cond_broadcast(&t->c);
  }
  else
    while (t->gen == g)
      pthread_cond_wait(&t->c, &t->m);
  pthread_mutex_unlock(&t->m);
  shake();
}
void runTeam(Team* t)
{
  g_regions++;
  const Self saved = self;
  if (t->n > 1)
    g_multi++;
  while (static_cast<int>(pool.size()) < t->n - 1)
  {
    Worker* w = new Worker();
    pthread_create(&w->t, nullptr, work, w);
    pool.push_back(w);
  }
  for (int i = 1; i < t->n; i++)
  {
    Worker* w = pool[i - 1];
    pthread_mutex_lock(&w->m);
    w->job = t;
    w->tid = i;
    w->done = false;
    pthread_cond_broadcast(&w->c);
    pthread_mutex_unlock(&w->m);
  }
  enter(t, 0);
  shake();
  t->fn(t->data);
  for (int i = 1; i < t->n; i++)
  {
    Worker* w = pool[i - 1];
    pthread_mutex_lock(&w->m);
    while (!w->done)
      pthread_cond_wait(&w->c, &w->m);
    pthread_mutex_unlock(&w->m);
  }
  self = saved;
}
int teamSize(unsigned n)
{
  if (self.team && self.team->n > 1)
    return 1;
  return n ? n : g_threads;
}
Slot* claim(bool up, ull start, ull count, ull incr, ull chunk)
{
  static Team solo;
  Team* t = self.team ? self.team : &solo;
  const long k = self.ws++;
  Slot* s = &t->slots[k % SLOTS];
  if (t->n == 1)
  {
    s->claim = s->ready = k;
    s->start = start, s->count = count, s->incr = incr, s->chunk = chunk ? chunk : 1, s->up = up;
    s->next = 0;
    return self.cur = s;
  }
  long old = s->claim.load(std::memory_order_relaxed);
  if (old < k && s->claim.compare_exchange_strong(old, k))
  {
    s->start = start, s->count = count, s->incr = incr, s->chunk = chunk ? chunk : 1, s->up = up;
    s->next = 0;
    s->ready = k;
  }
  else
    while (s->ready.load() < k)
      sched_yield();
  return self.cur = s;
}
bool take(ull* a, ull* b)
{
  shake();
  Slot* s = self.cur;
  const ull at = s->next.fetch_add(s->chunk);
  if (at >= s->count)
    return false;
  ull to = at + s->chunk;
  if (to > s->count)
    to = s->count;
  *a = s->start + at * s->incr;
  *b = s->start + to * s->incr;
  return true;
}
bool loopStart(long start, long end, long incr, long chunk, long* a, long* b)
{
  const long n = incr > 0 ? (end > start ? (end - start + incr - 1) / incr : 0) : (end < start ? (start - end - incr - 1) / -incr : 0);
  claim(true, start, n, incr, chunk);
  return take(reinterpret_cast<ull*>(a), reinterpret_cast<ull*>(b));
}
bool loopStartU(bool up, ull start, ull end, ull incr, ull chunk, ull* a, ull* b)
{
  const ull n = up ? (end > start ? (end - start + incr - 1) / incr : 0) : (end < start ? (start - end - incr - 1) / -incr : 0);
  claim(up, start, n, incr, chunk);
  return take(a, b);
}
}  // namespace

extern "C" {
void gomp_shake(uint64_t seed, int level)
{
  g_seed = seed;
  g_level = level;
}
long gomp_stat(int k)
{
  return k == 0 ? g_regions.load() : k == 1 ? g_multi.load() : k == 2 ? g_barriers.load() : g_criticals.load();
}
int omp_get_num_threads()
{
  return self.team ? self.team->n : 1;
}
int omp_get_thread_num()
{
  return self.tid;
}
int omp_get_max_threads()
{
  return g_threads;
}
void omp_set_num_threads(int n)
{
  g_threads = n < 1 ? 1 : n > 64 ? 64 : n;
}
int omp_get_num_procs()
{
  return 8;
}
int omp_in_parallel()
{
  return self.team && self.team->n > 1;
}
int omp_get_level()
{
  return self.team ? 1 : 0;
}
void omp_set_dynamic(int)
{
}
int omp_get_dynamic()
{
  return 0;
}
void omp_set_nested(int)
{
}
double omp_get_wtime()
{
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
struct lk
{
  pthread_mutex_t* m;
};
void omp_init_lock(lk* l)
{
  l->m = new pthread_mutex_t;
  pthread_mutex_init(l->m, nullptr);
}
void omp_destroy_lock(lk* l)
{
  delete l->m;
}
void omp_set_lock(lk* l)
{
  pthread_mutex_lock(l->m);
}
void omp_unset_lock(lk* l)
{
  pthread_mutex_unlock(l->m);
}
int omp_test_lock(lk* l)
{
  return pthread_mutex_trylock(l->m) == 0;
}
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned)
{
  Team* t = new Team();
  t->n = teamSize(n);
  t->fn = fn;
  t->data = data;
  runTeam(t);
  delete t;
}
void GOMP_barrier()
{
  barrier();
}
bool GOMP_single_start()
{
  Team* t = self.team;
  const long k = self.single++;
  if (!t || t->n == 1)
    return true;
  shake();
  long want = k;
  return t->singles.compare_exchange_strong(want, k + 1, std::memory_order_relaxed);
}
void* GOMP_single_copy_start()
{
  if (GOMP_single_start())
    return nullptr;
  barrier();
  void* p = self.team->copy;
  return p;
}
void GOMP_single_copy_end(void* p)
{
  if (self.team)
    self.team->copy = p;
  barrier();
}
void GOMP_critical_start()
{
  shake();
  g_criticals++;
  pthread_mutex_lock(&g_crit);
}
void GOMP_critical_end()
{
  pthread_mutex_unlock(&g_crit);
  shake();
}
void GOMP_critical_name_start(void** p)
{
  shake();
  g_criticals++;
  pthread_mutex_lock(&g_names);
  if (!*p)
  {
    pthread_mutex_t* m = new pthread_mutex_t;
    pthread_mutex_init(m, nullptr);
    *p = m;
  }
  pthread_mutex_t* m = static_cast<pthread_mutex_t*>(*p);
  pthread_mutex_unlock(&g_names);
  pthread_mutex_lock(m);
}
void GOMP_critical_name_end(void** p)
{
  pthread_mutex_unlock(static_cast<pthread_mutex_t*>(*p));
  shake();
}
void GOMP_atomic_start()
{
  pthread_mutex_lock(&g_atomic);
}
void GOMP_atomic_end()
{
  pthread_mutex_unlock(&g_atomic);
}
#define LOOP(NAME)                                                                                      \
  bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long* a, long* b)                       \
  {                                                                                                     \
    return loopStart(s, e, i, c, a, b);                                                                 \
  }                                                                                                     \
  bool GOMP_loop_##NAME##_next(long* a, long* b)                                                        \
  {                                                                                                     \
    return take(reinterpret_cast<ull*>(a), reinterpret_cast<ull*>(b));                                  \
  }                                                                                                     \
  bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull i, ull c, ull* a, ull* b)                \
  {                                                                                                     \
    return loopStartU(up, s, e, i, c, a, b);                                                            \
  }                                                                                                     \
  bool GOMP_loop_ull_##NAME##_next(ull* a, ull* b)                                                      \
  {                                                                                                     \
    return take(a, b);                                                                                  \
  }                                                                                                     \
  void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) \
  {                                                                                                     \
    Team* t = new Team();                                                                               \
    t->n = teamSize(n);                                                                                 \
    t->fn = fn;                                                                                         \
    t->data = d;                                                                                        \
    t->preset = true;                                                                                   \
    Slot& l = t->slots[0];                                                                              \
    l.claim = l.ready = 0;                                                                              \
    l.start = s;                                                                                        \
    l.incr = i;                                                                                         \
    l.chunk = c > 0 ? c : 1;                                                                            \
    l.count = i > 0 ? (e > s ? (e - s + i - 1) / i : 0) : (e < s ? (s - e - i - 1) / -i : 0);           \
    runTeam(t);                                                                                         \
    delete t;                                                                                           \
  }
LOOP(static)
LOOP(dynamic)
LOOP(guided)
LOOP(nonmonotonic_dynamic)
LOOP(nonmonotonic_guided)
#define RLOOP(NAME)                                                                    \
  bool GOMP_loop_##NAME##_start(long s, long e, long i, long* a, long* b)              \
  {                                                                                    \
    return loopStart(s, e, i, 1, a, b);                                                \
  }                                                                                    \
  bool GOMP_loop_##NAME##_next(long* a, long* b)                                       \
  {                                                                                    \
    return take(reinterpret_cast<ull*>(a), reinterpret_cast<ull*>(b));                 \
  }                                                                                    \
  bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull i, ull* a, ull* b)      \
  {                                                                                    \
    return loopStartU(up, s, e, i, 1, a, b);                                           \
  }                                                                                    \
  bool GOMP_loop_ull_##NAME##_next(ull* a, ull* b)                                     \
  {                                                                                    \
    return take(a, b);                                                                 \
  }                                                                                    \
  void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned f) \
  {                                                                                    \
    GOMP_parallel_loop_dynamic(fn, d, n, s, e, i, 1, f);                               \
  }
RLOOP(runtime)
RLOOP(nonmonotonic_runtime)
RLOOP(maybe_nonmonotonic_runtime)
void GOMP_loop_end()
{
  barrier();
}
void GOMP_loop_end_nowait()
{
}
unsigned GOMP_sections_next()
{
  ull a, b;
  return take(&a, &b) ? static_cast<unsigned>(a) : 0;
}
unsigned GOMP_sections_start(unsigned n)
{
  claim(true, 1, n, 1, 1);
  return GOMP_sections_next();
}
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned count, unsigned f)
{
  GOMP_parallel_loop_dynamic(fn, d, n, 1, static_cast<long>(count) + 1, 1, 1, f);
}
void GOMP_sections_end()
{
  barrier();
}
void GOMP_sections_end_nowait()
{
}
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int, void*)
{
  if (cpy)
  {
    char* mem = static_cast<char*>(malloc(size + align));
    char* p = reinterpret_cast<char*>((reinterpret_cast<uintptr_t>(mem) + align - 1) / align * align);
    cpy(p, data);
    fn(p);
    free(mem);
  }
  else
    fn(data);
}
void GOMP_taskwait()
{
}
}
