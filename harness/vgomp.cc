// A small OpenMP runtime on top of ordinary threads, so that the controlled scheduler
// also decides the interleaving of parallel loops.  Covers parallel regions, work
// shared loops with any schedule, critical, atomic, single and barrier.
#include <pthread.h>

#include <map>
#include <vector>

namespace {
struct Share {
  bool ready = false;
  long next = 0, end = 0, incr = 1, chunk = 1;
  unsigned long unext = 0, uend = 0, uincr = 1;
  bool up = true;
  bool single_taken = false;
  int left = 0;
};
struct Team {
  int n = 1;
  pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
  pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
  int arrived = 0;
  long phase = 0;
  std::map<long, Share> shares;
  void (*fn)(void*) = nullptr;
  void* data = nullptr;
};
struct Self {
  Team* team = nullptr;
  int id = 0;
  long seq = 0;  // work shares entered
};
__thread Self* t_self = nullptr;
int g_default = 4;
int g_limit = 1 << 20;
pthread_mutex_t g_critical = PTHREAD_MUTEX_INITIALIZER;
pthread_mutex_t g_atomic = PTHREAD_MUTEX_INITIALIZER;

Self* Me() {
  if (!t_self) {
    t_self = new Self;
    t_self->team = new Team;
  }
  return t_self;
}

struct StartArg {
  Team* team;
  int id;
};
void* Entry(void* p) {
  StartArg* a = static_cast<StartArg*>(p);
  Self self;
  self.team = a->team;
  self.id = a->id;
  t_self = &self;
  a->team->fn(a->team->data);
  t_self = nullptr;
  delete a;
  return nullptr;
}

void Parallel(void (*fn)(void*), void* data, unsigned n, void (*prepare)(Team*, void*), void* arg) {
  Self* old = t_self;
  Team team;
  team.n = n ? n : g_default;
  if (team.n > g_limit) team.n = g_limit;
  if (old && old->team->n > 1) team.n = 1;  // nested regions run on one thread
  team.fn = fn;
  team.data = data;
  if (prepare) prepare(&team, arg);
  std::vector<pthread_t> ts(team.n);
  for (int i = 1; i < team.n; ++i) pthread_create(&ts[i], nullptr, Entry, new StartArg{&team, i});
  Self self;
  self.team = &team;
  t_self = &self;
  fn(data);
  t_self = old;
  for (int i = 1; i < team.n; ++i) pthread_join(ts[i], nullptr);
}

void Barrier() {
  Team* t = Me()->team;
  if (t->n == 1) return;
  pthread_mutex_lock(&t->m);
  const long phase = t->phase;
  if (++t->arrived == t->n) {
    t->arrived = 0;
    ++t->phase;
    pthread_cond_broadcast(&t->cv);
  } else {
    while (t->phase == phase) pthread_cond_wait(&t->cv, &t->m);
  }
  pthread_mutex_unlock(&t->m);
}

struct Lock {
  explicit Lock(Team* t) : t(t) { pthread_mutex_lock(&t->m); }
  ~Lock() { pthread_mutex_unlock(&t->m); }
  Team* t;
};

bool Next(long* a, long* b) {
  Self* s = Me();
  Lock l(s->team);
  Share& w = s->team->shares[s->seq];
  if (w.incr > 0 ? w.next >= w.end : w.next <= w.end) return false;
  *a = w.next;
  long e = w.next + w.chunk * w.incr;
  if (w.incr > 0 ? e > w.end : e < w.end) e = w.end;
  *b = e;
  w.next = e;
  return true;
}
bool Start(long start, long end, long incr, long chunk, long* a, long* b) {
  Self* s = Me();
  ++s->seq;
  {
    Lock l(s->team);
    Share& w = s->team->shares[s->seq];
    if (!w.ready) {
      w.ready = true;
      w.next = start;
      w.end = end;
      w.incr = incr;
      w.chunk = chunk > 0 ? chunk : 1;
    }
  }
  return Next(a, b);
}
bool UNext(unsigned long* a, unsigned long* b) {
  Self* s = Me();
  Lock l(s->team);
  Share& w = s->team->shares[s->seq];
  if (w.up ? w.unext >= w.uend : w.unext <= w.uend) return false;
  *a = w.unext;
  const unsigned long left = w.up ? w.uend - w.unext : w.unext - w.uend;
  const unsigned long step = (w.up ? w.uincr : -w.uincr) * w.chunk;
  const unsigned long go = step < left ? step : left;
  w.unext = w.up ? w.unext + go : w.unext - go;
  *b = w.unext;
  return true;
}
bool UStart(bool up, unsigned long start, unsigned long end, unsigned long incr, unsigned long chunk,
            unsigned long* a, unsigned long* b) {
  Self* s = Me();
  ++s->seq;
  {
    Lock l(s->team);
    Share& w = s->team->shares[s->seq];
    if (!w.ready) {
      w.ready = true;
      w.up = up;
      w.unext = start;
      w.uend = end;
      w.uincr = incr;
      w.chunk = chunk > 0 ? chunk : 1;
    }
  }
  return UNext(a, b);
}
struct LoopArg {
  long start, end, incr, chunk;
};
void PrepareLoop(Team* t, void* p) {
  LoopArg* a = static_cast<LoopArg*>(p);
  Share& w = t->shares[0];
  w.ready = true;
  w.next = a->start;
  w.end = a->end;
  w.incr = a->incr;
  w.chunk = a->chunk > 0 ? a->chunk : 1;
}
}  // namespace

// most threads in a region
extern "C" void vgomp_limit(int n) { g_limit = n; }

extern "C" {
int omp_get_num_threads() { return t_self ? t_self->team->n : 1; }
int omp_get_thread_num() { return t_self ? t_self->id : 0; }
int omp_get_max_threads() { return g_default; }
int omp_get_num_procs() { return g_default; }
int omp_in_parallel() { return omp_get_num_threads() > 1; }
void omp_set_num_threads(int n) { g_default = n > 0 ? n : 1; }
void omp_set_dynamic(int) {}
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { Parallel(fn, data, n, nullptr, nullptr); }
void GOMP_barrier() { Barrier(); }
void GOMP_critical_start() { pthread_mutex_lock(&g_critical); }
void GOMP_critical_end() { pthread_mutex_unlock(&g_critical); }
void GOMP_critical_name_start(void**) { pthread_mutex_lock(&g_critical); }
void GOMP_critical_name_end(void**) { pthread_mutex_unlock(&g_critical); }
void GOMP_atomic_start() { pthread_mutex_lock(&g_atomic); }
void GOMP_atomic_end() { pthread_mutex_unlock(&g_atomic); }
bool GOMP_single_start() {
  Self* s = Me();
  ++s->seq;
  Lock l(s->team);
  Share& w = s->team->shares[s->seq];
  if (w.single_taken) return false;
  return w.single_taken = true;
}
void GOMP_loop_end() { Barrier(); }
void GOMP_loop_end_nowait() {}
#define VLOOP(kind)                                                                                         \
  bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long* a, long* b) {                         \
    return Start(s, e, i, c, a, b);                                                                         \
  }                                                                                                         \
  bool GOMP_loop_##kind##_next(long* a, long* b) { return Next(a, b); }                                     \
  bool GOMP_loop_ull_##kind##_start(bool up, unsigned long s, unsigned long e, unsigned long i,             \
                                    unsigned long c, unsigned long* a, unsigned long* b) {                  \
    return UStart(up, s, e, i, c, a, b);                                                                    \
  }                                                                                                         \
  bool GOMP_loop_ull_##kind##_next(unsigned long* a, unsigned long* b) { return UNext(a, b); }              \
  void GOMP_parallel_loop_##kind(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c,    \
                                 unsigned) {                                                                \
    LoopArg a{s, e, i, c};                                                                                  \
    Parallel(fn, d, n, PrepareLoop, &a);                                                                    \
  }
VLOOP(dynamic)
VLOOP(guided)
VLOOP(nonmonotonic_dynamic)
VLOOP(nonmonotonic_guided)
VLOOP(static)
#define VLOOP_RT(kind)                                                                                      \
  bool GOMP_loop_##kind##_start(long s, long e, long i, long* a, long* b) { return Start(s, e, i, 1, a, b); } \
  bool GOMP_loop_##kind##_next(long* a, long* b) { return Next(a, b); }                                     \
  void GOMP_parallel_loop_##kind(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { \
    LoopArg a{s, e, i, 1};                                                                                  \
    Parallel(fn, d, n, PrepareLoop, &a);                                                                    \
  }
VLOOP_RT(runtime)
VLOOP_RT(nonmonotonic_runtime)
VLOOP_RT(maybe_nonmonotonic_runtime)
}
