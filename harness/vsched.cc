// Controlled scheduler, see sched.h.
//
// Interposes the blocking primitives of libc.  Managed threads hand a baton to each
// other: exactly one of them runs at any time, and every primitive, every (sampled)
// atomic access and optionally plain memory accesses are points where the next thread
// is chosen from a seeded generator.  Mutexes are the real ones, taken with trylock, so
// unmanaged threads remain compatible.
#include "vsched.h"

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

extern "C" char __executable_start;

namespace {

long raw_syscall(long n, long a, long b, long c, long d, long e, long f) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall"
                   : "=a"(ret)
                   : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return ret;
}

constexpr int kMax = 512;
enum State { kFree, kRun, kBlocked, kDone };

struct Thread {
  State state = kFree;
  const void* obj = nullptr;  // what it waits for
  int64_t wake = -1;          // virtual time at which a timed wait ends
  bool timed_out = false;
  bool is_mutex = false;
  bool may_spurious = false;
  int go = 0;
  pthread_t real{};
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  bool detached = false;
  double weight = 1;
  int64_t prio = 0;
};

Thread g_t[kMax];
int g_n = 0;
volatile int g_enabled = 0;
int g_cur = -1;
int64_t g_now = 0;
int64_t g_steps = 0;
int64_t g_low_prio = 0;
vsched::Config g_cfg;
void (*g_stuck)(const char*) = nullptr;
uint64_t g_rng = 1;
int64_t g_change[64];
int g_nchange = 0;
int g_mem_count = 1 << 30;
int g_stalls = 0;  // left in this run
uint32_t g_site_at = 0, g_site_mem = 0, g_share_at = 1, g_share_mem = 1;

__thread int t_id __attribute__((tls_model("initial-exec"))) = -1;
__thread int t_in __attribute__((tls_model("initial-exec"))) = 0;

uint64_t Rnd() {
  g_rng ^= g_rng << 13;
  g_rng ^= g_rng >> 7;
  g_rng ^= g_rng << 17;
  return g_rng * 0x2545F4914F6CDD1DULL;
}
double Rnd01() { return (Rnd() >> 11) * (1.0 / 9007199254740992.0); }

bool Managed() { return g_enabled && t_id >= 0 && !t_in; }

void WaitGo(int id) {
  while (true) {
    if (__atomic_exchange_n(&g_t[id].go, 0, __ATOMIC_ACQUIRE) == 1) return;
    raw_syscall(SYS_futex, reinterpret_cast<long>(&g_t[id].go), FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  }
}
void PostGo(int id) {
  __atomic_store_n(&g_t[id].go, 1, __ATOMIC_RELEASE);
  raw_syscall(SYS_futex, reinterpret_cast<long>(&g_t[id].go), FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

void Stuck(const char* why) {
  t_in++;
  g_enabled = 0;
  if (g_stuck) g_stuck(why);
  _exit(71);
}

void Expire() {
  for (int i = 0; i < g_n; ++i) {
    if (g_t[i].state == kBlocked && g_t[i].wake >= 0 && g_t[i].wake <= g_now) {
      g_t[i].state = kRun;
      g_t[i].timed_out = true;
      g_t[i].wake = -1;
    }
  }
}

int NearestTimer() {
  int best = -1;
  for (int i = 0; i < g_n; ++i)
    if (g_t[i].state == kBlocked && g_t[i].wake >= 0 &&
        (best < 0 || g_t[i].wake < g_t[best].wake))
      best = i;
  return best;
}

void FireTimer(int i) {
  if (g_t[i].wake > g_now) g_now = g_t[i].wake;
  Expire();
}

// Chooses the thread to run next.
int Pick(int self, bool force_other) {
  ++g_steps;
  g_now += 200;
  if (g_steps > g_cfg.max_steps) Stuck("livelock");
  if (g_now > g_cfg.max_virtual_ns) Stuck("timeout");
  Expire();
  bool change = false;
  if (g_cfg.policy == 1 || g_cfg.policy == 2) {
    for (int k = 0; k < g_nchange; ++k)
      if (g_change[k] == g_steps) change = true;
    if (change && self >= 0) g_t[self].prio = --g_low_prio;
    if (force_other && self >= 0) g_t[self].prio = --g_low_prio;
  }
  if ((g_cfg.policy == 0 && Rnd01() < g_cfg.early) || (g_cfg.policy == 2 && change)) {
    // some timer, not necessarily the nearest: the machine may be slow
    int k = NearestTimer();
    if (k >= 0) FireTimer(k);
  }
  if (g_cfg.spurious > 0 && g_cfg.policy != 3 && Rnd01() < g_cfg.spurious) {
    for (int i = 0; i < g_n; ++i)
      if (g_t[i].state == kBlocked && g_t[i].may_spurious && (Rnd() & 1)) {
        g_t[i].state = kRun;
        g_t[i].wake = -1;
        break;
      }
  }
  int cand[kMax];
  int n = 0;
  int tries = 0;
  while (true) {
    n = 0;
    for (int i = 0; i < g_n; ++i)
      if (g_t[i].state == kRun) cand[n++] = i;
    if (n > 0) break;
    int k = NearestTimer();
    if (k >= 0) {
      if (g_t[k].wake > g_cfg.max_virtual_ns) Stuck("timeout");
      FireTimer(k);
      continue;
    }
    // maybe a mutex is held by a thread that is just leaving
    bool any = false;
    for (int i = 0; i < g_n; ++i)
      if (g_t[i].state == kBlocked && g_t[i].is_mutex) any = true;
    if (!any || ++tries > 200) Stuck("deadlock");
    struct timespec ts = {0, 1000000};
    raw_syscall(SYS_nanosleep, reinterpret_cast<long>(&ts), 0, 0, 0, 0, 0);
    for (int i = 0; i < g_n; ++i)
      if (g_t[i].state == kBlocked && g_t[i].is_mutex) g_t[i].state = kRun;
  }
  const bool self_ok = self >= 0 && g_t[self].state == kRun;
  if (n == 1) return cand[0];
  switch (g_cfg.policy) {
    case 1:
    case 2: {
      int best = cand[0];
      for (int i = 1; i < n; ++i)
        if (g_t[cand[i]].prio > g_t[best].prio) best = cand[i];
      return best;
    }
    case 3:
      if (self_ok && !force_other) return self;
      for (int i = 0; i < n; ++i)
        if (cand[i] > self) return cand[i];
      return cand[0];
    default: {
      if (self_ok && !force_other && Rnd01() < g_cfg.stick) return self;
      double sum = 0;
      for (int i = 0; i < n; ++i)
        if (!(force_other && cand[i] == self)) sum += g_t[cand[i]].weight;
      double r = Rnd01() * sum;
      for (int i = 0; i < n; ++i) {
        if (force_other && cand[i] == self) continue;
        r -= g_t[cand[i]].weight;
        if (r <= 0) return cand[i];
      }
      return cand[n - 1];
    }
  }
}

void SwitchTo(int self, int next) {
  g_cur = next;
  if (next == self) return;
  PostGo(next);
  WaitGo(self);
}

void PointImpl(bool force_other) {
  const int self = t_id;
  t_in++;
  SwitchTo(self, Pick(self, force_other));
  t_in--;
}

// Blocks until woken or (wake >= 0) the virtual time is reached; true if woken.
bool Block(const void* obj, int64_t wake, bool is_mutex, bool spurious) {
  const int self = t_id;
  t_in++;
  Thread& t = g_t[self];
  t.state = kBlocked;
  t.obj = obj;
  t.wake = wake;
  t.timed_out = false;
  t.is_mutex = is_mutex;
  t.may_spurious = spurious;
  SwitchTo(self, Pick(self, false));
  t.obj = nullptr;
  t.is_mutex = false;
  t.may_spurious = false;
  const bool woken = !t.timed_out;
  t_in--;
  return woken;
}

// A place of the code, independent of where the program was loaded.
uint32_t Site(const void* ret) {
  const uint64_t a = reinterpret_cast<uint64_t>(ret) - reinterpret_cast<uint64_t>(&__executable_start);
  return static_cast<uint32_t>((a * 0x9E3779B97F4A7C15ULL) >> 40);
}
void Stall() {
  if (Rnd01() >= g_cfg.stall_p) return;
  --g_stalls;
  static const int64_t ms[] = {1, 8, 40, 150, 700, 2500};
  Block(&g_stalls, g_now + ms[Rnd() % 6] * 1000000LL, false, false);
}
#define STALL_AT(kind)                                                                      \
  if (__builtin_expect(g_stalls > 0, 0) && Managed() &&                                     \
      Site(__builtin_return_address(0)) % g_share_##kind == g_site_##kind)                  \
  Stall()

void WakeAll(const void* obj) {
  for (int i = 0; i < g_n; ++i)
    if (g_t[i].state == kBlocked && g_t[i].obj == obj) {
      g_t[i].state = kRun;
      g_t[i].wake = -1;
    }
}
int WakeSome(const void* obj, int count) {
  int woken = 0;
  while (woken < count) {
    int cand[kMax];
    int n = 0;
    for (int i = 0; i < g_n; ++i)
      if (g_t[i].state == kBlocked && g_t[i].obj == obj) cand[n++] = i;
    if (n == 0) break;
    int k = cand[g_cfg.policy == 3 ? 0 : Rnd() % n];
    g_t[k].state = kRun;
    g_t[k].wake = -1;
    ++woken;
  }
  return woken;
}

int64_t ToNs(const struct timespec* ts) { return ts->tv_sec * 1000000000LL + ts->tv_nsec; }
constexpr int64_t kEpoch = 1600000000LL * 1000000000LL;

template <typename F>
F Real(const char* name, const char* version = nullptr) {
  void* p = version ? dlvsym(RTLD_NEXT, name, version) : nullptr;
  if (!p) p = dlsym(RTLD_NEXT, name);
  if (!p) {
    fprintf(stderr, "sched: no %s\n", name);
    abort();
  }
  return reinterpret_cast<F>(p);
}
#define REAL(ret, name, ...)                             \
  static ret (*real)(__VA_ARGS__) = nullptr;             \
  if (!real) real = Real<ret (*)(__VA_ARGS__)>(#name)
#define REALV(ret, name, ver, ...)                       \
  static ret (*real)(__VA_ARGS__) = nullptr;             \
  if (!real) real = Real<ret (*)(__VA_ARGS__)>(#name, ver)

void* Trampoline(void* p) {
  const int id = static_cast<int>(reinterpret_cast<intptr_t>(p));
  t_id = id;
  t_in++;
  WaitGo(id);
  t_in--;
  void* ret = g_t[id].fn(g_t[id].arg);
  t_in++;
  g_t[id].state = kDone;
  WakeAll(&g_t[id]);
  const int next = Pick(-1, false);
  t_id = -1;
  g_cur = next;
  PostGo(next);
  return ret;
}

int MutexLock(pthread_mutex_t* m, int64_t until) {
  static int (*tl)(pthread_mutex_t*) = nullptr;
  if (!tl) tl = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
  PointImpl(false);
  while (true) {
    int r = tl(m);
    if (r != EBUSY) return r;
    if (!Block(m, until, true, false)) return ETIMEDOUT;
  }
}
int MutexUnlock(pthread_mutex_t* m) {
  static int (*ul)(pthread_mutex_t*) = nullptr;
  if (!ul) ul = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
  int r = ul(m);
  if (g_enabled) WakeAll(m);
  return r;
}

}  // namespace

namespace vsched {
void Start(const Config& config, void (*stuck)(const char*)) {
  g_cfg = config;
  g_stuck = stuck;
  g_rng = config.seed * 0x9E3779B97F4A7C15ULL + 0x1234567ULL;
  if (!g_rng) g_rng = 1;
  for (int i = 0; i < 8; ++i) Rnd();
  g_now = 0;
  g_steps = 0;
  g_n = 1;
  g_t[0] = Thread();
  g_t[0].state = kRun;
  g_t[0].weight = 0.05 + Rnd01();
  g_t[0].prio = 1000 + Rnd() % 100000;
  t_id = 0;
  g_cur = 0;
  g_nchange = 0;
  for (int i = 0; i < config.pct_depth && i < 64; ++i)
    g_change[g_nchange++] = 1 + Rnd() % (config.pct_steps > 0 ? config.pct_steps : 1);
  g_stalls = config.stall_max;
  g_share_at = config.stall_share > 0 ? config.stall_share : 1;
  g_share_mem = g_share_at * 24;
  g_site_at = Rnd() % g_share_at;
  g_site_mem = Rnd() % g_share_mem;
  g_mem_count = config.mem_every > 0 ? 1 + Rnd() % (2 * config.mem_every) : 1 << 30;
  g_enabled = 1;
}
void Stop() {
  g_enabled = 0;
  t_id = -1;
}
bool Enabled() { return g_enabled; }
void Point() {
  if (Managed()) PointImpl(false);
}
int64_t NowNs() { return g_now; }
int64_t Steps() { return g_steps; }
int LiveThreads() {
  int n = 0;
  for (int i = 0; i < g_n; ++i)
    if (g_t[i].state == kRun || g_t[i].state == kBlocked) ++n;
  return n;
}
int ThreadId() { return t_id; }
bool Waiting(int id) {
  return g_t[id].state == kBlocked && !g_t[id].is_mutex && g_t[id].wake < 0;
}
bool Resting(int id) {
  return g_t[id].state == kBlocked && !g_t[id].is_mutex && g_t[id].obj != &g_stalls;
}
void Pause(int n) {
  for (int i = 0; i < n; ++i)
    if (Managed()) PointImpl(true);
}
}  // namespace vsched

extern "C" {

int pthread_create(pthread_t* th, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
  REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
  if (!Managed()) return real(th, attr, fn, arg);
  if (g_n >= kMax) Stuck("too many threads");
  const int id = g_n;
  g_t[id] = Thread();
  g_t[id].fn = fn;
  g_t[id].arg = arg;
  g_t[id].weight = 0.05 + Rnd01();
  if (Rnd() % 4 == 0) g_t[id].weight *= 0.05;
  g_t[id].prio = 1000 + Rnd() % 100000;
  if (attr) {
    int ds = 0;
    pthread_attr_getdetachstate(attr, &ds);
    g_t[id].detached = ds == PTHREAD_CREATE_DETACHED;
  }
  t_in++;
  int r = real(&g_t[id].real, attr, Trampoline, reinterpret_cast<void*>(static_cast<intptr_t>(id)));
  t_in--;
  if (r != 0) return r;
  g_t[id].state = kRun;
  g_n++;
  *th = g_t[id].real;
  PointImpl(false);
  return 0;
}

static int FindThread(pthread_t th) {
  for (int i = g_n - 1; i >= 1; --i)
    if (pthread_equal(g_t[i].real, th)) return i;
  return -1;
}

int pthread_join(pthread_t th, void** ret) {
  REAL(int, pthread_join, pthread_t, void**);
  if (!Managed()) return real(th, ret);
  PointImpl(false);
  const int id = FindThread(th);
  if (id == t_id && id >= 0) return EDEADLK;
  if (id >= 0) {
    while (g_t[id].state != kDone) Block(&g_t[id], -1, false, false);
  }
  t_in++;
  int r = real(th, ret);
  t_in--;
  return r;
}

int pthread_mutex_lock(pthread_mutex_t* m) {
  REAL(int, pthread_mutex_lock, pthread_mutex_t*);
  if (!Managed()) return real(m);
  STALL_AT(at);
  return MutexLock(m, -1);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  REAL(int, pthread_mutex_trylock, pthread_mutex_t*);
  if (Managed()) PointImpl(false);
  return real(m);
}
static int64_t Abs(clockid_t clk, const struct timespec* ts) {
  (void)clk;
  return ToNs(ts) - kEpoch;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) {
  REAL(int, pthread_mutex_timedlock, pthread_mutex_t*, const struct timespec*);
  if (!Managed()) return real(m, ts);
  int64_t u = Abs(CLOCK_REALTIME, ts);
  return MutexLock(m, u < 0 ? 0 : u);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) {
  REAL(int, pthread_mutex_clocklock, pthread_mutex_t*, clockid_t, const struct timespec*);
  if (!Managed()) return real(m, c, ts);
  int64_t u = Abs(c, ts);
  return MutexLock(m, u < 0 ? 0 : u);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  REAL(int, pthread_mutex_unlock, pthread_mutex_t*);
  if (!Managed()) return real(m);
  int r = MutexUnlock(m);
  STALL_AT(at);
  PointImpl(false);
  return r;
}

static int CondWait(pthread_cond_t* c, pthread_mutex_t* m, int64_t until) {
  PointImpl(false);
  MutexUnlock(m);
  const bool woken = Block(c, until, false, true);
  int r = MutexLock(m, -1);
  if (r != 0) return r;
  return woken ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  REALV(int, pthread_cond_wait, "GLIBC_2.3.2", pthread_cond_t*, pthread_mutex_t*);
  if (!Managed()) return real(c, m);
  return CondWait(c, m, -1);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  REALV(int, pthread_cond_timedwait, "GLIBC_2.3.2", pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
  if (!Managed()) return real(c, m, ts);
  int64_t u = Abs(CLOCK_REALTIME, ts);
  return CondWait(c, m, u < 0 ? 0 : u);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const struct timespec* ts) {
  REAL(int, pthread_cond_clockwait, pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
  if (!Managed()) return real(c, m, clk, ts);
  int64_t u = Abs(clk, ts);
  return CondWait(c, m, u < 0 ? 0 : u);
}
int pthread_cond_signal(pthread_cond_t* c) {
  REALV(int, pthread_cond_signal, "GLIBC_2.3.2", pthread_cond_t*);
  if (!Managed()) return real(c);
  PointImpl(false);
  WakeSome(c, 1);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  REALV(int, pthread_cond_broadcast, "GLIBC_2.3.2", pthread_cond_t*);
  if (!Managed()) return real(c);
  PointImpl(false);
  WakeAll(c);
  return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
  REALV(int, pthread_cond_destroy, "GLIBC_2.3.2", pthread_cond_t*);
  if (!Managed()) return real(c);
  return 0;
}

int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t*);
  if (!Managed()) return real(l);
  static int (*tl)(pthread_rwlock_t*) = nullptr;
  if (!tl) tl = Real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_tryrdlock");
  PointImpl(false);
  while (true) {
    int r = tl(l);
    if (r != EBUSY) return r;
    Block(l, -1, true, false);
  }
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t*);
  if (!Managed()) return real(l);
  static int (*tl)(pthread_rwlock_t*) = nullptr;
  if (!tl) tl = Real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_trywrlock");
  PointImpl(false);
  while (true) {
    int r = tl(l);
    if (r != EBUSY) return r;
    Block(l, -1, true, false);
  }
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  REAL(int, pthread_rwlock_unlock, pthread_rwlock_t*);
  if (!Managed()) return real(l);
  int r = real(l);
  WakeAll(l);
  PointImpl(false);
  return r;
}

int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  REAL(int, pthread_once, pthread_once_t*, void (*)(void));
  if (!Managed()) return real(o, fn);
  static pthread_once_t* busy[64];
  while (true) {
    if ((*o & 2) != 0) return 0;
    int slot = -1;
    bool running = false;
    for (int i = 0; i < 64; ++i) {
      if (busy[i] == o) running = true;
      if (!busy[i]) slot = i;
    }
    if (running) {
      Block(o, -1, false, false);
      continue;
    }
    if (slot < 0) Stuck("pthread_once");
    busy[slot] = o;
    fn();
    *o = 2;
    busy[slot] = nullptr;
    WakeAll(o);
    return 0;
  }
}

static int SleepNs(int64_t ns) {
  if (ns < 0) ns = 0;
  static char never;
  Block(&never, g_now + ns, false, false);
  return 0;
}
int nanosleep(const struct timespec* req, struct timespec* rem) {
  REAL(int, nanosleep, const struct timespec*, struct timespec*);
  if (!Managed()) return real(req, rem);
  return SleepNs(ToNs(req));
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* req, struct timespec* rem) {
  REAL(int, clock_nanosleep, clockid_t, int, const struct timespec*, struct timespec*);
  if (!Managed()) return real(c, flags, req, rem);
  return SleepNs((flags & TIMER_ABSTIME) ? Abs(c, req) - g_now : ToNs(req));
}
int usleep(useconds_t us) {
  REAL(int, usleep, useconds_t);
  if (!Managed()) return real(us);
  return SleepNs(us * 1000LL);
}
unsigned int sleep(unsigned int s) {
  REAL(unsigned int, sleep, unsigned int);
  if (!Managed()) return real(s);
  SleepNs(s * 1000000000LL);
  return 0;
}
int sched_yield(void) {
  REAL(int, sched_yield, void);
  if (!Managed()) return real();
  PointImpl(true);
  return 0;
}
int clock_gettime(clockid_t c, struct timespec* ts) {
  REAL(int, clock_gettime, clockid_t, struct timespec*);
  if (!Managed() || (c != CLOCK_REALTIME && c != CLOCK_MONOTONIC)) return real(c, ts);
  g_now += 1000;
  int64_t t = kEpoch + g_now;
  ts->tv_sec = t / 1000000000LL;
  ts->tv_nsec = t % 1000000000LL;
  return 0;
}
int gettimeofday(struct timeval* tv, void* tz) {
  REAL(int, gettimeofday, struct timeval*, void*);
  if (!Managed()) return real(tv, tz);
  g_now += 1000;
  int64_t t = kEpoch + g_now;
  tv->tv_sec = t / 1000000000LL;
  tv->tv_usec = t % 1000000000LL / 1000;
  return 0;
}

long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a[6];
  for (int i = 0; i < 6; ++i) a[i] = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && Managed()) {
    int* uaddr = reinterpret_cast<int*>(a[0]);
    const int op = a[1] & 127;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      PointImpl(false);
      if (__atomic_load_n(uaddr, __ATOMIC_SEQ_CST) != static_cast<int>(a[2])) {
        errno = EAGAIN;
        return -1;
      }
      int64_t wake = -1;
      const struct timespec* ts = reinterpret_cast<const struct timespec*>(a[3]);
      if (ts) wake = op == FUTEX_WAIT ? g_now + ToNs(ts) : Abs(0, ts);
      if (ts && wake < 0) wake = 0;
      if (!Block(uaddr, wake, false, true)) {
        errno = ETIMEDOUT;
        return -1;
      }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      int w = WakeSome(uaddr, a[2] > kMax ? kMax : static_cast<int>(a[2]));
      raw_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
      PointImpl(false);
      return w;
    }
  }
  long r = raw_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
  if (r < 0 && r > -4096) {
    errno = static_cast<int>(-r);
    return -1;
  }
  return r;
}

// ---- instrumentation runtime ------------------------------------------------------

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
static void MemSlow() {
  g_mem_count = g_cfg.mem_every > 0 ? 1 + Rnd() % (2 * g_cfg.mem_every) : 1 << 30;
  if (Managed()) PointImpl(false);
}
#define MEM()                                             \
  if (__builtin_expect(--g_mem_count <= 0, 0)) MemSlow(); \
  STALL_AT(mem)
#define DEF_RW(n)                                         \
  void __tsan_read##n(void*) { MEM(); }                   \
  void __tsan_write##n(void*) { MEM(); }                  \
  void __tsan_unaligned_read##n(void*) { MEM(); }         \
  void __tsan_unaligned_write##n(void*) { MEM(); }        \
  void __tsan_volatile_read##n(void*) { MEM(); }          \
  void __tsan_volatile_write##n(void*) { MEM(); }
DEF_RW(1)
DEF_RW(2)
DEF_RW(4)
DEF_RW(8)
DEF_RW(16)
void __tsan_read_range(void*, unsigned long) { MEM(); }
void __tsan_write_range(void*, unsigned long) { MEM(); }
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
void* __tsan_memcpy(void* d, const void* s, unsigned long n) { return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, unsigned long n) { return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, unsigned long n) { return memset(d, c, n); }

static inline void At() {
  if (g_enabled && t_id >= 0 && !t_in && Rnd01() < g_cfg.atomic_p) PointImpl(false);
}
#define DEF_ATOMIC(bits, T)                                                                       \
  T __tsan_atomic##bits##_load(const volatile T* p, int) {                                        \
    STALL_AT(at); At();                                                                                 \
    return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                  \
  }                                                                                               \
  void __tsan_atomic##bits##_store(volatile T* p, T v, int) {                                     \
    STALL_AT(at); At();                                                                                 \
    __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                     \
  }                                                                                               \
  T __tsan_atomic##bits##_exchange(volatile T* p, T v, int) {                                     \
    STALL_AT(at); At();                                                                                 \
    return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                           \
  }                                                                                               \
  T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int) {                                    \
    STALL_AT(at); At();                                                                                 \
    return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                                            \
  }                                                                                               \
  T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int) {                                    \
    STALL_AT(at); At();                                                                                 \
    return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                                            \
  }                                                                                               \
  T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int) {                                    \
    STALL_AT(at); At();                                                                                 \
    return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                                            \
  }                                                                                               \
  T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int) {                                     \
    STALL_AT(at); At();                                                                                 \
    return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                                             \
  }                                                                                               \
  T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int) {                                    \
    STALL_AT(at); At();                                                                                 \
    return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);                                            \
  }                                                                                               \
  T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int) {                                   \
    STALL_AT(at); At();                                                                                 \
    return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST);                                           \
  }                                                                                               \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) {         \
    STALL_AT(at); At();                                                                                 \
    return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);       \
  }                                                                                               \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) {           \
    STALL_AT(at); At();                                                                                 \
    return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);       \
  }                                                                                               \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int, int) {               \
    STALL_AT(at); At();                                                                                 \
    __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);             \
    return e;                                                                                     \
  }
DEF_ATOMIC(8, unsigned char)
DEF_ATOMIC(16, unsigned short)
DEF_ATOMIC(32, unsigned int)
DEF_ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}

}  // extern "C"
