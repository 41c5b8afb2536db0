// Controlled scheduler: one thread runs at a time, time is virtual.
#ifndef VERIF_SCHED_H_
#define VERIF_SCHED_H_
#include <cstdint>
#include <functional>

namespace vsched {

struct Config {
  uint64_t seed = 1;
  // 0 random walk, 1 PCT, 2 PCT with early timers, 3 run to block (no preemption)
  int policy = 0;
  int pct_depth = 3;
  int pct_steps = 3000;
  double stick = 0.7;       // random walk: keep running the same thread
  double early = 0.01;      // chance per decision that a timer expires early
  int mem_every = 0;        // mean distance of schedule points at plain accesses, 0 = none
  double atomic_p = 0.3;    // chance that an atomic access is a schedule point
  // Involuntary pauses: a run picks some places of the code (about 1 in stall_share of
  // those with atomic accesses, fewer of the others); a thread passing one is held up
  // for some virtual time with chance stall_p, at most stall_max times in all.
  int stall_max = 0;
  int stall_share = 16;
  double stall_p = 0.2;
  double spurious = 0.002;  // chance of a spurious wake-up per decision
  int64_t max_steps = 4000000;
  int64_t max_virtual_ns = 2000000000000LL;
};

// The calling thread becomes thread 0.  `stuck` is called with a reason when no
// thread can ever run again or the step / virtual time limit is exceeded.
void Start(const Config& config, void (*stuck)(const char* reason));
void Stop();
bool Enabled();
// Explicit schedule point.
void Point();
int64_t NowNs();
int64_t Steps();
int LiveThreads();  // managed threads which have not ended, including the caller
int ThreadId();
// True when the thread waits for something else than a mutex or a timer.
bool Waiting(int id);
// True when the thread sleeps or waits of its own accord.
bool Resting(int id);
// Lets up to n decisions pass while other threads run.
void Pause(int n);
}  // namespace vsched
#endif
