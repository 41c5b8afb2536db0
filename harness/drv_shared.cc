// Atomic cells and the mutex with conditions under the controlled scheduler.
// usage: drv_shared <out> <first seed> <count>
#include <thread>
#include <vector>

#include "common/atomic_wrapper.h"
#include "common/mutex.h"
#include "log.h"
#include "vsched.h"

using static_map::common::AtomicWrapper;
using static_map::common::Mutex;
using static_map::common::MutexLocker;
using vlog::Ev;

namespace {
void StuckHandler(const char* why) {
  Ev("stuck").s("why", why);
  _exit(70);
}

struct Op {
  int kind, k, j, a, b, pause;
};

void Begin(uint64_t seed, vlog::Rng* r) {
  vsched::Config c;
  c.seed = seed;
  c.policy = r->upto(10) < 6 ? 0 : r->range(1, 2);
  c.pct_depth = r->range(1, 6);
  c.pct_steps = 300;
  c.stick = r->chance(0.5) ? 0.2 : 0.8;
  c.atomic_p = r->chance(0.5) ? 1. : 0.4;
  c.mem_every = r->chance(0.4) ? 0 : r->range(2, 30);
  c.spurious = r->chance(0.3) ? 0.05 : 0.001;
  c.max_steps = 100000;
  vsched::Start(c, StuckHandler);
}

void Cells(uint64_t seed, vlog::Rng* r) {
  typedef AtomicWrapper<int32_t> Cell;
  const int n = r->range(2, 4), init = r->range(0, 3);
  std::vector<std::vector<Op>> ops(n);
  for (auto& l : ops)
    for (int k = r->range(2, 4); k > 0; --k)
      l.push_back({r->upto(7), r->upto(2), r->upto(2), r->range(0, 3), r->range(0, 3), r->upto(3)});
  Ev("cells").i("init", init);
  std::vector<Cell> x(2, Cell(init));
  Begin(seed, r);
  std::vector<std::thread> ts;
  for (int w = 0; w < n; ++w)
    ts.emplace_back([&, w] {
      for (const Op& o : ops[w]) {
        if (o.pause) vsched::Point();
        int32_t v = 0, got = o.a;
        switch (o.kind) {
          case 0:
            Ev("inv").i("w", w).s("op", "load").i("k", o.k + 1);
            v = x[o.k];
            break;
          case 1:
            Ev("inv").i("w", w).s("op", "store").i("k", o.k + 1).i("a", o.a);
            x[o.k] = o.a;
            break;
          case 2:
            Ev("inv").i("w", w).s("op", "pre").i("k", o.k + 1);
            v = ++x[o.k];
            break;
          case 3:
            Ev("inv").i("w", w).s("op", "post").i("k", o.k + 1);
            v = x[o.k]++;
            break;
          case 4:
            Ev("inv").i("w", w).s("op", "copy").i("k", o.k + 1).i("j", o.j + 1);
            x[o.k] = x[o.j];
            break;
          case 5: {
            Ev("inv").i("w", w).s("op", "load").i("k", o.k + 1);
            Cell y(x[o.k]);
            v = y;
            break;
          }
          default:
            Ev("inv").i("w", w).s("op", "cas").i("k", o.k + 1).i("a", o.a).i("b", o.b);
            v = x[o.k].CompareExchange(&got, o.b);
        }
        Ev("ret").i("w", w).i("v", v).i("got", got);
      }
    });
  for (auto& t : ts) t.join();
  vsched::Stop();
  for (int k = 0; k < 2; ++k) Ev("last").i("k", k + 1).i("v", x[k]);
}

void Locks(uint64_t seed, vlog::Rng* r) {
  // tokens are given by some threads and taken, when there are enough, by others
  const int givers = r->range(1, 3), takers = r->range(1, 3);
  std::vector<std::vector<int>> give(givers), take(takers);
  int wanted = 0;
  for (auto& l : take)
    for (int k = r->range(1, 4); k > 0; --k) {
      l.push_back(r->range(0, 3));
      wanted += l.back();
    }
  // no more are given than taken; at most 7 may be there at a time in half of the runs
  int total = wanted;
  const int most = r->chance(0.5) ? 7 : 1000;
  for (int g = 0; total > 0; g = (g + 1) % givers) {
    const int v = std::min(total, r->range(1, 4));
    give[g].push_back(v);
    total -= v;
  }
  Ev("locks");
  Mutex m;
  int tokens = 0;
  Begin(seed, r);
  std::vector<std::thread> ts;
  for (int g = 0; g < givers; ++g)
    ts.emplace_back([&, g] {
      for (int v : give[g]) {
        MutexLocker l(&m);
        Ev("enter").i("w", g);
        if (most < 1000) {
          Ev("await").i("w", g).i("lo", 0).i("hi", most - v);
          l.Await([&] { return tokens <= most - v; });
          Ev("got").i("w", g);
        }
        const int before = tokens;
        vsched::Point();
        tokens = before + v;
        Ev("give").i("w", g).i("v", v).i("now", tokens);
        Ev("leave").i("w", g);
      }
    });
  for (int k = 0; k < takers; ++k)
    ts.emplace_back([&, k] {
      const int w = 10 + k;
      for (int v : take[k]) {
        MutexLocker l(&m);
        Ev("enter").i("w", w);
        Ev("await").i("w", w).i("lo", v).i("hi", 1000);
        l.Await([&] { return tokens >= v; });
        Ev("got").i("w", w);
        const int before = tokens;
        vsched::Point();
        tokens = before - v;
        Ev("give").i("w", w).i("v", -v).i("now", tokens);
        Ev("leave").i("w", w);
      }
    });
  for (auto& t : ts) t.join();
  vsched::Stop();
  Ev("rest").i("v", tokens);
}

void Run(uint64_t seed) {
  vlog::Rng r(seed);
  if (r.chance(0.6)) Cells(seed, &r);
  else Locks(seed, &r);
}
}  // namespace

int main(int, char** argv) { return vlog::Main(argv, Run, 30); }
