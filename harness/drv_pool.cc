// Drives common::ThreadPool under the controlled scheduler and logs what happens.
// usage: drv_pool <out> <first seed> <count>
#include <atomic>
#include <condition_variable>
#include <future>
#include <memory>
#include <mutex>
#include <set>
#include <stdexcept>
#include <string>
#include <thread>

#include "common/simple_thread_pool.h"
#include "log.h"
#include "vsched.h"

using static_map::common::ThreadPool;
using vlog::Ev;

namespace {
struct Task {
  // 0 value, 1 throws, 2 submits another, 3 waits for destruction and submits, 4 waits for
  // the start of another task (there are fewer of these than workers)
  int kind = 0;
  int child = 0;
  int needs = 0;
  int pause = 0;
};

ThreadPool* g_pool = nullptr;
std::vector<Task> g_tasks;
std::vector<std::future<int>> g_futures;
std::atomic<int> g_destroying{0};
std::mutex g_started_mutex;
std::condition_variable g_started_cv;
std::set<int> g_started;

void StuckHandler(const char* why) {
  Ev("stuck").s("why", why);
  _exit(70);
}

int Body(int k, int salt);

void Submit(int who, int k) {
  Ev("sub").i("s", who).i("k", k);
  bool ok = true;
  try {
    g_futures[k] = g_pool->enqueue(Body, k, 100 + k);
  } catch (const std::runtime_error&) {
    ok = false;
  }
  Ev("subret").i("s", who).i("k", k).b("ok", ok);
}

void Get(int k) {
  if (!g_futures[k].valid()) return;
  int v = -1;
  std::string kind = "val";
  try {
    v = g_futures[k].get();
  } catch (const std::runtime_error& e) {
    kind = "exc";
    v = atoi(e.what());
  } catch (...) {
    kind = "lost";
  }
  Ev("get").i("k", k).s("r", kind).i("v", v);
}

int Body(int k, int salt) {
  const int w = vsched::ThreadId();
  Ev("start").i("k", k).i("w", w);
  const Task& t = g_tasks[k];
  {
    std::unique_lock<std::mutex> lock(g_started_mutex);
    g_started.insert(k);
    g_started_cv.notify_all();
    if (t.needs) {
      Ev("await").i("k", k).i("n", t.needs);
      g_started_cv.wait(lock, [&t] { return g_started.count(t.needs) > 0; });
    }
  }
  vsched::Pause(t.pause);
  if (t.kind == 3) {
    for (int n = 0; n < 400 && !(g_destroying.load() && vsched::Waiting(0)); ++n) vsched::Pause(1);
    if (g_destroying.load() && vsched::Waiting(0)) Ev("late").i("k", k);
  }
  if (t.child > 0) Submit(1000 + k, t.child);
  if (t.kind == 1) {
    Ev("end").i("k", k).i("w", w).s("r", "exc").i("v", 200 + k);
    throw std::runtime_error(std::to_string(200 + k));
  }
  Ev("end").i("k", k).i("w", w).s("r", "val").i("v", salt);
  return salt;
}

void Run(uint64_t seed) {
  vlog::Rng r(seed);
  const int workers = r.range(1, r.chance(0.3) ? 4 : 2);
  const int submitters = r.range(1, 3);
  const int per = r.range(0, submitters == 1 ? 6 : 3);
  g_tasks.assign(1, Task());
  std::vector<std::vector<int>> lists(submitters + 1);
  std::vector<std::vector<int>> gets(submitters + 1);
  for (int s = 1; s <= submitters; ++s) {
    for (int n = 0; n < per; ++n) {
      const int k = g_tasks.size();
      Task t;
      const int kind = r.upto(10);
      t.kind = kind < 5 ? 0 : kind < 7 ? 1 : kind < 9 ? 2 : 3;
      if (r.chance(0.3)) t.pause = r.range(1, 12);
      g_tasks.push_back(t);
      lists[s].push_back(k);
      if (t.kind >= 2) {
        g_tasks[k].child = g_tasks.size();
        Task c;
        c.kind = r.upto(2);
        g_tasks.push_back(c);
      } else if (r.chance(0.25)) {
        gets[s].push_back(k);
      }
    }
  }
  int waiters = r.chance(0.5) ? workers - 1 : 0;
  for (int k = 1; waiters > 0 && k + 1 < static_cast<int>(g_tasks.size()); ++k) {
    if (g_tasks[k].kind != 0 || r.chance(0.3)) continue;
    std::vector<int> later;
    for (auto& l : lists)
      for (int o : l)
        if (o > k) later.push_back(o);
    if (later.empty()) break;
    g_tasks[k].kind = 4;
    g_tasks[k].needs = later[r.upto(later.size())];
    --waiters;
  }
  g_futures.clear();
  g_futures.resize(g_tasks.size());
  const int destroy_pause = r.chance(0.5) ? r.range(1, 40) : 0;

  vsched::Config c;
  c.seed = seed;
  c.policy = r.upto(10) < 6 ? 0 : r.range(1, 2);
  c.pct_depth = r.range(1, 6);
  c.pct_steps = 400;
  c.stick = r.chance(0.5) ? 0.2 : 0.8;
  c.mem_every = r.chance(0.5) ? 0 : r.range(5, 60);
  c.spurious = r.chance(0.3) ? 0.05 : 0.001;
  if (r.chance(0.3)) {
    c.stall_max = 20;
    c.stall_share = r.range(2, 8);
  }
  c.max_steps = 200000;
  vsched::Start(c, StuckHandler);

  Ev("create").i("n", workers);
  g_pool = new ThreadPool(workers);
  std::vector<std::thread> ts;
  for (int s = 1; s <= submitters; ++s)
    ts.emplace_back([s, &lists, &gets] {
      for (int k : lists[s]) Submit(s, k);
      for (int k : gets[s]) Get(k);
    });
  for (auto& t : ts) t.join();
  vsched::Pause(destroy_pause);
  Ev("destroy");
  g_destroying = 1;
  delete g_pool;
  Ev("destroyed").i("live", vsched::LiveThreads());
  for (size_t k = 1; k < g_futures.size(); ++k) Get(k);
  Ev("done");
  _exit(0);
}
}  // namespace

int main(int argc, char** argv) {
  vlog::Open(argv[1]);
  const uint64_t first = strtoull(argv[2], nullptr, 10);
  const int count = atoi(argv[3]);
  for (int i = 0; i < count; ++i) {
    Ev("run").i("seed", first + i);
    const std::string st = vlog::RunChild([&] { Run(first + i); }, 20);
    Ev("exit").s("st", st);
  }
  return 0;
}
