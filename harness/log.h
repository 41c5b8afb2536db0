// Event log (one JSON object per line, unbuffered) and a fork-per-run helper.
#ifndef VERIF_LOG_H_
#define VERIF_LOG_H_
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <cmath>
#include <fstream>
#include <functional>
#include <sstream>
#include <string>
#include <vector>

namespace vlog {

inline int& Fd() {
  static int fd = -1;
  return fd;
}
inline void Open(const char* path) {
  Fd() = open(path, O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (Fd() < 0) {
    perror(path);
    exit(2);
  }
}
inline void WriteLine(const std::string& s) {
  std::string line = s + "\n";
  size_t off = 0;
  while (off < line.size()) {
    ssize_t n = write(Fd(), line.data() + off, line.size() - off);
    if (n <= 0) _exit(72);
    off += n;
  }
}

class Ev {
 public:
  explicit Ev(const char* name) { s_ = std::string("{\"e\":\"") + name + "\""; }
  Ev& i(const char* k, int64_t v) {
    s_ += std::string(",\"") + k + "\":" + std::to_string(v);
    return *this;
  }
  Ev& b(const char* k, bool v) {
    s_ += std::string(",\"") + k + "\":" + (v ? "true" : "false");
    return *this;
  }
  Ev& s(const char* k, const std::string& v) {
    s_ += std::string(",\"") + k + "\":\"";
    for (char c : v) {
      if (c == '"' || c == '\\') s_ += '\\';
      if (static_cast<unsigned char>(c) < 32) {
        char buf[8];
        snprintf(buf, sizeof buf, "\\u%04x", c);
        s_ += buf;
      } else {
        s_ += c;
      }
    }
    s_ += "\"";
    return *this;
  }
  template <typename V>
  Ev& a(const char* k, const V& v) {
    s_ += std::string(",\"") + k + "\":" + Arr(v);
    return *this;
  }
  Ev& raw(const char* k, const std::string& json) {
    s_ += std::string(",\"") + k + "\":" + json;
    return *this;
  }
  template <typename V>
  static std::string Arr(const V& v) {
    std::string r = "[";
    bool first = true;
    for (const auto& x : v) {
      if (!first) r += ",";
      first = false;
      r += std::to_string(static_cast<int64_t>(x));
    }
    return r + "]";
  }
  static std::string ArrRaw(const std::vector<std::string>& v) {
    std::string r = "[";
    for (size_t k = 0; k < v.size(); ++k) r += (k ? "," : "") + v[k];
    return r + "]";
  }
  ~Ev() { WriteLine(s_ + "}"); }

 private:
  std::string s_;
};

// Runs body in a child process; its standard streams go to /dev/null.
inline std::string RunChild(const std::function<void()>& body, int timeout_s, bool quiet = true) {
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    setpgid(0, 0);
    if (quiet) {
      int n = open("/dev/null", O_RDWR);
      dup2(n, 0);
      dup2(n, 1);
      dup2(n, 2);
    }
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    body();
    _exit(0);
  }
  struct timespec t0, t;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  int status = 0;
  long us = 200;
  while (true) {
    pid_t r = waitpid(pid, &status, WNOHANG);
    if (r == pid) break;
    clock_gettime(CLOCK_MONOTONIC, &t);
    if (t.tv_sec - t0.tv_sec >= timeout_s) {
      kill(pid, SIGKILL);
      waitpid(pid, &status, 0);
      return "hang";
    }
    usleep(us);
    if (us < 5000) us = us * 3 / 2;
  }
  if (WIFEXITED(status)) {
    int c = WEXITSTATUS(status);
    if (c == 0) return "ok";
    if (c == 70) return "stuck";
    return "exit" + std::to_string(c);
  }
  return "sig" + std::to_string(WTERMSIG(status));
}

// Rounds v*scale and reports whether the value is on the grid.
inline int64_t Grid(double v, double scale, double tol, bool* on_grid) {
  if (!(std::fabs(v * scale) < 1e9)) {
    *on_grid = false;
    return 999999999;
  }
  const double r = std::llround(v * scale);
  if (std::fabs(v * scale - r) > tol) *on_grid = false;
  return static_cast<int64_t>(r);
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ULL + 77) {
    if (!s) s = 1;
    for (int k = 0; k < 6; ++k) next();
  }
  uint64_t next() {
    s ^= s << 13;
    s ^= s >> 7;
    s ^= s << 17;
    return s * 0x2545F4914F6CDD1DULL;
  }
  int upto(int n) { return n <= 0 ? 0 : static_cast<int>((next() >> 20) % n); }
  int range(int lo, int hi) { return lo + upto(hi - lo + 1); }
  bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
};
// What the present run shall do, a line of the file VERIF_SCRIPT; empty if the driver chooses.
inline std::vector<int64_t>& Script() {
  static std::vector<int64_t> s;
  return s;
}
// usage of most drivers: <out> <first seed> <count>; one child process per seed
inline int Main(char** argv, const std::function<void(uint64_t)>& run, int timeout_s = 60) {
  Open(argv[1]);
  const uint64_t first = strtoull(argv[2], nullptr, 10);
  const int count = atoi(argv[3]);
  std::ifstream scripts;
  if (getenv("VERIF_SCRIPT")) scripts.open(getenv("VERIF_SCRIPT"));
  for (int i = 0; i < count; ++i) {
    std::string line;
    Script().clear();
    if (scripts.is_open() && std::getline(scripts, line)) {
      std::istringstream in(line);
      for (int64_t v; in >> v;) Script().push_back(v);
    }
    Ev("run").i("seed", first + i).a("script", Script());
    const std::string st = RunChild([&] { run(first + i); _exit(0); }, timeout_s, getenv("VERBOSE") == nullptr);
    Ev("exit").s("st", st);
  }
  return 0;
}

}  // namespace vlog
#endif
