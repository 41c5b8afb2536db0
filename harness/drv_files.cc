// The helpers for files and folders, also called by several threads at once.
// usage: drv_files <out> <first seed> <count> <scratch directory>
#include <fcntl.h>
#include <ftw.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <thread>

#include "common/file_utils.h"
#include "log.h"

using vlog::Ev;
using namespace static_map;

namespace {
std::string g_dir;
std::atomic<int> g_pause(0);

std::string Json(const std::string& path) {
  std::vector<std::string> parts(1, "\"");
  for (char ch : path) {
    if (ch == '/') {
      parts.back() += "\"";
      parts.push_back("\"");
    } else {
      parts.back() += ch;
    }
  }
  parts.back() += "\"";
  return Ev::ArrRaw(parts);
}

std::string Part(vlog::Rng* r) {
  const char* names[] = {"a", "b", "c", "d.pcd", ".hid", "e f"};
  return names[r->upto(r->chance(0.7) ? 3 : 6)];
}
// relative to the scratch directory, which is the working directory
std::string Some(vlog::Rng* r) {
  std::string p = r->chance(0.1) ? "./" : "";
  for (int k = r->range(0, 3); k > 0; --k) p += Part(r) + (r->chance(0.1) ? "//" : "/");
  p += Part(r);
  return p;
}

int Created(const std::string& p) {
  try {
    return common::CreateDir(p);
  } catch (...) {
    return 2;
  }
}

void Run(uint64_t seed) {
  vlog::Rng r(seed);
  const std::string dir = g_dir + "/" + std::to_string(seed);
  mkdir(dir.c_str(), 0755);
  if (chdir(dir.c_str())) _exit(3);
  std::vector<std::string> made;
  for (int step = r.range(6, 14); step > 0; --step) {
    const std::string p = Some(&r);
    switch (r.upto(8)) {
      case 0: {
        const int fd = open(p.c_str(), O_CREAT | O_WRONLY, 0644);
        if (fd >= 0) {
          close(fd);
          made.push_back(p);
          Ev("touch").raw("p", Json(p));
        }
        break;
      }
      case 6: {
        // a link to a file, or to nowhere
        const bool whole = !made.empty() && r.chance(0.7);
        const std::string to = whole ? made[r.upto(made.size())] : "nowhere/x";
        if (symlink((dir + "/" + to).c_str(), p.c_str()) == 0) Ev("link").raw("p", Json(p)).raw("to", Json(to));
        break;
      }
      case 1:
      case 2: {
        const std::string q = p + std::string(r.upto(3), '/');
        Ev("make").raw("p", Json(q)).i("got", Created(q));
        break;
      }
      case 3: {
        const int n = r.range(2, 4);
        std::vector<std::string> q;
        std::vector<int> got(n, 0);
        std::vector<std::thread> th;
        for (int k = 0; k < n; ++k) q.push_back(k && r.chance(0.7) ? q[0] + (r.chance(0.5) ? "" : "/" + Part(&r)) : Some(&r));
        g_pause = r.upto(3) * 200;
        for (int k = 0; k < n; ++k) th.emplace_back([&, k] { got[k] = Created(q[k]); });
        for (auto& t : th) t.join();
        g_pause = 0;
        std::vector<std::string> rows;
        for (auto& x : q) rows.push_back(Json(x));
        Ev("makes").raw("ps", Ev::ArrRaw(rows)).a("got", got);
        break;
      }
      case 4:
        Ev("exists").raw("p", Json(p)).b("got", common::FileExist(p));
        break;
      case 5: {
        const std::string q = r.chance(0.3) ? "." : p;
        std::vector<std::string> rows;
        for (auto& f : common::ListFilesInPath(q)) rows.push_back(Json(f));
        Ev("list").raw("p", Json(q)).raw("got", Ev::ArrRaw(rows));
        break;
      }
      default: {
        const std::string q = r.chance(0.2) ? p + "/" : r.chance(0.2) ? "/" + p : p;
        Ev("folder").raw("p", Json(q)).raw("got", Json(common::FilePath(q)));
      }
    }
  }
  if (chdir("/")) _exit(3);
  nftw(dir.c_str(), [](const char* f, const struct stat*, int, struct FTW*) { return remove(f); }, 16, FTW_DEPTH | FTW_PHYS);
}
}  // namespace

// a pause before a folder is made
extern "C" int mkdir(const char* path, mode_t mode) {
  if (g_pause) usleep(g_pause);
  return syscall(SYS_mkdirat, AT_FDCWD, path, mode);
}

int main(int, char** argv) {
  g_dir = argv[4];
  mkdir(g_dir.c_str(), 0755);
  return vlog::Main(argv, Run, 60);
}
