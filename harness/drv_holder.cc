// One cloud that is moved, stored, dropped and used again, with storage faults.
// usage: drv_holder <out> <first seed> <count> <scratch directory>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>

#include "builder/data/cloud_types.h"
#include "cells.h"

using static_map::SimpleTime;
using namespace static_map::data;  // NOLINT
using vcell::Int;
using vcell::Round;
using vlog::Ev;
typedef std::vector<int64_t> Row;

namespace {
std::string g_dir;

std::string Cols(const Eigen::MatrixXd& m, double scale) {
  std::vector<std::string> rows;
  for (int k = 0; k < m.cols(); ++k)
    rows.push_back(Ev::Arr(Row{Round(m(0, k), scale), Round(m(1, k), scale), Round(m(2, k), scale)}));
  return Ev::ArrRaw(rows);
}
std::string Pts(const InnerCloudType& c) {
  std::vector<std::string> rows;
  for (const auto& p : c.points)
    rows.push_back(Ev::Arr(Row{Int(p.x), Int(p.y), Int(p.z), Int(p.intensity), Int(p.factor, 64)}));
  return Ev::ArrRaw(rows);
}
Row Time(const SimpleTime& t) {
  return Row{static_cast<int64_t>(t.ToNanoSec() / 1000000000), static_cast<int64_t>(t.ToNanoSec() % 1000000000)};
}
InnerCloudType::Ptr Some(vlog::Rng* r) {
  InnerCloudType::Ptr c(new InnerCloudType);
  c->stamp = SimpleTime(r->range(0, 2000), r->range(0, 999999999));
  const int n = vlog::Script().empty() ? r->range(8, 30) : 8;
  for (int i = 0; i < n; ++i) {
    InnerPointType p;
    p.x = r->range(-50, 50);
    p.y = r->range(-50, 50);
    p.z = r->range(-50, 50);
    p.intensity = r->range(0, 255);
    p.factor = r->range(0, 64) / 64.f;
    c->points.push_back(p);
  }
  return c;
}
void Limit(rlim_t n) {
  struct rlimit rl;
  getrlimit(RLIMIT_FSIZE, &rl);
  rl.rlim_cur = n;
  setrlimit(RLIMIT_FSIZE, &rl);
}

void Run(uint64_t seed) {
  vlog::Rng r(seed);
  signal(SIGXFSZ, SIG_IGN);
  const std::string file = g_dir + "/" + std::to_string(seed) + ".bin";
  // storing happens only on clouds in memory, dropping only what is stored unchanged
  bool in_memory = true, stored = false, normals = false;
  auto c = Some(&r);
  Ev("new").a("t", Time(c->stamp)).raw("p", Pts(*c));
  InnerPointCloudData d(c);
  const auto& script = vlog::Script();
  size_t at = 0;
  for (int step = script.empty() ? r.range(4, 14) : script.size(); step > 0 || !in_memory; --step) {
    int op = step > 0 ? r.upto(8) : 6, given_room = -1, given_cut = -1;
    if (!script.empty()) {
      // 100 and more store with little space, 2000 and more drop and cut
      op = step > 0 ? script[at++] : 6;
      if (op >= 2000) {
        given_cut = op - 2000;
        op = 4;
      } else if (op >= 100) {
        given_room = op - 100;
        op = 3;
      }
    }
    if (!in_memory && op <= 3) op = 6;
    if (op == 0) {
      auto n = Some(&r);
      Ev("set").a("t", Time(n->stamp)).raw("p", Pts(*n));
      d.SetInnerCloud(n);
      stored = normals = false;
    } else if (op == 1) {
      if (normals) continue;
      d.CalculateNormals();
      normals = true;
      Ev("normals").raw("q", Cols(d.GetEigenCloud()->points, 1000)).raw("n", Cols(d.GetEigenCloud()->normals, 1000));
    } else if (op == 2) {
      const Eigen::Matrix4d m = vcell::GridMotion(&r, 50);
      Ev("move").raw("m", vcell::Rows(m));
      d.TransformCloud(m);
      stored = false;
    } else if (op == 3) {
      const int room = !script.empty() ? given_room : r.chance(0.12) ? r.range(0, 24 + 20 * 32) : -1;
      Ev("saving").i("room", room);
      if (room >= 0) Limit(room);
      const bool ok = d.SaveToFile(file);
      if (room >= 0) Limit(RLIM_INFINITY);
      Ev("saved").b("ok", ok);
      stored = ok;
      if (ok && room >= 0) {
        Ev("drop");
        d.Clear();
        in_memory = false;
      }
    } else if (op == 4) {
      if (!stored) continue;
      const auto held = d.GetInnerCloud();
      const auto form = d.GetEigenCloud();
      Ev("drop");
      d.Clear();
      if (in_memory) Ev("held").a("t", Time(held->stamp)).raw("p", Pts(*held)).raw("q", Cols(form->points, 1000)).raw("n", Cols(form->normals, 1000));
      in_memory = false;
      struct stat st;
      stat(file.c_str(), &st);
      if (script.empty() ? r.chance(0.08) : given_cut >= 0 && given_cut < st.st_size) {
        const int cut = given_cut >= 0 ? given_cut : r.upto(st.st_size);
        Ev("spoil").i("cut", cut);
        if (truncate(file.c_str(), cut)) _exit(3);
      }
    } else if (op == 5) {
      Ev("time").a("t", Time(d.GetTime()));
    } else {
      const bool ok = d.CloudInMemory();
      in_memory = ok;
      Ev("use").b("ok", ok).a("t", Time(d.GetInnerCloud()->stamp)).raw("p", Pts(*d.GetInnerCloud()))
          .raw("q", Cols(d.GetEigenCloud()->points, 1000)).raw("n", Cols(d.GetEigenCloud()->normals, 1000));
      if (!ok) break;
    }
  }
  unlink(file.c_str());
}
}  // namespace

int main(int, char** argv) {
  g_dir = argv[4];
  mkdir(g_dir.c_str(), 0755);
  return vlog::Main(argv, Run, 30);
}
