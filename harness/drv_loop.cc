// Adds submaps to the loop detector; the outcome of every match is scripted.
// usage: drv_loop <out> <first> <count>
#include <algorithm>
#include <map>
#include <mutex>
#include "back_end/loop_detector.h"
#include "builder/submap.h"
#include "cells.h"
#include "fake_matcher.h"

using namespace static_map;  // NOLINT
using vlog::Ev;
typedef std::vector<int64_t> Row;

namespace {
constexpr int kScale = 4;  // positions in 1/4 m

struct Call {
  int from, to;
  std::string guess;
  int score;   // in 1/100
  int shift, turn;   // the claimed pose of the source differs from the reference by 1/100 m along x, 1/1000 rad about z
};

void Run(uint64_t seed) {
  vlog::Rng r(seed);
  back_end::LoopDetectorSettings s;
  // a script gives ignore, tries, nearest, and for every submap whether it is at the first site
  const auto& script = vlog::Script();
  const bool free = script.empty();
  const int ignore = free ? r.range(0, 4) : script[0], tries = free ? r.range(0, 3) : script[1],
            nearest = free ? r.range(1, 4) : script[2];
  const int reach = r.range(1, 5) * kScale, height = r.range(0, 3) * kScale;
  const bool desc = r.chance(0.3) && free;
  const int accept = r.range(3, 8) * 10;
  s.loop_ignore_threshold = ignore;
  s.trying_detect_loop_count = tries;
  s.nearest_history_pos_num = nearest;
  s.max_close_loop_distance = static_cast<float>(reach) / kScale;
  s.max_close_loop_z_distance = static_cast<float>(height) / kScale;
  s.use_descriptor = desc;
  s.m2dp_match_score = 0.9f;
  s.accept_scan_match_score = accept / 100.f;
  Ev("settings").i("ignore", ignore).i("tries", tries).i("nearest", nearest).i("reach", reach).i("height", height)
      .b("desc", desc).i("accept", accept);
  back_end::LoopDetector d(s);
  std::vector<std::shared_ptr<Submap>> all;
  std::map<const void*, int> index;
  std::vector<Call> calls;
  std::vector<std::pair<int, int>> where;   // sites the trajectory returns to
  const int n_sites = r.range(1, 3);
  for (int i = 0; i < n_sites; ++i) where.emplace_back(r.range(-80, 80), r.range(-80, 80));
  std::mutex m;
  // per step: which way matches go
  int style = 0, limit = 0, step_seed = 0;
  vfake::g_align = [&](const vfake::AlignCall& c, Eigen::Matrix4d* res, double* score) {
    const int from = index.count(c.source.get()) ? index[c.source.get()] : -1;
    const int to = index.count(c.target.get()) ? index[c.target.get()] : -1;
    vlog::Rng q(step_seed + to * 131);
    Call k{from, to, vcell::Rows(c.guess, kScale), 0, 0, 0};
    k.score = std::min(100, std::max(1, style == 0 ? accept + 5 : q.chance(0.5) ? accept + q.range(1, 9) : accept - q.range(1, 9)));
    if (k.score == accept) ++k.score;
    if (style == 2 && to % 2) k.shift = q.chance(0.5) ? limit : 0;
    if (style == 3 && to % 2) k.turn = q.chance(0.5) ? limit : 0;
    // claimed pose of the source in the map; both small motions commute with nothing, so only one is used
    Eigen::Matrix4d claim = from >= 0 ? all[from]->GlobalPose() : Eigen::Matrix4d::Identity();
    Eigen::Matrix4d off = Eigen::Matrix4d::Identity();
    off.block<3, 3>(0, 0) = Eigen::AngleAxisd(k.turn / 1000., Eigen::Vector3d::UnitZ()).toRotationMatrix();
    off(0, 3) = k.shift / 100.;
    claim = claim * off;
    *res = to >= 0 ? Eigen::Matrix4d(all[to]->GlobalPose().inverse() * claim) : claim;
    *score = k.score / 100.;
    std::lock_guard<std::mutex> l(m);
    calls.push_back(k);
    return true;
  };
  const int n = free ? r.range(6, 40) : script.size() - 3;
  const double stay = r.chance(0.6) ? 0.92 : 0.6;
  bool near = r.chance(0.8);
  auto site = where[0];
  for (int i = 0; i < n; ++i) {
    if (free && r.chance(0.05) && i > 2) {
      const int a = r.upto(i + 2), b = a + r.upto(5);
      d.SetSearchWindow(a, b);
      Ev("window").i("from", a).i("to", b);
    }
    if (free && r.chance(0.1) && i > 0) {   // an older submap is moved by the optimiser
      const int k = r.upto(i);
      Eigen::Matrix4d p = all[k]->GlobalPose();
      p(0, 3) += r.range(-3, 3) / static_cast<double>(kScale);
      all[k]->SetGlobalPose(p);
      Ev("move").i("k", k).a("at", Row{vcell::Round(p(0, 3), kScale), vcell::Round(p(1, 3), kScale), vcell::Round(p(2, 3), kScale)});
    }
    if (free ? !r.chance(stay) : near != (script[i + 3] % 2 == 1)) near = !near;
    Eigen::Matrix4d pose = vcell::GridMotion(&r, 0);
    if (free && r.chance(0.15)) site = where[r.upto(n_sites)];
    const int span = !free || r.chance(0.7) ? reach / 3 : reach * 3 / 4 + 1;
    const int x = near ? site.first + r.range(-span, span) : 1000 + 200 * i;
    const int y = near ? site.second + r.range(-span, span) : r.range(-80, 80);
    const int z = !free || r.chance(0.92) ? 0 : r.range(-12, 12);
    pose(0, 3) = x / static_cast<double>(kScale);
    pose(1, 3) = y / static_cast<double>(kScale);
    pose(2, 3) = z / static_cast<double>(kScale);
    auto f = std::make_shared<Submap>(SubmapOptions());
    f->SetId(SubmapId{0, i});
    f->SetGlobalPose(pose);
    data::InnerCloudType::Ptr c(new data::InnerCloudType);
    c->points.resize(3);
    auto cloud = std::make_shared<data::InnerPointCloudData>(c);
    f->SetCloud(cloud);
    index[cloud.get()] = i;
    const int group = r.upto(3);
    descriptor::M2dp::Descriptor v = descriptor::M2dp::Descriptor::Zero(16);
    v[group] = 1;
    f->SetDescriptor(v);
    all.push_back(f);
    calls.clear();
    style = r.upto(4);
    const int limits_shift[] = {10, 20, 30, 100}, limits_turn[] = {5, 15, 30, 500};
    const int which = r.upto(4);
    limit = style == 2 ? limits_shift[which] : limits_turn[which];
    step_seed = r.upto(1 << 20) * 1000;
    const bool detect = free ? !r.chance(0.05) : script[i + 3] < 2;
    Ev("begin").a("at", Row{x, y, z}).raw("pose", vcell::Rows(pose, kScale)).i("group", group).b("detect", detect);
    back_end::DetectResult res = d.AddFrame(f, detect);
    std::sort(calls.begin(), calls.end(), [](const Call& a, const Call& b) { return a.to < b.to; });
    std::vector<std::string> cs, es;
    for (const auto& k : calls)
      cs.push_back("{\"from\":" + std::to_string(k.from) + ",\"to\":" + std::to_string(k.to) + ",\"score\":" + std::to_string(k.score) +
                   ",\"shift\":" + std::to_string(k.shift) + ",\"turn\":" + std::to_string(k.turn) + "}");
    std::vector<std::pair<int, std::string>> edges;
    for (const auto& e : res.edges) {
      // where the edge puts the current submap, relative to its present pose
      Eigen::Matrix4d rel = Eigen::Matrix4d::Zero();
      const int to = e.close_pair_index.first, from = e.close_pair_index.second;
      if (to >= 0 && to <= i && from >= 0 && from <= i)
        rel = all[from]->GlobalPose().inverse() * all[to]->GlobalPose() * e.transform;
      edges.emplace_back(to, "{\"from\":" + std::to_string(from) + ",\"to\":" + std::to_string(to) +
                         ",\"shift\":" + std::to_string(vcell::Round(rel(0, 3), 100)) +
                         ",\"turn\":" + std::to_string(vcell::Round(std::atan2(rel(1, 0), rel(0, 0)), 1000)) + "}");
    }
    std::sort(edges.begin(), edges.end());
    for (const auto& e : edges) es.push_back(e.second);
    Ev("added").i("index", res.current_frame_index).i("frames", d.GetFrames().size()).i("status", static_cast<int>(res.status))
        .b("closed", res.close_succeed).raw("calls", Ev::ArrRaw(cs)).raw("edges", Ev::ArrRaw(es));
  }
}
}  // namespace

int main(int, char** argv) { return vlog::Main(argv, Run, 30); }
