// Feeds mutually consistent submaps, matches and positions to the pose graph.
// usage: drv_graph <out> <first> <count>
#include <algorithm>
#include <map>
#include <mutex>
#include "back_end/isam_optimizer.h"
#include "back_end/loop_detector.h"
#include "builder/submap.h"
#include "cells.h"
#include "fake_matcher.h"

using namespace static_map;  // NOLINT
using vlog::Ev;
typedef std::vector<int64_t> Row;

namespace {
Eigen::Matrix4d Mat(const Row& p) {
  Eigen::Matrix4d m = Eigen::Matrix4d::Identity();
  const int c[] = {1, 0, -1, 0}, s[] = {0, 1, 0, -1};
  m(0, 0) = m(1, 1) = c[p[3]];
  m(1, 0) = s[p[3]];
  m(0, 1) = -s[p[3]];
  for (int k = 0; k < 3; ++k) m(k, 3) = p[k];
  return m;
}

void Run(uint64_t seed) {
  vlog::Rng r(seed);
  back_end::IsamOptimizerOptions o;
  o.use_gps = r.chance(0.5);
  o.use_odom = r.chance(0.3);
  o.enable_extrinsic_calib = r.chance(0.5);
  o.gps_factor_init_num = r.range(3, 8);
  o.gps_factor_sample_step = r.range(0, 3);
  o.gps_factor_init_angle_rad = r.chance(0.5) ? 0. : 1.;
  back_end::LoopDetectorSettings s;
  s.loop_ignore_threshold = r.range(1, 4);
  s.trying_detect_loop_count = r.range(0, 2);
  s.nearest_history_pos_num = r.range(2, 4);
  s.max_close_loop_distance = r.range(2, 8) + 0.5f;
  s.max_close_loop_z_distance = 2.5f;
  s.accept_scan_match_score = 0.5f;
  const bool loops = r.chance(0.7);
  if (!loops) s.loop_ignore_threshold = 1000;
  const Row coord = r.chance(0.5) ? Row{0, 0, 0, 0} : Row{r.range(-4, 4), r.range(-4, 4), r.range(-1, 1), r.upto(4) % 3 == 2 ? 3 : r.upto(2)};

  const Row lever{r.range(-1, 1), r.range(-1, 1), r.range(0, 1), 0};
  const Row calib{r.range(-1, 1), r.range(-1, 1), r.range(0, 1), r.upto(4)};
  // contradicting data: loop closures that disagree with the chain, or positions with another scale
  const int drift = r.chance(0.5) ? 0 : r.range(1, 2);
  if (drift == 1) {
    o.use_gps = o.use_odom = false;
  } else if (drift == 2) {
    o.use_gps = true;
    o.use_odom = false;
    o.gps_factor_sample_step = r.upto(2);
    o.gps_factor_init_angle_rad = 0;
    s.loop_ignore_threshold = 1000;
  }
  Ev("start").i("drift", drift).b("gps", o.use_gps).b("odom", o.use_odom).a("coord", coord).a("lever", lever).a("calib", calib)
      .i("init", o.gps_factor_init_num);
  auto x = std::make_unique<back_end::IsamOptimizer>(o, s);
  x->SetTrackingToGps(Mat(lever));
  x->SetTransformOdomToLidar(Mat(calib));
  std::vector<std::shared_ptr<Submap>> all;
  std::vector<Eigen::Matrix4d> truth;
  std::map<const void*, int> index;
  std::map<int, bool> calls;
  std::mutex m;
  bool foreign = false;
  Eigen::Matrix4d off = Eigen::Matrix4d::Identity();
  if (drift == 1) {
    off(r.upto(2), 3) = r.chance(0.5) ? 0.4 : -0.4;
    if (r.chance(0.3)) off(2, 3) = 0.3;
  }
  double good_chance = 1.;
  int step_seed = 0;
  vfake::g_align = [&](const vfake::AlignCall& c, Eigen::Matrix4d* res, double* score) {
    std::lock_guard<std::mutex> l(m);
    if (!index.count(c.source.get()) || !index.count(c.target.get())) {
      foreign = true;
      return false;
    }
    const int from = index[c.source.get()], to = index[c.target.get()];
    vlog::Rng q(step_seed + to * 131);
    const bool good = q.chance(good_chance);
    *score = good ? 0.9 : 0.2;
    *res = truth[to].inverse() * truth[from] * off;
    if (!good) (*res)(0, 3) += 7;
    calls[to] = good;
    return true;
  };
  auto report = [&](const char* name) {
    std::vector<std::string> poses, edges, connected;
    for (const auto& f : all) poses.push_back(vcell::Rows(f->GlobalPose(), 1000));
    Row ids;
    bool same = true;
    for (const auto& it : x->GetWholeGraph()) {
      ids.push_back(it.first);
      same = same && it.first < static_cast<int>(all.size()) && (it.second.self_pose - all[it.first]->GlobalPose()).norm() < 1e-9;
      for (const auto& k : it.second.connections)
        edges.push_back("{\"a\":" + std::to_string(it.first) + ",\"b\":" + std::to_string(k.first) + ",\"t\":" + vcell::Rows(k.second, 1000) + "}");
    }
    for (const auto& f : all) {
      Row c;
      for (const auto& id : f->GetConnected()) c.push_back(id.submap_index);
      connected.push_back(Ev::Arr(c));
    }
    Ev(name).raw("poses", Ev::ArrRaw(poses)).a("verts", ids).raw("edges", Ev::ArrRaw(edges)).raw("connected", Ev::ArrRaw(connected))
        .b("same", same).b("foreign", foreign);
  };
  const int n = drift == 2 ? r.range(14, 20) : r.range(2, 22);
  Row at{r.range(-3, 3), r.range(-3, 3), r.range(-1, 1), r.upto(4)};
  Eigen::Matrix4d pose = Mat(at);
  const double noise = drift || r.chance(0.5) ? 0. : 0.2;
  const double with_gps = drift == 2 || r.chance(0.5) ? 1. : 0.6;
  for (int i = 0; i < n; ++i) {
    Row rel{0, 0, 0, 0};
    if (i) {
      rel = Row{r.range(0, 3), r.range(-1, 1), r.chance(0.2) ? r.range(-1, 1) : 0, r.chance(0.5) ? 0 : r.chance(0.7) ? 1 : 3};
      if (drift == 2) rel = Row{2, 0, 0, 0};
      pose = pose * Mat(rel);
    }
    truth.push_back(pose);
    auto f = std::make_shared<Submap>(SubmapOptions());
    f->SetId(SubmapId{0, i});
    Eigen::Matrix4d guess = pose;
    if (i) {
      for (int k = 0; k < 3; ++k) guess(k, 3) += noise * r.range(-10, 10) / 10.;
    }
    f->SetGlobalPose(guess);
    f->SetTransformFromLast(i ? Mat(rel) : Eigen::Matrix4d(Eigen::Matrix4d::Identity()));
    const bool gps = r.chance(with_gps);
    if (drift == 2) {
      Eigen::Matrix4d far = Eigen::Matrix4d::Identity();
      far(0, 3) = 2.2 * i;
      f->SetRelatedGpsInENU(Eigen::Vector3d((Mat(coord) * truth[0] * far * Mat(lever)).block<3, 1>(0, 3)));
    }
    else if (gps) f->SetRelatedGpsInENU(Eigen::Vector3d((Mat(coord) * pose * Mat(lever)).block<3, 1>(0, 3)));
    if (r.chance(0.7)) f->SetRelatedOdom(Eigen::Matrix4d(Mat(calib) * pose * Mat(calib).inverse()));
    data::InnerCloudType::Ptr c(new data::InnerCloudType);
    c->points.resize(3);
    auto cloud = std::make_shared<data::InnerPointCloudData>(c);
    f->SetCloud(cloud);
    index[cloud.get()] = i;
    all.push_back(f);
    calls.clear();
    good_chance = r.chance(0.5) ? 1. : 0.5;
    step_seed = r.upto(1 << 20) * 1000;
    Ev("add").a("rel", i ? rel : at).b("gps", gps);
    x->AddFrame(f, 1.);
    Row good, bad;
    for (const auto& k : calls) (k.second ? good : bad).push_back(k.first);
    Ev("matches").a("good", good).a("bad", bad);
    report("graph");
    if (drift == 1 && good.size() >= 2) {
      const Eigen::Matrix4d now = f->GlobalPose(), claim = truth[i] * off;
      Ev("pull").i("chain", vcell::Round((now - truth[i]).block<3, 1>(0, 3).norm(), 1000))
          .i("data", vcell::Round((now - claim).block<3, 1>(0, 3).norm(), 1000));
      break;
    }
  }
  x->RunFinalOptimazation();
  report("graph");
  if (r.chance(0.5)) {
    x->RunFinalOptimazation();
    report("graph");
  }
  if (drift == 2) {
    const double l = (all.back()->GlobalTranslation() - all.front()->GlobalTranslation()).norm();
    Ev("pull").i("chain", vcell::Round(std::fabs(l - 2. * (n - 1)), 1000)).i("data", vcell::Round(std::fabs(l - 2.2 * (n - 1)), 1000));
  }
  const Eigen::Matrix4d g = x->GetGpsCoordTransform();
  Ev("coord").raw("t", vcell::Rows(g, 1000));
  if (o.use_odom) Ev("calib").raw("t", vcell::Rows(x->GetTransformOdomToLidar(), 1000));
}
}  // namespace

int main(int, char** argv) { return vlog::Main(argv, Run, 60); }
