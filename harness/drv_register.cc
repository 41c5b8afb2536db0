// Registers views of a scene of three walls to each other with the real matchers.
// usage: drv_register <out> <first seed> <count>
#include <cmath>

#include "cells.h"
#include "log.h"
#include "registrators/icp_fast.h"
#include "registrators/ndt.h"
#include "registrators/ndt_gicp.h"

using static_map::data::InnerCloudType;
using static_map::data::InnerPointCloudData;
using vlog::Ev;
namespace reg = static_map::registrator;

namespace {
using Cloud = std::vector<Eigen::Vector3d>;

Eigen::Matrix4d Motion(vlog::Rng* r, double turn, double shift) {
  auto u = [&] { return r->range(-1000, 1000) / 1000.; };
  Eigen::Vector3d axis(u(), u(), u());
  if (axis.norm() < 1e-3) axis = Eigen::Vector3d::UnitZ();
  Eigen::Matrix4d m = Eigen::Matrix4d::Identity();
  m.block<3, 3>(0, 0) = Eigen::AngleAxisd(u() * turn, axis.normalized()).toRotationMatrix();
  m.block<3, 1>(0, 3) = Eigen::Vector3d(u(), u(), u()) * shift;
  return m;
}
Eigen::Vector3d Apply(const Eigen::Matrix4d& m, const Eigen::Vector3d& p) {
  return m.block<3, 3>(0, 0) * p + m.block<3, 1>(0, 3);
}
InnerPointCloudData::Ptr Data(const Cloud& c) {
  InnerCloudType::Ptr in(new InnerCloudType);
  for (const auto& p : c) {
    static_map::data::InnerPointType q;
    q.x = p[0];
    q.y = p[1];
    q.z = p[2];
    q.intensity = 1;
    q.factor = 0;
    in->points.push_back(q);
  }
  return std::make_shared<InnerPointCloudData>(in);
}
std::string Places(const Cloud& c, const std::vector<int>& ids, const Eigen::Matrix4d& m) {
  std::vector<std::string> rows;
  for (int i : ids) {
    const Eigen::Vector3d p = Apply(m, c[i]);
    rows.push_back(Ev::Arr(std::vector<int64_t>{vcell::Round(p[0], 1000), vcell::Round(p[1], 1000), vcell::Round(p[2], 1000)}));
  }
  return Ev::ArrRaw(rows);
}

void Run(uint64_t seed) {
  vlog::Rng r(seed);
  const int kind = r.chance(0.7) ? 0 : r.range(1, 2);
  Cloud scene;
  auto jitter = [&] { return r.range(-200, 200) / 1000.; };
  if (kind == 0) {
    // four walls in a row that face different ways, with 112 points each
    for (int w = 0; w < 4; ++w) {
      Eigen::Vector3d a = w == 3 ? Eigen::Vector3d(1, -1, 0).normalized() : Eigen::Vector3d::Unit((w + 1) % 3);
      Eigen::Vector3d b = w == 3 ? Eigen::Vector3d(1, 1, -2).normalized() : Eigen::Vector3d::Unit((w + 2) % 3);
      for (int i = 0; i < 14; ++i)
        for (int j = 0; j < 8; ++j)
          scene.push_back(Eigen::Vector3d(40 * w, 0, 0) + a * ((i + jitter()) * 0.5) + b * ((j + jitter()) * 0.5));
    }
  } else {
    // the corner of three walls, not of the same size
    const int n = r.range(12, 15);
    for (int w = 0; w < 3; ++w)
      for (int i = 1; i <= n + w; ++i)
        for (int j = 1; j <= n + (w + 1) % 3; ++j) {
          Eigen::Vector3d p;
          p[w] = 0;
          p[(w + 1) % 3] = (i + jitter()) * 0.25;
          p[(w + 2) % 3] = (j + jitter()) * 0.25;
          scene.push_back(p);
        }
  }
  for (int k = scene.size() - 1; k > 0; --k) std::swap(scene[k], scene[r.upto(k + 1)]);
  // Normals are found for walls the origin is not close to, or lies exactly in.
  Eigen::Matrix4d place;
  if (kind == 0 && r.chance(0.1)) {
    place = Eigen::Matrix4d::Identity();
    for (int k = 0; k < 3; ++k) place(k, 3) = r.chance(0.5) ? 0 : r.range(5, 20);
    if (r.chance(0.7)) place(0, 3) = 3;
  } else {
    const bool turned = r.chance(0.5);
    double clear;
    do {
      place = Motion(&r, turned ? 3.1 : 0, 20);
      const Eigen::Vector3d eye = -place.block<3, 3>(0, 0).transpose() * place.block<3, 1>(0, 3);
      clear = std::min({std::fabs(eye[0]), std::fabs(eye[1]), std::fabs(eye[2])});
      if (kind == 0) clear = std::min(clear, std::fabs(eye[0] + eye[1] + eye[2] - 120));
      if (kind == 0) clear = std::min(clear, std::fabs(eye[2]));
    } while (clear < 2);
  }
  const Eigen::Matrix4d truth = Motion(&r, r.chance(0.5) ? 3.1 : 0.5, 5);
  Cloud target, source;
  for (const auto& p : scene) {
    target.push_back(Apply(place, p));
    source.push_back(Apply(truth.inverse(), target.back()));
  }
  for (int k = source.size() - 1; k > 0; --k) {
    const int m = r.upto(k + 1);
    std::swap(source[k], source[m]);
    std::swap(target[k], target[m]);
  }
  std::vector<int> probes;
  for (int i = 0; i < 6; ++i) probes.push_back(r.upto(source.size()));
  const int64_t size = target.size();
  // things that are only in the source, away from the walls
  const int foreign = kind == 0 && r.chance(0.3) ? r.range(1, size / 10) : 0;
  Cloud seen = source;
  for (int i = 0; i < foreign; ++i)
    seen.push_back(Apply(truth.inverse(), Apply(place, Eigen::Vector3d(40 * r.upto(3) + r.range(15, 25), r.range(-8, 8), r.range(-8, 8)))));
  Cloud shuffled = target;
  for (int k = shuffled.size() - 1; k > 0; --k) std::swap(shuffled[k], shuffled[r.upto(k + 1)]);

  const Eigen::Matrix4d I = Eigen::Matrix4d::Identity();
  Ev("scene").i("kind", kind).i("n", size).i("foreign", foreign).raw("own", Places(target, probes, I)).raw("seen", Places(source, probes, I));
  std::unique_ptr<reg::Interface> m;
  if (kind == 0)
    m.reset(new reg::IcpFast);
  else if (kind == 1)
    m.reset(new reg::Ndt);
  else
    m.reset(new reg::NdtWithGicp);
  m->InitWithOptions();
  auto src = Data(seen), tgt = Data(shuffled);
  if (kind == 0) tgt->CalculateNormals();
  m->SetInputTarget(tgt);
  m->SetInputSource(src);
  const int calls = kind == 0 ? 4 : 2;
  Eigen::Matrix4d off = I;
  for (int k = 0; k < calls; ++k) {
    // 0 exact guess, 1 near, 2 the same again, 3 far away
    const int how = k == 0 ? r.upto(2) : r.upto(4);
    if (how == 0) off = I;
    if (how == 1) off = kind == 0 ? Motion(&r, 0.005, 0.3) : Motion(&r, 0.03, 0.1);
    if (how == 3) off = Motion(&r, 0.5, 1), off(2, 3) += 40 + r.upto(30);
    // the start is off by a motion around the scene
    const Eigen::Matrix4d guess = place * off * place.inverse() * truth;
    Eigen::Matrix4d result = Eigen::Matrix4d::Zero();
    const bool ok = m->Align(guess, result);
    Ev("align").i("how", how).b("ok", ok).raw("to", Places(source, probes, result)).i("score", vcell::Round(m->GetFitnessScore(), 1e6))
        .raw("from", Places(source, probes, guess));
  }
}
}  // namespace

int main(int argc, char** argv) { return vlog::Main(argv, Run, 60); }
