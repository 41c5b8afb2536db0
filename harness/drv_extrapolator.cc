// Feeds poses, inertial samples and predictions to the pose extrapolator.
// usage: drv_extrapolator <out> <first> <count>
#include "builder/pose_extrapolator.h"
#include "cells.h"
#include "log.h"

using namespace static_map;  // NOLINT
using vlog::Ev;
typedef std::vector<int64_t> Row;

namespace {
constexpr int kTickMs = 10;
const double kUnit = M_PI / 18000.;  // 1/100 degree

SimpleTime Time(int64_t tick) { return SimpleTime::FromNanoSec(static_cast<uint64_t>(tick) * kTickMs * 1000000); }
int64_t Tick(const SimpleTime& t) {
  const int64_t ns = t.ToNanoSec();
  return ns % (kTickMs * 1000000) ? -1 : ns / (kTickMs * 1000000);
}

struct Run {
  vlog::Rng r;
  std::unique_ptr<PoseExtrapolator> x;
  int axis = 2;
  bool imu, tilt = false;
  Eigen::Vector3d gravity{0, 0, 9.8};
  explicit Run(uint64_t seed) : r(seed) {}

  data::ImuMsg Sample(int64_t t, int w) {
    data::ImuMsg m;
    m.header.stamp = Time(t);
    m.angular_velocity = Eigen::Vector3d::Zero();
    m.angular_velocity[axis] = w * kUnit / (kTickMs * 1e-3);
    m.linear_acceleration = gravity;
    return m;
  }
  Eigen::Matrix4d Pose(const Row& p, int64_t a) {
    Eigen::Matrix4d m = Eigen::Matrix4d::Identity();
    m.block(0, 0, 3, 3) = Eigen::AngleAxisd(a * kUnit, Eigen::Vector3d::Unit(axis)).toRotationMatrix();
    for (int k = 0; k < 3; ++k) m(k, 3) = p[k] / 1000.;
    return m;
  }
  bool predicted = false;
  void Predict(int64_t t) {
    predicted = true;
    const Eigen::Matrix4d m = x->ExtrapolatePose(Time(t));
    const Eigen::Matrix3d rot = m.block(0, 0, 3, 3);
    const int i = (axis + 1) % 3, j = (axis + 2) % 3;
    const double a = std::atan2(rot(j, i), rot(i, i));
    const Eigen::AngleAxisd rest(
        Eigen::Matrix3d(rot * Eigen::AngleAxisd(-a, Eigen::Vector3d::Unit(axis)).toRotationMatrix()));
    const bool affine = (m.row(3) - Eigen::RowVector4d(0, 0, 0, 1)).norm() == 0;
    Ev("predict").i("t", t).a("p", Row{vcell::Round(m(0, 3), 1000), vcell::Round(m(1, 3), 1000), vcell::Round(m(2, 3), 1000)})
        .i("a", vcell::Round(a, 1 / kUnit)).i("off", vcell::Round(rest.angle(), 1 / kUnit)).b("affine", affine);
  }

  void Go() {
    imu = r.chance(0.5);
    const int window = r.range(1, 12) * (r.chance(0.5) ? 1 : 3);
    int64_t now = r.chance(0.2) ? r.upto(30) : 100000 + r.upto(1000);
    const bool still = imu && r.chance(0.2);   // no rotation, tilted gravity
    if (still) gravity = Eigen::Vector3d(r.range(-3, 3), r.range(-3, 3), r.range(4, 9));
    axis = imu ? 2 : r.upto(3);
    const int turn = axis == 1 ? 200 : 1500;
    Ev("start").s("mode", imu ? "imu" : "ctrv").i("window", window).i("axis", axis);
    int w = 0;
    int poses = 0;
    int64_t last_pose = now, last_predict = now;
    if (imu) {
      w = still ? 0 : r.range(-50, 50);
      x = PoseExtrapolator::InitializeWithImu(Time(window), 10., Sample(now, w));
      Ev("imu").i("t", now).i("w", w);
      Ev("pose").i("t", now).a("p", Row{0, 0, 0}).i("a", 0);
      ++poses;
    } else {
      x = PoseExtrapolator::InitialSimpleCTRV(Time(window));
    }
    Ev("last").i("t", Tick(x->GetLastPoseTime()));
    int64_t last_imu = now;
    Row p{0, 0, 0}, v{0, 0, 0};
    int64_t a = imu ? 0 : r.range(-18000, 18000);
    const bool steady = r.chance(0.4);
    const int n = r.range(4, 40);
    const int gap = std::max(1, window / r.range(1, 8));
    for (int k = 0; k < n; ++k) {
      const int what = r.upto(10);
      if (what < 4 || (what < 7 && !poses)) {
        const int64_t t = std::max(last_pose, r.chance(0.3) ? last_predict : now);
        const int64_t dt = std::min<int64_t>(t - last_pose, 12);
        if (!steady || !v[0]) v = Row{r.range(-80, 80), r.range(-80, 80), r.range(-20, 20)};
        for (int j = 0; j < 3; ++j) p[j] += v[j] * std::max<int64_t>(dt, 1);
        a += steady ? turn / 20 * dt : r.range(-turn, turn);
        x->AddPose(Time(t), Pose(p, a));
        Ev("pose").i("t", t).a("p", p).i("a", a);
        last_pose = t;
        last_predict = t;
        ++poses;
      } else if (what < 8) {
        if (!poses || (still && poses < 2)) continue;
        const int64_t t = std::max(last_predict, r.chance(0.3) ? last_predict : now + r.upto(gap + 1));
        Predict(t);
        last_predict = t;
      } else if (what < 9 && imu) {
        const int64_t t = std::max(std::max(last_imu, last_predict), now + r.upto(gap));
        if (!still) w = r.range(-50, 50);
        x->AddImuData(Sample(t, w));
        Ev("imu").i("t", t).i("w", w);
        last_imu = t;
      } else if (what < 9 && poses < 2 && !predicted) {
        const Row g{r.range(-9, 9), r.range(-9, 9), r.range(-9, 9)};   // mm per tick
        x->InitRoughLinearVelocity(Eigen::Vector3d(g[0], g[1], g[2]) / kTickMs);
        Ev("rough").a("v", g);
      } else {
        Ev("last").i("t", Tick(x->GetLastPoseTime()));
      }
      if (r.chance(0.6)) now += r.range(0, gap);
    }
  }
};
}  // namespace

int main(int, char** argv) {
  return vlog::Main(argv, [](uint64_t seed) { Run(seed).Go(); }, 30);
}
