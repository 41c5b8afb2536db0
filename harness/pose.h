// Integer poses (x, y, z, one of the 24 rotations of the grid; 0..3 are quarter turns about z) and their decoding.
#ifndef VERIF_POSE_H_
#define VERIF_POSE_H_
#include <Eigen/Dense>
#include <algorithm>
#include <array>
#include <cmath>
#include <string>
#include <vector>
#include "log.h"

namespace vpose {
using P4 = std::array<int, 4>;

inline Eigen::Matrix3d Rotation(int q) {
  static const int c[4] = {1, 0, -1, 0};
  static const int s[4] = {0, 1, 0, -1};
  const int k = q % 4, f = q / 4;
  Eigen::Matrix3d z = Eigen::Matrix3d::Identity(), t = Eigen::Matrix3d::Identity();
  z << c[k], -s[k], 0, s[k], c[k], 0, 0, 0, 1;
  if (f < 4) {
    t << 1, 0, 0, 0, c[f], -s[f], 0, s[f], c[f];
  } else {
    const int g = f == 4 ? 1 : 3;
    t << c[g], 0, s[g], 0, 1, 0, -s[g], 0, c[g];
  }
  return t * z;
}

inline Eigen::Matrix4d ToMatrix(const P4& p) {
  Eigen::Matrix4d m = Eigen::Matrix4d::Identity();
  m.block<3, 3>(0, 0) = Rotation(p[3]);
  m(0, 3) = p[0];
  m(1, 3) = p[1];
  m(2, 3) = p[2];
  return m;
}

// how far off the grid a pose or point may be
inline double& Slack() {
  static double v = 0.02;
  return v;
}

// JSON [x, y, z, rotation, on grid (1/0)]
inline std::string Decode(const Eigen::Matrix4d& m) {
  const double tol = Slack();
  bool ok = true;
  std::vector<int64_t> v;
  for (int i = 0; i < 3; ++i) v.push_back(vlog::Grid(m(i, 3), 1., tol, &ok));
  int64_t q = 24;
  for (int k = 0; k < 24 && q == 24; ++k)
    if ((m.block<3, 3>(0, 0) - Rotation(k)).cwiseAbs().maxCoeff() < tol) q = k;
  if (q == 24) {
    q = 0;
    ok = false;
  }
  v.push_back(q);
  v.push_back(ok ? 1 : 0);
  return vlog::Ev::Arr(v);
}

inline Eigen::Matrix4d FromRpy(double x, double y, double z, double rx, double ry, double rz) {
  Eigen::Matrix4d m = Eigen::Matrix4d::Identity();
  m.block<3, 3>(0, 0) = (Eigen::AngleAxisd(rz, Eigen::Vector3d::UnitZ()) *
                         Eigen::AngleAxisd(ry, Eigen::Vector3d::UnitY()) *
                         Eigen::AngleAxisd(rx, Eigen::Vector3d::UnitX()))
                            .toRotationMatrix();
  m.block<3, 1>(0, 3) = Eigen::Vector3d(x, y, z);
  return m;
}

// JSON [id, x, y, z] (id -1 when a coordinate is off the grid)
template <typename P>
std::string Point(const P& p) {
  const double tol = std::max(0.05, 1.5 * Slack());
  bool ok = true;
  std::vector<int64_t> v(4);
  v[0] = vlog::Grid(p.intensity, 1., 1e-3, &ok);
  v[1] = vlog::Grid(p.x, 1., tol, &ok);
  v[2] = vlog::Grid(p.y, 1., tol, &ok);
  v[3] = vlog::Grid(p.z, 1., tol, &ok);
  if (!ok) v[0] = -1;
  return vlog::Ev::Arr(v);
}
template <typename C>
std::string Points(const C& pts) {
  std::string r = "[";
  bool first = true;
  for (const auto& p : pts) {
    if (!first) r += ",";
    first = false;
    r += Point(p);
  }
  return r + "]";
}
}  // namespace vpose
#endif
