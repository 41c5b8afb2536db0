// Helpers shared by the drivers of pure data operations.
#ifndef VERIF_CELLS_H_
#define VERIF_CELLS_H_
#include <Eigen/Dense>
#include <cmath>
#include <string>
#include <vector>
#include "log.h"

namespace vcell {
constexpr int64_t kNone = 900000001;  // not a number
constexpr int64_t kOff = 900000002;   // not on the grid or too large

inline int64_t Int(double v, double scale = 1., double tol = 1e-3) {
  if (std::isnan(v)) return kNone;
  bool ok = true;
  const int64_t r = vlog::Grid(v, scale, tol, &ok);
  return ok ? r : kOff;
}
inline int64_t Round(double v, double scale) {
  if (std::isnan(v)) return kNone;
  return std::fabs(v * scale) < 8e8 ? std::llround(v * scale) : kOff;
}

// One of the 24 rotations that map the grid to itself, with a translation.
inline Eigen::Matrix4d GridMotion(vlog::Rng* r, int reach) {
  Eigen::Matrix3d m = Eigen::Matrix3d::Zero();
  int p[3] = {0, 1, 2};
  for (int k = 2; k > 0; --k) std::swap(p[k], p[r->upto(k + 1)]);
  for (int k = 0; k < 3; ++k) m(k, p[k]) = r->chance(0.5) ? 1 : -1;
  if (m.determinant() < 0) m.row(r->upto(3)) *= -1;
  Eigen::Matrix4d t = Eigen::Matrix4d::Identity();
  t.block<3, 3>(0, 0) = m;
  for (int k = 0; k < 3; ++k) t(k, 3) = r->range(-reach, reach);
  return t;
}
// rows of the upper 3x4 part
inline std::string Rows(const Eigen::Matrix4d& m, double scale = 1.) {
  std::vector<std::string> rows;
  for (int i = 0; i < 3; ++i) {
    std::vector<int64_t> v;
    for (int j = 0; j < 4; ++j) v.push_back(Round(m(i, j), scale));
    rows.push_back(vlog::Ev::Arr(v));
  }
  return vlog::Ev::ArrRaw(rows);
}
}  // namespace vcell
#endif
