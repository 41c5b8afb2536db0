// Calls the geometry and time helpers and logs arguments and results.
// usage: drv_math <out> <first> <count> <time|box|ray|rigid>
#include <iostream>
#include <sstream>
#include "cells.h"
#include "common/bounding_box.h"
#include "common/math.h"
#include "common/octree.h"
#include "common/simple_time.h"

using namespace static_map;  // NOLINT
using vcell::Int;
using vcell::Round;
using vlog::Ev;
using Eigen::Matrix4d;
using Eigen::Vector3d;

namespace {
std::string g_mode;
typedef std::vector<int64_t> Row;

// ---- time stamps: digits of the nanosecond value (seconds/65536, seconds%65536, ms, us, ns) ----
Row Digits(const SimpleTime& t) {
  const uint64_t v = static_cast<uint64_t>(t.ToNanoSec());
  const uint64_t s = v / 1000000000, n = v % 1000000000;
  return Row{static_cast<int64_t>(s / 65536), static_cast<int64_t>(s % 65536), static_cast<int64_t>(n / 1000000),
             static_cast<int64_t>(n / 1000 % 1000), static_cast<int64_t>(n % 1000)};
}
struct Stamped {
  SimpleTime time;
};

SimpleTime Corner(vlog::Rng* r, const SimpleTime* near) {
  static const uint32_t secs[] = {0, 1, 2, 59, 65535, 65536, 1700000000u, 2147483647u, 2147483648u, 3000000000u};
  static const uint32_t ns[] = {0, 1, 2, 999, 1000, 1001, 999999, 1000000, 500000000, 999999998, 999999999};
  if (near && r->chance(0.5)) {
    const int64_t d[] = {0, 1, -1, 2, -2, 3, 999, -999, 1000, -1000, 1000000000, -1000000000, 999999999};
    const int64_t v = near->ToNanoSec() + d[r->upto(13)];
    return SimpleTime::FromNanoSec(v < 0 ? 0 : v);
  }
  if (r->chance(0.7)) return SimpleTime(secs[r->upto(10)], ns[r->upto(11)]);
  return SimpleTime(r->upto(2000000000), r->upto(1000000000));
}

void RunTime(uint64_t seed) {
  vlog::Rng r(seed);
  for (int k = 0; k < 10; ++k) {
    const SimpleTime a = Corner(&r, nullptr);
    SimpleTime b = Corner(&r, &a);
    Ev("cmp").a("a", Digits(a)).a("b", Digits(b)).b("eq", a == b).b("ne", a != b).b("lt", a < b).b("le", a <= b)
        .b("gt", a > b).b("ge", a >= b);
    Ev("sub").a("a", Digits(a)).a("b", Digits(b)).a("r", Digits(a - b));
    // sums beyond the range of the type are not defined
    if (a.ToNanoSec() / 1000000000 + b.ToNanoSec() / 1000000000 < 4294967290ll) {
      SimpleTime c = a;
      c += b;
      Ev("add").a("a", Digits(a)).a("b", Digits(b)).a("r", Digits(a + b)).a("i", Digits(c));
    }
    const int divs[] = {0, 1, 2, 3, 7, 10, 999, 1000, -1, -2, -5, -1000};
    const int d = r.chance(0.7) ? divs[r.upto(12)] : r.range(-1000, 1000);
    SimpleTime q = a;
    q /= d;
    Ev("div").a("a", Digits(a)).i("d", d).a("r", Digits(q));
    Ev("pcl").a("a", Digits(a)).a("r", Digits(ToLocalTime(ToPclTime(a)))).i("rest", ToPclTime(a) % 1000000);
    Ev("nano").a("a", Digits(a)).a("r", Digits(SimpleTime::FromNanoSec(a.ToNanoSec())));
    Ev("sec").a("a", Digits(a)).a("r", Digits(SimpleTime::FromSec(a.ToSec())));
    const SimpleTime m = r.chance(0.5) ? SimpleTime::TimeMax() : SimpleTime::FromSec(-r.upto(100) - 0.5);
    Ev("ends").b("max", SimpleTime::TimeMax() >= a).b("zero", SimpleTime() <= a).b("neg", m == SimpleTime::TimeMax() || m.IsZero())
        .b("iszero", a.IsZero()).a("a", Digits(a));
  }
  // bracket of a time in a sorted record
  const int n = r.range(2, 9);
  std::vector<Stamped> v;
  std::vector<std::string> rows;
  int64_t t = 1000;
  for (int i = 0; i < n; ++i) {
    t += r.range(1, 3);
    v.push_back({SimpleTime::FromNanoSec(t * 1000)});
    rows.push_back(std::to_string(t));
  }
  for (int64_t x = 1000; x <= t + 1; ++x) {
    const auto p = TimeStampBinarySearch(v, SimpleTime::FromNanoSec(x * 1000));
    Ev("find").raw("v", Ev::ArrRaw(rows)).i("x", x).i("i", p.first).i("j", p.second);
  }
}

// ---- boxes and the tree: lengths in 1/8 ----
Row Eighth(const Vector3d& v) { return Row{Int(v[0], 8), Int(v[1], 8), Int(v[2], 8)}; }
Vector3d OnGrid(vlog::Rng* r, int reach) {
  return Vector3d(r->range(-reach, reach), r->range(-reach, reach), r->range(-reach, reach)) / 8.;
}

void RunBox(uint64_t seed) {
  vlog::Rng r(seed);
  const int sizes[] = {16, 32, 64, 128};  // in 1/8
  for (int k = 0; k < 4; ++k) {
    const int size = sizes[r.upto(4)];
    const Vector3d center = OnGrid(&r, 80);
    const common::CubeBoundingBox box = r.chance(0.5)
        ? common::CubeBoundingBox(center, size / 8.)
        : common::CubeBoundingBox(center - Vector3d::Constant(size / 16.), center + Vector3d::Constant(size / 16.));
    const auto subs = box.GenerateSubBoxes();
    std::vector<std::string> centers;
    for (const auto& s : subs) centers.push_back(Ev::Arr(Eighth(s.GetCenter())));
    Ev("cube").a("c", Eighth(box.GetCenter())).a("at", Eighth(center)).i("size", size).raw("subs", Ev::ArrRaw(centers));
    for (int j = 0; j < 12; ++j) {
      // often on a face, an edge, a corner, a split plane
      Vector3d p = center;
      for (int a = 0; a < 3; ++a) {
        const int corner[] = {0, size / 2, -size / 2, size / 4, -size / 4, size / 2 + 1, -size / 2 - 1, 1, -1};
        p[a] += (r.chance(0.7) ? corner[r.upto(9)] : r.range(-size, size)) / 8.;
      }
      std::vector<int64_t> in;
      for (const auto& s : subs) in.push_back(s.ContainsPoint(p));
      Ev("probe").a("p", Eighth(p)).b("in", box.ContainsPoint(p)).i("k", box.GetSubBoxIndexForPoint(p)).a("subs", in);
    }
    const Vector3d lo = OnGrid(&r, 40), d(r.range(1, 40), r.range(1, 40), r.range(1, 40));
    const common::BoundingBox bb(lo, lo + d / 8.);
    for (int j = 0; j < 6; ++j) {
      Vector3d p = lo;
      for (int a = 0; a < 3; ++a) {
        const double at[] = {0, d[a], d[a] + 1, -1, std::floor(d[a] / 2), 1};
        p[a] += at[r.upto(6)] / 8.;
      }
      Ev("bbox").a("lo", Eighth(lo)).a("hi", Eighth(lo + d / 8.)).a("p", Eighth(p)).b("in", bb.ContainsPoint(p));
    }
  }
  for (int k = 0; k < 2; ++k) {
    common::OctreeConfig config;
    config.center = OnGrid(&r, 30);
    const int size = 256;
    config.max_size = size / 8.;
    // cubes of any place and size: points are given and read back in 1/256 of the edge from the centre
    const bool any = k == 1;
    if (any) {
      config.center = Vector3d(r.range(-99999, 99999), r.range(-99999, 99999), r.range(-99999, 99999)) / 1007.;
      config.max_size = r.range(100, 100000) / 997.;
    }
    const Vector3d origin = any ? config.center : Vector3d::Zero();
    const double unit = any ? config.max_size / size : 0.125;
    config.max_depth = r.range(0, 5);
    config.max_num_points_in_voxel = r.range(1, 5);
    common::Octree tree(config);
    for (int again = r.range(1, 3); again > 0; --again) {
      const int n = r.range(0, 20);
      Eigen::MatrixXd pts(3, n);
      std::vector<std::string> in;
      const bool near = r.chance(0.5);
      for (int i = 0; i < n; ++i) {
        Vector3d p = config.center + OnGrid(&r, near ? 20 : size / 2 + 6);
        if (any) {
          // on the faces of the whole cube rounding decides, so none are put there
          for (int c = 0; c < 3; ++c) {
            int at = r.chance(0.5) ? 16 * r.range(-7, 7) : r.range(-140, 140);
            if (at == 128 || at == -128) at /= 2;
            p[c] = config.center[c] + config.max_size * at / size;
          }
        }
        if (r.chance(0.2) && i) p = pts.col(i - 1);
        pts.col(i) = p;
        const Vector3d q = (p - origin) / unit;
        in.push_back(Ev::Arr(Row{Int(q[0]), Int(q[1]), Int(q[2])}));
      }
      tree.InitWithPointCloud(pts);
      std::ostringstream out;
      auto* old = std::cout.rdbuf(out.rdbuf());
      std::cout.precision(17);
      tree.RecursiveOutput();
      std::cout.rdbuf(old);
      std::istringstream lines(out.str());
      std::vector<std::string> res;
      std::string line;
      while (std::getline(lines, line)) {
        for (auto& ch : line)
          if (ch == ':') ch = ' ';
        std::istringstream f(line);
        double x, y, z;
        int depth;
        f >> x >> y >> z >> depth;
        const Vector3d q = (Vector3d(x, y, z) - origin) / unit;
        res.push_back(Ev::Arr(Row{Int(q[0]), Int(q[1]), Int(q[2]), f.fail() ? -1 : depth}));
      }
      Ev("tree").a("c", any ? Row{0, 0, 0} : Eighth(config.center)).i("size", size).i("depth", config.max_depth)
          .i("cap", config.max_num_points_in_voxel).raw("in", Ev::ArrRaw(in)).raw("out", Ev::ArrRaw(res))
          .i("max", tree.GetMaxDepth());
    }
  }
}

// ---- rays: lengths in 1/8 ----
void RunRay(uint64_t seed) {
  vlog::Rng r(seed);
  const int steps[] = {2, 4, 8, 16, 32};
  for (int k = 0; k < 8; ++k) {
    const int step = steps[r.upto(5)];
    int reach = r.chance(0.5) ? 24 : 160;
    Eigen::Vector3f a, b;
    for (int i = 0; i < 3; ++i) {
      a[i] = r.range(-reach, reach) / 8.f;
      b[i] = r.chance(0.2) ? a[i] : r.range(-reach, reach) / 8.f;
      if (r.chance(0.3)) a[i] = std::floor(a[i] * 8 / step) * step / 8;
      if (r.chance(0.3)) b[i] = std::floor(b[i] * 8 / step) * step / 8;
    }
    if (r.chance(0.1)) b = a + Eigen::Vector3f::Constant(r.range(-9, 9));
    auto cells = [](const std::vector<Eigen::Vector3i>& v) {
      std::vector<std::string> rows;
      for (const auto& c : v) rows.push_back(Ev::Arr(Row{c[0], c[1], c[2]}));
      return Ev::ArrRaw(rows);
    };
    Ev("ray").a("a", Eighth(a.cast<double>())).a("b", Eighth(b.cast<double>())).i("step", step)
        .raw("u", cells(common::VoxelCastingBresenham(a, b, step / 8.f)))
        .raw("v", cells(common::VoxelCastingDDA(a, b, step / 8.f)));
  }
}

// ---- rigid transforms: rotation entries in 1/10000, lengths in 1/1000 ----
std::string Rot(const Eigen::Matrix3d& m) {
  std::vector<std::string> rows;
  for (int i = 0; i < 3; ++i) rows.push_back(Ev::Arr(Row{Round(m(i, 0), 1e4), Round(m(i, 1), 1e4), Round(m(i, 2), 1e4)}));
  return Ev::ArrRaw(rows);
}
Row Mm(const Vector3d& v) { return Row{Round(v[0], 1e3), Round(v[1], 1e3), Round(v[2], 1e3)}; }
Eigen::Matrix3d R3(const Matrix4d& m) { return m.block<3, 3>(0, 0); }
Vector3d T3(const Matrix4d& m) { return m.block<3, 1>(0, 3); }

Matrix4d Some(vlog::Rng* r) {
  if (r->chance(0.5)) return vcell::GridMotion(r, 100);
  Matrix4d m = Matrix4d::Identity();
  const double s = r->chance(0.3) ? 1e-3 : 1.;
  const Eigen::Quaterniond q(1 + r->range(-1000, 1000) * s / 700., r->range(-1000, 1000) * s / 1000.,
                             r->range(-1000, 1000) * s / 1000., r->range(-1000, 1000) * s / 1000.);
  m.block<3, 3>(0, 0) = q.normalized().toRotationMatrix();
  for (int i = 0; i < 3; ++i) m(i, 3) = r->range(-100000, 100000) / 1000.;
  return m;
}

template <typename T>
void Conversions(const Matrix4d& a, const Matrix4d& b, bool single) {
  typedef Eigen::Matrix<T, 3, 3> M3;
  typedef Eigen::Matrix<T, 4, 4> M4;
  const M4 m = a.cast<T>();
  const M3 rot = common::Rotation<T>(m);
  const Eigen::Matrix<T, 3, 1> e = common::RotationMatrixToEulerAngles<T>(rot);
  const Eigen::Quaternion<T> q = common::EulerAnglesToQuaternion<T>(e);
  const Eigen::Matrix<T, 3, 1> e2 = common::QuaternionToEulers<T>(q);
  const Eigen::Matrix<T, 6, 1> v = common::TransformToVector6<T>(m);
  const M4 back = common::Vector6ToTransform<T>(v);
  Ev("conv").b("single", single).raw("r", Rot(R3(a))).a("t", Mm(T3(a)))
      .raw("eu", Rot(common::EulerAnglesToRotationMatrix<T>(e).template cast<double>()))
      .raw("q", Rot(q.toRotationMatrix().template cast<double>()))
      .raw("e2", Rot(common::EulerAnglesToRotationMatrix<T>(e2).template cast<double>()))
      .raw("vr", Rot(R3(back.template cast<double>()))).a("vt", Mm(T3(back.template cast<double>())))
      .a("six", Row{Round(v[0], 1e3), Round(v[1], 1e3), Round(v[2], 1e3)})
      .a("tt", Mm(common::Translation<T>(m).template cast<double>()))
      .b("last", (back.template cast<double>().row(3) - Eigen::RowVector4d(0, 0, 0, 1)).norm() < 1e-12);
  // product of the quaternions against the product of the matrices
  const Eigen::Quaternion<T> q2 = common::EulerAnglesToQuaternion<T>(
      common::RotationMatrixToEulerAngles<T>(common::Rotation<T>(M4(b.cast<T>()))));
  Ev("prod").raw("r", Rot(R3(a))).raw("s", Rot(R3(b))).raw("p", Rot((q * q2).toRotationMatrix().template cast<double>()));
  std::vector<M4, Eigen::aligned_allocator<M4>> none;
  std::vector<M4> same(3, m);
  const M4 avg = common::AverageTransforms<T>(same);
  Ev("same").raw("r", Rot(R3(a))).a("t", Mm(T3(a))).raw("ar", Rot(R3(avg.template cast<double>())))
      .a("at", Mm(T3(avg.template cast<double>())));
  std::vector<M4> two;
  two.push_back(m);
  M4 other = m;
  other.template block<3, 1>(0, 3) = b.cast<T>().template block<3, 1>(0, 3);
  two.push_back(other);
  const M4 mid = common::AverageTransforms<T>(two);
  Ev("mean").raw("r", Rot(R3(a))).a("t", Mm(T3(a))).a("u", Mm(T3(b))).raw("ar", Rot(R3(mid.template cast<double>())))
      .a("at", Mm(T3(mid.template cast<double>())));
}

// the average of a rotation and a near one, given as a part of a turn about one axis
template <typename T>
void Average(const Matrix4d& a, vlog::Rng* r, bool single) {
  typedef Eigen::Matrix<T, 4, 4> M4;
  Matrix4d b = a;
  const double angle = r->range(-60, 60) * M_PI / 180.;
  const Eigen::Vector3d axis = Eigen::Vector3d::Unit(r->upto(3));
  b.block<3, 3>(0, 0) = a.block<3, 3>(0, 0) * Eigen::AngleAxisd(angle, axis).toRotationMatrix();
  std::vector<M4> two;
  two.push_back(a.cast<T>());
  two.push_back(b.cast<T>());
  const M4 mid = common::AverageTransforms<T>(two);
  Ev("middle").b("single", single).raw("r", Rot(R3(a))).raw("s", Rot(R3(b))).raw("m", Rot(R3(mid.template cast<double>())));
}

void RunRigid(uint64_t seed) {
  vlog::Rng r(seed);
  for (int k = 0; k < 3; ++k) {
    const Matrix4d a = Some(&r), b = Some(&r);
    Conversions<double>(a, b, false);
    Conversions<float>(a, b, true);
    Average<double>(a, &r, false);
    Average<float>(a, &r, true);
    // quarter turns about x, then y, then z
    const int x = r.range(-2, 2), y = r.range(-1, 1), z = r.range(-2, 2);
    const Vector3d e = Vector3d(x, y, z) * (M_PI / 2);
    Ev("quarter").a("eu", Row{x, y, z}).raw("r", Rot(common::EulerAnglesToRotationMatrix<double>(e)));
    std::vector<std::string> rots, ts;
    for (int f = 0; f <= 8; ++f) {
      const Matrix4d m = common::InterpolateTransform<double>(a, b, f / 8.f);
      rots.push_back(Rot(R3(m)));
      ts.push_back(Ev::Arr(Mm(T3(m))));
    }
    Ev("interp").raw("r", Rot(R3(a))).a("t", Mm(T3(a))).raw("s", Rot(R3(b))).a("u", Mm(T3(b)))
        .raw("rs", Ev::ArrRaw(rots)).raw("ts", Ev::ArrRaw(ts));
    // angles in 1/100 degree
    const int deg = r.range(-200000, 200000);
    Ev("angle").i("a", deg).i("n", Round(common::RadToDeg(common::NormalizeAngleDifference(common::DegToRad(deg / 100.))), 100));
    const int lo = r.range(-9, 0), hi = r.range(0, 9), val = r.range(-20, 20);
    Ev("clamp").i("v", val).i("lo", lo).i("hi", hi).i("r", common::Clamp(val, lo, hi));
    const int base = r.range(-5, 5), ex = r.range(0, 5);
    Ev("power").i("b", base).i("x", ex).i("r", common::Power(base, ex)).i("s", common::Pow2(base));
    // a plane through integer points: p0 + i*u + j*v
    Vector3d p0(r.range(-20, 20), r.range(-20, 20), r.range(-20, 20));
    Vector3d u(r.range(-5, 5), r.range(-5, 5), r.range(-5, 5)), v(r.range(-5, 5), r.range(-5, 5), r.range(-5, 5));
    if (u.cross(v).norm() > 0) {
      std::vector<Vector3d> pts;
      const int n = r.range(3, 8);
      pts.push_back(p0);
      pts.push_back(p0 + u);
      pts.push_back(p0 + v);
      for (int i = 3; i < n; ++i) pts.push_back(p0 + r.range(-3, 3) * u + r.range(-3, 3) * v);
      if (r.chance(0.5)) {
        // a thin slab around the plane
        const Vector3d off = 0.01 * u.cross(v).normalized();
        for (auto& q : std::vector<Vector3d>(pts)) pts.push_back(q - off);
        for (size_t i = 0; i < pts.size() / 2; ++i) pts[i] += off;
      }
      const auto fit = common::PlaneFitting<double>(pts);
      Ev("plane").a("p", Mm(p0 / 1000.)).a("u", Mm(u / 1000.)).a("v", Mm(v / 1000.)).a("c", Mm(fit.first)).a("n", Mm(fit.second));
    }
    const int scale = r.range(1, 4), along = r.range(-9, 9), off = r.range(0, 9);
    Vector3d dir = Vector3d::Zero(), side = Vector3d::Zero();
    const int ax = r.upto(3);
    dir[ax] = scale * (r.chance(0.5) ? 1 : -1);
    side[(ax + 1) % 3] = off;
    const double dist = common::DistanceToLine<3>(p0 + side + along * dir, p0, dir);
    Ev("line").i("off", off).i("scale", scale).i("along", along).i("d", Round(dist, 1000));
  }
}

void Run(uint64_t seed) {
  if (g_mode == "time") RunTime(seed);
  if (g_mode == "box") RunBox(seed);
  if (g_mode == "ray") RunRay(seed);
  if (g_mode == "rigid") RunRigid(seed);
}
}  // namespace

int main(int, char** argv) {
  g_mode = argv[4];
  return vlog::Main(argv, Run, 30);
}
