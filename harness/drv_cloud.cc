// Random sequences of operations on point clouds; logs the clouds after every operation.
// usage: drv_cloud <out> <first> <count> <ops|store|skew> <scratch dir>
#include <sys/stat.h>
#include <fstream>
#include "builder/data/cloud_types.h"
#include "cells.h"
#include "pcl/io/pcd_io.h"

using static_map::SimpleTime;
using namespace static_map::data;  // NOLINT
using vcell::Int;
using vcell::Round;
using vlog::Ev;
typedef pcl::PointCloud<pcl::PointXYZI> PclI;
typedef pcl::PointCloud<pcl::PointXYZ> PclP;

namespace {
std::string g_mode, g_dir;
typedef std::vector<int64_t> Row;
Row Time(const SimpleTime& t) {
  return Row{static_cast<int32_t>(t.ToNanoSec() / 1000000000), static_cast<int32_t>(t.ToNanoSec() % 1000000000)};
}

std::string Pts(const InnerCloudType& c) {
  std::vector<std::string> rows;
  for (const auto& p : c.points)
    rows.push_back(Ev::Arr(Row{Int(p.x), Int(p.y), Int(p.z), Int(p.intensity), Int(p.factor, 64)}));
  return Ev::ArrRaw(rows);
}
std::string Pts(const PclI& c) {
  std::vector<std::string> rows;
  for (const auto& p : c.points) rows.push_back(Ev::Arr(Row{Int(p.x), Int(p.y), Int(p.z), Int(p.intensity), 0}));
  return Ev::ArrRaw(rows);
}
std::string Pts(const PclP& c) {
  std::vector<std::string> rows;
  for (const auto& p : c.points) rows.push_back(Ev::Arr(Row{Int(p.x), Int(p.y), Int(p.z), 0, 0}));
  return Ev::ArrRaw(rows);
}
std::string Cols(const Eigen::MatrixXd& m, double scale) {
  std::vector<std::string> rows;
  for (int k = 0; k < m.cols(); ++k)
    rows.push_back(Ev::Arr(Row{Round(m(0, k), scale), Round(m(1, k), scale), Round(m(2, k), scale)}));
  return Ev::ArrRaw(rows);
}

void Fill(vlog::Rng* r, InnerCloudType* c, int max_points, double odd) {
  c->points.clear();
  const int n = r->chance(0.1) ? 0 : r->range(1, max_points);
  for (int i = 0; i < n; ++i) {
    InnerPointType p;
    p.x = r->range(-99, 99);
    p.y = r->range(-99, 99);
    p.z = r->range(-99, 99);
    p.intensity = r->range(0, 255);
    p.factor = r->range(0, 64) / 64.f;
    if (r->chance(odd)) (r->chance(0.5) ? p.x : p.z) = NAN;
    c->points.push_back(p);
  }
}

void RunOps(uint64_t seed) {
  vlog::Rng r(seed);
  std::vector<InnerCloudType> c(3);
  PclI qi;
  PclP qp;
  auto observe = [&] {
    for (int k = 0; k < 3; ++k)
      Ev("obs").i("c", k + 1).a("t", Time(c[k].stamp)).raw("p", Pts(c[k]));
  };
  const int n = r.range(2, 12);
  for (int s = 0; s < n; ++s) {
    const int a = r.upto(3), b = r.upto(3);
    switch (s == 0 ? 0 : r.upto(9)) {
      case 0: {
        c[a].stamp = SimpleTime(r.range(0, 2000), r.range(0, 999999999));
        Fill(&r, &c[a], 6, 0.1);
        Ev("set").i("c", a + 1).a("t", Time(c[a].stamp)).raw("p", Pts(c[a]));
        break;
      }
      case 1:
        Ev("append").i("c", a + 1).i("d", b + 1);
        c[a] += c[b];
        break;
      case 2:
        Ev("copy").i("c", a + 1).i("d", b + 1);
        c[a] = c[b];
        break;
      case 3: {
        const Eigen::Matrix4d m = vcell::GridMotion(&r, 50);
        Ev("move").i("c", a + 1).raw("m", vcell::Rows(m));
        c[a].ApplyTransformInplace(m);
        break;
      }
      case 4: {
        if (a == b) break;
        const Eigen::Matrix4d m = vcell::GridMotion(&r, 50);
        Ev("moveto").i("c", a + 1).i("d", b + 1).raw("m", vcell::Rows(m));
        c[b].ApplyTransformToOutput(m, &c[a]);
        break;
      }
      case 5: {
        if (r.chance(0.5)) {
          ToPclPointCloud(c[a], &qi);
          Ev("topcl").i("c", a + 1).b("int", true).i("us", qi.header.stamp).raw("p", Pts(qi));
        } else {
          ToPclPointCloud(c[a], &qp);
          Ev("topcl").i("c", a + 1).b("int", false).i("us", qp.header.stamp).raw("p", Pts(qp));
        }
        break;
      }
      case 6: {
        if (r.chance(0.5)) {
          Ev("frompcl").i("c", a + 1).b("int", true).i("us", qi.header.stamp).raw("p", Pts(qi));
          c[a] = *ToInnerPointCloud(qi);
        } else {
          Ev("frompcl").i("c", a + 1).b("int", false).i("us", qp.header.stamp).raw("p", Pts(qp));
          c[a] = *ToInnerPointCloud(qp);
        }
        break;
      }
      case 7: {
        if (c[a].points.empty()) break;
        const std::string f = g_dir + "/d/c.pcd";
        const int rc = c[a].SerializeToPcd(f);
        PclI q;
        const bool ok = rc >= 0 && pcl::io::loadPCDFile(f, q) >= 0;
        Ev("pcd").i("c", a + 1).b("ok", ok).raw("p", Pts(q));
        unlink(f.c_str());
        break;
      }
      default: {
        // matrix form, with and without normals
        InnerCloudType::Ptr cloud(new InnerCloudType);
        cloud->stamp = c[a].stamp;
        const bool normals = r.chance(0.5);
        Fill(&r, cloud.get(), normals ? 30 : 6, 0.);
        if (cloud->points.empty()) break;
        // some planar clouds
        if (normals && r.chance(0.5))
          for (auto& p : cloud->points) p.z = 5 + p.x;
        InnerPointCloudData data(cloud);
        Ev("matrix").raw("p", Pts(*cloud)).raw("m", Cols(data.GetEigenCloud()->points, 1000));
        if (normals) data.CalculateNormals();
        const Eigen::MatrixXd p0 = data.GetEigenCloud()->points;
        const Eigen::MatrixXd n0 = data.GetEigenCloud()->normals;
        if (p0.cols() == 0) break;
        Ev("normals").b("want", normals).b("has", data.GetEigenCloud()->HasNormals()).i("n", n0.cols()).i("of", p0.cols());
        const std::string in0 = Pts(*data.GetInnerCloud());
        const Eigen::Matrix4d m = vcell::GridMotion(&r, 50);
        data.TransformCloud(m);
        Ev("mmove").raw("m", vcell::Rows(m)).raw("p0", Cols(p0, 1000)).raw("n0", Cols(n0, 1000))
            .raw("p1", Cols(data.GetEigenCloud()->points, 1000)).raw("n1", Cols(data.GetEigenCloud()->normals, 1000))
            .raw("i0", in0).raw("i1", Pts(*data.GetInnerCloud()))
            .a("t", Time(data.GetTime()));
        break;
      }
    }
    observe();
  }
}

// ---- stored clouds ----------------------------------------------------------------------
int64_t Bits(float f) {
  int32_t v;
  memcpy(&v, &f, 4);
  return v;
}
std::string Raw(const InnerCloudType& c) {
  std::vector<std::string> rows;
  for (const auto& p : c.points)
    rows.push_back(Ev::Arr(Row{Bits(p.x), Bits(p.y), Bits(p.z), Bits(p.intensity), Bits(p.factor)}));
  return Ev::ArrRaw(rows);
}
std::string One(const InnerCloudType& c) { return "{\"t\":" + Ev::Arr(Time(c.stamp)) + ",\"p\":" + Raw(c) + "}"; }

InnerCloudType Wild(vlog::Rng* r, int max_points) {
  InnerCloudType c;
  c.stamp = SimpleTime(static_cast<uint32_t>(r->next()), r->range(0, 999999999));
  if (r->chance(0.1)) c.stamp = SimpleTime();
  const int n = r->chance(0.1) ? 0 : r->range(1, max_points);
  for (int i = 0; i < n; ++i) {
    InnerPointType p;
    float* v[5] = {&p.x, &p.y, &p.z, &p.intensity, &p.factor};
    for (auto* f : v) {
      if (r->chance(0.5)) {
        *f = r->range(-1000, 1000) / 8.f;
      } else if (r->chance(0.2)) {
        const float odd[] = {0.f, -0.f, NAN, INFINITY, -INFINITY, 1e-40f, 3e38f, -1e-20f};
        *f = odd[r->upto(8)];
      } else {
        const uint32_t b = r->next();
        memcpy(f, &b, 4);
        if (std::isnan(*f)) *f = 1.f;  // keep payload bits out of it
      }
    }
    c.points.push_back(p);
  }
  return c;
}

void RunStore(uint64_t seed) {
  vlog::Rng r(seed);
  const std::string f = g_dir + "/s.bin";
  unlink(f.c_str());
  const int rounds = r.range(1, 3);
  for (int s = 0; s < rounds; ++s) {
    // several clouds in one stream
    const int n = r.range(1, 3);
    std::vector<std::string> all;
    std::vector<int64_t> ends;
    std::vector<InnerCloudType> clouds;
    {
      std::fstream out(f, std::ios::out | std::ios::binary);
      for (int k = 0; k < n; ++k) {
        clouds.push_back(Wild(&r, 4));
        const int rc = clouds[k].Serialize(&out);
        all.push_back(One(clouds[k]));
        ends.push_back(rc >= 0 ? static_cast<int64_t>(out.tellp()) : -1);
      }
    }
    Ev("store").raw("c", Ev::ArrRaw(all)).a("ends", ends);
    // every cut of a short file, some cuts of a long one; the last "cut" is none
    const int64_t size = ends.back();
    std::vector<int64_t> cuts;
    if (size < 120) {
      for (int64_t b = 0; b < size; ++b) cuts.push_back(b);
    } else {
      for (int k = 0; k < 25; ++k) cuts.push_back(r.upto(size));
      for (auto e : ends) cuts.push_back(e - (r.chance(0.5) ? 1 : 20));
    }
    cuts.push_back(size);
    for (const int64_t b : cuts) {
      if (b < 0) continue;
      const std::string g = g_dir + "/cut.bin";
      {
        std::ifstream in(f, std::ios::binary);
        std::string bytes((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
        std::ofstream out(g, std::ios::binary | std::ios::trunc);
        out.write(bytes.data(), std::min<size_t>(b, bytes.size()));
      }
      std::fstream in(g, std::ios::in | std::ios::binary);
      std::vector<std::string> got;
      for (int k = 0; k < n; ++k) {
        InnerCloudType c = Wild(&r, 6);  // read into a used object
        if (c.Deserialize(&in) < 0) break;
        got.push_back(One(c));
      }
      Ev("load").i("cut", b).raw("c", Ev::ArrRaw(got));
      unlink(g.c_str());
    }
    if (r.chance(0.2)) {
      std::fstream closed;
      InnerCloudType c;
      Ev("closed").b("w", c.Serialize(&closed) < 0).b("r", c.Deserialize(&closed) < 0);
    }
    // the cloud holder: save, drop, maybe cut, read back
    for (int k = 0; k < n; ++k) {
      if (clouds[k].points.empty()) continue;
      const std::string h = g_dir + "/h.bin";
      unlink(h.c_str());
      const bool cut = r.chance(0.5);
      const std::string want = One(clouds[k]);
      vlog::RunChild(
          [&] {
            InnerCloudType::Ptr p(new InnerCloudType(clouds[k]));
            InnerPointCloudData data(p);
            if (r.chance(0.3)) data.SaveToFile(h);
            if (r.chance(0.3)) {
              InnerCloudType::Ptr other(new InnerCloudType(Wild(&r, 5)));
              if (other->points.empty()) _exit(0);
              data.SetInnerCloud(other);
              clouds[k] = *other;
            }
            data.SaveToFile(h);
            data.Clear();
            struct stat st;
            if (stat(h.c_str(), &st) != 0) _exit(0);
            const int64_t b = cut ? r.upto(st.st_size) : st.st_size;
            if (cut && truncate(h.c_str(), b) != 0) _exit(0);
            Ev("hold").raw("c", One(clouds[k])).i("size", st.st_size).i("cut", b);
            const bool in = data.CloudInMemory();
            const auto got = data.GetInnerCloud();
            Ev("held").b("in", in).raw("c", got ? One(*got) : std::string("{\"t\":[0,0],\"p\":[]}"))
                .a("t", Time(data.GetTime()));
          },
          10);
      Ev("hend");
      unlink(h.c_str());
    }
  }
  unlink(f.c_str());
}

// ---- de-skewing in matrix form ---------------------------------------------------------
void RunSkew(uint64_t seed) {
  vlog::Rng r(seed);
  const int sizes[] = {1, 2, 4, 8};
  const int n = sizes[r.upto(4)];
  InnerCloudType c;
  for (int i = 0; i < n; ++i) {
    InnerPointType p;
    p.x = r.range(-20, 20);
    p.y = r.range(-20, 20);
    p.z = r.range(-20, 20);
    c.points.push_back(p);
  }
  // scribbles over the stack, so that uninitialised objects do not look like zeros by luck
  {
    volatile char junk[4096];
    for (auto& b : junk) b = r.upto(256);
  }
  EigenPointCloud cloud(c.points);
  const int q = r.range(-1, 1);
  const int t[3] = {r.range(-40, 40), r.range(-40, 40), r.range(-40, 40)};
  Eigen::Matrix4d m = Eigen::Matrix4d::Identity();
  m.block<3, 3>(0, 0) = Eigen::AngleAxisd(q * M_PI / 2, Eigen::Vector3d::UnitZ()).toRotationMatrix();
  m.block<3, 1>(0, 3) = Eigen::Vector3d(t[0], t[1], t[2]);
  Ev("skew").a("m", Row{1000 * t[0], 1000 * t[1], 1000 * t[2], q}).raw("p", Pts(c));
  cloud.ApplyMotionCompensation(m);
  Ev("unskewed").raw("p", Cols(cloud.points, 1000));
}

void Run(uint64_t seed) {
  if (g_mode == "ops") RunOps(seed);
  if (g_mode == "store") RunStore(seed);
  if (g_mode == "skew") RunSkew(seed);
}
}  // namespace

int main(int, char** argv) {
  g_mode = argv[4];
  g_dir = argv[5];
  mkdir(g_dir.c_str(), 0755);
  return vlog::Main(argv, Run, 30);
}
