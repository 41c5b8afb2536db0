// Inserts grid scans into the occupancy voxel map and logs scans and outputs.
// usage: drv_voxel <out> <first> <count> <scratch dir>
#include <sys/stat.h>
#include <unistd.h>
#include "builder/multi_resolution_voxel_map.h"
#include "cells.h"
#include "vsched.h"

using namespace static_map;  // NOLINT
using vcell::Int;
using vcell::Round;
using vlog::Ev;
typedef std::vector<int64_t> Row;

extern "C" void vgomp_limit(int n);

namespace {
std::string g_dir;
void StuckHandler(const char* why) {
  Ev("stuck").s("why", why);
  _exit(70);
}

struct Scan {
  int o[3];
  std::vector<Row> pts;  // x y z in eighths of a cell, intensity
};

template <typename C>
std::string Points(const C& cloud, float res, bool average) {
  std::vector<std::string> rows;
  for (const auto& p : cloud.points)
    rows.push_back(average ? Ev::Arr(Row{Round(p.x / res, 8000), Round(p.y / res, 8000), Round(p.z / res, 8000), 0})
                           : Ev::Arr(Row{Int(p.x / res, 8), Int(p.y / res, 8), Int(p.z / res, 8), 0}));
  return Ev::ArrRaw(rows);
}
void SetIntensity(const pcl::PointCloud<pcl::PointXYZI>& c, std::vector<int64_t>* v) {
  for (const auto& p : c.points) v->push_back(Int(p.intensity));
}
void SetIntensity(const pcl::PointCloud<pcl::PointXYZRGB>& c, std::vector<int64_t>* v) {
  for (const auto& p : c.points) v->push_back(p.r == p.g && p.g == p.b ? p.r : -1);
}
template <typename C>
void Log(const char* how, int k, const C& c, float res, const MrvmSettings& s) {
  std::vector<int64_t> v;
  SetIntensity(c, &v);
  Ev("out").s("how", how).i("k", k).raw("pts", Points(c, res, s.output_average)).a("v", v);
}

void Run(uint64_t seed) {
  vlog::Rng r(seed);
  MrvmSettings s;
  const float resolutions[] = {0.5f, 1.f, 2.f, 0.25f};
  s.high_resolution = resolutions[r.upto(4)];
  const int hits[] = {300, 510, 550, 600, 700, 900, 950}, misses[] = {50, 100, 300, 400, 480, 490, 600};
  const int h = hits[r.upto(7)], m = misses[r.upto(7)];
  s.hit_prob = h / 1000.f;
  s.miss_prob = m / 1000.f;
  s.output_average = r.chance(0.3);
  s.output_rgb = r.chance(0.3);
  s.use_max_intensity = r.chance(0.5);
  s.max_point_num_in_cell = r.chance(0.5) ? r.range(1, 3) : 10;
  const int threads = r.chance(0.4) ? 1 : r.range(2, 6);
  const int lift = r.chance(0.3) ? r.range(-2, 2) : 0;
  s.z_offset = r.chance(0.5) ? lift * s.high_resolution : 0.f;
  std::unique_ptr<MultiResolutionVoxelMap> map(new MultiResolutionVoxelMap);
  map->Initialise(s);
  if (s.z_offset != lift * s.high_resolution) map->SetOffsetZ(lift * s.high_resolution);
  Ev("setup").i("hit", h).i("miss", m).b("avg", s.output_average).b("max", s.use_max_intensity).i("cap", s.max_point_num_in_cell)
      .i("threads", threads).i("lift", lift);

  const int n_scans = r.range(1, 5);
  const bool crowded = r.chance(0.6);
  int id = 0;
  std::vector<Scan> scans(n_scans);
  for (auto& scan : scans) {
    for (int k = 0; k < 3; ++k) scan.o[k] = r.range(-1, 1);
    const bool wide = r.chance(0.1);  // many cells at once
    const int n = wide ? r.range(15, 45) : r.range(1, crowded ? 14 : 5);
    for (int i = 0; i < n; ++i) {
      int c[3] = {scan.o[0], scan.o[1], scan.o[2] + lift};
      if (wide)
        c[r.upto(3)] += r.range(-6, 6);
      else
        c[crowded ? 0 : r.upto(3)] += crowded ? r.range(1, 3) : r.range(-3, 3);
      ++id;
      scan.pts.push_back({c[0] * 8 + 1 + id % 7, c[1] * 8 + 1 + id / 7 % 7, c[2] * 8 + 1 + id / 49, 5 * r.range(0, 40)});
    }
  }
  vgomp_limit(threads);
  vsched::Config c;
  c.seed = seed;
  c.policy = r.upto(10) < 7 ? 0 : r.range(1, 2);
  c.pct_depth = r.range(1, 6);
  c.pct_steps = 2000;
  c.stick = r.chance(0.5) ? 0.2 : 0.8;
  c.mem_every = r.chance(0.8) ? r.range(2, 40) : 0;
  c.atomic_p = r.chance(0.5) ? 0.3 : 0.05;
  c.max_steps = 2000000;
  vsched::Start(c, StuckHandler);
  for (const auto& scan : scans) {
    data::InnerCloudType::Ptr cloud(new data::InnerCloudType);
    std::vector<std::string> rows;
    for (const auto& q : scan.pts) {
      data::InnerPointType p;
      p.x = q[0] / 8.f * s.high_resolution;
      p.y = q[1] / 8.f * s.high_resolution;
      p.z = q[2] / 8.f * s.high_resolution;
      p.intensity = q[3];
      p.factor = 0;
      cloud->points.push_back(p);
      rows.push_back(Ev::Arr(q));
    }
    Eigen::Vector3f origin;
    for (int k = 0; k < 3; ++k) origin[k] = (scan.o[k] + 0.5f) * s.high_resolution;
    Ev("scan").a("o", Row{scan.o[0], scan.o[1], scan.o[2]}).raw("pts", Ev::ArrRaw(rows));
    map->InsertPointCloud(cloud, origin);
    if (r.chance(0.3)) map->InsertPointCloud(data::InnerCloudType::Ptr(new data::InnerCloudType), origin);
    for (int q = r.range(1, 3); q > 0; --q) {
      // mostly where the occupancies are
      const int k = r.chance(0.1) ? r.upto(257) : r.chance(0.5) ? 128 + r.range(-40, 60) : r.chance(0.5) ? 26 : r.range(60, 231);
      if (r.chance(0.5)) {
        pcl::PointCloud<pcl::PointXYZI>::Ptr out(new pcl::PointCloud<pcl::PointXYZI>);
        if (r.chance(0.3)) out->resize(3);
        map->OutputToPointCloud(k / 256.f, out);
        Log("xyzi", k, *out, s.high_resolution, s);
      } else if (r.chance(0.5)) {
        pcl::PointCloud<pcl::PointXYZRGB>::Ptr out(new pcl::PointCloud<pcl::PointXYZRGB>);
        map->OutputToPointCloud(k / 256.f, out);
        Log("rgb", k, *out, s.high_resolution, s);
      } else {
        const std::string file = g_dir + "/map.pcd";
        unlink(file.c_str());
        map->OutputToPointCloud(k / 256.f, file, r.chance(0.5));
        struct stat st;
        const bool there = stat(file.c_str(), &st) == 0;
        pcl::PointCloud<pcl::PointXYZI> a;
        pcl::PointCloud<pcl::PointXYZRGB> b;
        if (there && s.output_rgb) pcl::io::loadPCDFile(file, b);
        if (there && !s.output_rgb) pcl::io::loadPCDFile(file, a);
        if (s.output_rgb) Log("rgb", k, b, s.high_resolution, s);
        if (!s.output_rgb) Log("xyzi", k, a, s.high_resolution, s);
        unlink(file.c_str());
      }
    }
  }
  _exit(0);
}
}  // namespace

int main(int, char** argv) {
  g_dir = argv[4];
  mkdir(g_dir.c_str(), 0755);
  return vlog::Main(argv, Run, 30);
}
