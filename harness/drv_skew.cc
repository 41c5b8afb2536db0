// Feeds scans to the map builder, with merging and de-skewing, and logs the clouds given to the registration.
// usage: drv_skew <out> <first> <count> <scratch dir>
#include <sys/stat.h>
#include <array>
#include <atomic>
#include <fstream>
#include "builder/map_builder.h"
#include "cells.h"
#include "fake_matcher.h"
#include "pose.h"
#include "vsched.h"

using namespace static_map;  // NOLINT
using vcell::Int;
using vcell::Round;
using vlog::Ev;
typedef std::vector<int64_t> Row;

namespace {
std::string g_dir;
std::atomic<int> g_aligned{0};

std::string Pts(const vfake::CloudPtr& c) {
  std::vector<std::string> rows;
  if (c)
    for (const auto& p : c->GetInnerCloud()->points)
      rows.push_back(Ev::Arr(
          Row{Round(p.x, 1000), Round(p.y, 1000), Round(p.z, 1000), Int(p.intensity), Round(p.factor, 840)}));
  return Ev::ArrRaw(rows);
}
int64_t Micros(const vfake::CloudPtr& c) { return c ? c->GetTime().ToNanoSec() / 1000 : -1; }

// <<x, y, z in mm, quarter turns about z>>, 9 quarter turns if it is something else
Row Motion(const Eigen::Matrix4d& m) {
  int q = 9;
  for (int k = -1; k <= 2; ++k) {
    const Eigen::Matrix3d r = Eigen::AngleAxisd(k * M_PI / 2, Eigen::Vector3d::UnitZ()).toRotationMatrix();
    if ((m.block<3, 3>(0, 0) - r).norm() < 1e-4) q = k;
  }
  return Row{Round(m(0, 3), 1000), Round(m(1, 3), 1000), Round(m(2, 3), 1000), q};
}
Eigen::Matrix4d ToMatrix(int x, int y, int z, int q) {
  Eigen::Matrix4d m = Eigen::Matrix4d::Identity();
  m.block<3, 3>(0, 0) = Eigen::AngleAxisd(q * M_PI / 2, Eigen::Vector3d::UnitZ()).toRotationMatrix();
  m.block<3, 1>(0, 3) = Eigen::Vector3d(x, y, z);
  return m;
}

void Stuck(const char* why) {
  Ev("stuck").s("why", why);
  _exit(70);
}

void Run(uint64_t seed) {
  vlog::Rng r(seed);
  const std::string dir = g_dir + "/r";
  mkdir(g_dir.c_str(), 0755);
  mkdir(dir.c_str(), 0755);
  if (chdir(dir.c_str()) != 0) _exit(71);
  const int merge = r.chance(0.4) ? 1 : r.range(2, 4);
  const bool skew = r.chance(0.85), average = r.chance(0.4), turns = r.chance(0.6);
  const int range = r.range(0, 4);   // and a half metres
  const int lo = r.chance(0.6) ? 0 : r.range(2, 6), hi = lo ? lo + r.range(4, 10) : 0;   // and a half metres
  {
    std::ofstream f("config.xml");
    f << "<edward_liu><static_mapping><whole_options export_file_path='o/' map_package_path='p/'/>";
    if (lo)
      f << "<filters><filter name='Range'><param type='1' name='min_range'>" << lo + 0.5
        << "</param><param type='1' name='max_range'>" << hi + 0.5 << "</param></filter></filters>";
    f << "<front_end_options accumulate_cloud_num='" << merge << "'><scan_matcher_options type='5'/>"
      << "<motion_filter translation_range='" << range + 0.5 << "' angle_range='45'/>"
      << "<motion_compensation_options enable='" << skew << "' use_average='" << average << "'/>"
      << "<imu_options use_imu='false'/></front_end_options>"
      << "<back_end_options><submap_options frame_count='1000'/><loop_detector_setting use_gps='true'/>"
      << "</back_end_options></static_mapping></edward_liu>";
  }
  Ev("settings").i("merge", merge).b("skew", skew).b("average", average).i("range", range).i("lo", lo).i("hi", hi);
  vlog::Rng q(seed + 5);
  vfake::g_align = [&](const vfake::AlignCall& c, Eigen::Matrix4d* res, double* score) {
    // with averaging, the result differs from the guess by an even number of metres
    const Row g = Motion(c.guess);
    int x = q.range(-3, 3), y = q.range(-3, 3), z = q.range(-1, 1), t = turns && q.chance(0.5) ? q.range(-1, 1) : 0;
    if (q.chance(0.2)) x = y = z = 0;
    if (average && skew) {
      x = g[0] / 1000 + 2 * q.range(-1, 1);
      y = g[1] / 1000 + 2 * q.range(-1, 1);
      z = g[2] / 1000;
      t = g[3];
    }
    if (t == 9) t = 0;
    *res = ToMatrix(x, y, z, t);
    *score = 1;
    Ev("align").raw("src", Pts(c.source)).i("t", Micros(c.source)).raw("tgt", Pts(c.target)).i("tt", Micros(c.target))
        .a("guess", g).a("res", Motion(*res));
    ++g_aligned;
    return true;
  };
  vsched::Config sc;
  sc.seed = seed;
  sc.policy = r.chance(0.7) ? 0 : 1;
  sc.pct_depth = r.range(1, 6);
  sc.pct_steps = 3000;
  sc.stick = 0.9;
  sc.max_steps = 3000000;
  sc.max_virtual_ns = 3000LL * 1000000000LL;
  vsched::Start(sc, Stuck);
  MapBuilder* b = new MapBuilder;
  for (auto set : {&MapBuilder::SetTransformOdomToLidar, &MapBuilder::SetTransformImuToLidar,
                   &MapBuilder::SetTrackingToImu, &MapBuilder::SetTrackingToOdom, &MapBuilder::SetTrackingToGps,
                   &MapBuilder::SetTrackingToLidar})
    (b->*set)(Eigen::Matrix4d::Identity());
  b->EnableUsingOdom(false);
  b->EnableUsingGps(false);
  b->Initialise("config.xml");
  const int whole = r.range(2, 7), rest = r.upto(merge);
  for (int k = 0; k <= whole; ++k) {
    const int sizes[] = {1, 2, 4, 8};
    int left = turns ? sizes[r.upto(4)] : r.range(1, 8);
    const int keep = r.upto(left);   // passes the filter for certain
    const int parts = k < whole ? merge : rest;
    int index = 0;
    for (int j = 0; j < parts; ++j) {
      const int n = j == merge - 1 ? left : r.upto(left + 1);
      left -= n;
      pcl::PointCloud<pcl::PointXYZI>::Ptr c(new pcl::PointCloud<pcl::PointXYZI>);
      std::vector<std::string> ps;
      for (int i = 0; i < n; ++i, ++index) {
        Row p{r.range(-9, 9), r.range(-9, 9), r.range(-3, 3), r.range(0, 255)};
        if (index == keep && lo) p = Row{r.chance(0.5) ? lo + 1 : -lo - 1, 0, 0, r.range(0, 255)};
        pcl::PointXYZI v;
        v.x = p[0];
        v.y = p[1];
        v.z = p[2];
        v.intensity = p[3];
        c->push_back(v);
        ps.push_back(Ev::Arr(p));
      }
      const int64_t t = 1000000LL * (k + 1) + 100000 * j;
      c->header.stamp = t;
      Ev("scan").i("t", t).raw("pts", Ev::ArrRaw(ps));
      b->InsertPointcloudMsg(c);
      if (r.chance(0.3)) SimpleTime::FromSec(0.001 * r.range(1, 30)).Sleep();
    }
  }
  for (int k = 0; k < 100 && g_aligned < whole - 1; ++k) SimpleTime::FromSec(0.1).Sleep();
  SimpleTime::FromSec(0.1).Sleep();
  Ev("done");
  _exit(0);
}
}  // namespace

int main(int, char** argv) {
  g_dir = argv[4];
  return vlog::Main(argv, Run, 60);
}
