// Feeds position fixes and odometry to the data collector and logs its answers.
#include <sys/stat.h>
#include <fstream>
#include "GeographicLib/LocalCartesian.hpp"
#include "builder/data/data_collector.h"
#include "log.h"
#include "pcl/io/pcd_io.h"
#include "pose.h"
#include "pre_processors/filter_factory.h"

using static_map::SimpleTime;
using static_map::data::DataCollector;
using vlog::Ev;
using vpose::P4;

namespace {
std::string g_dir;
SimpleTime Ms(int64_t ms) { return SimpleTime::FromNanoSec(ms * 1000000ull); }

int64_t Milli(double v) { return std::fabs(v) < 1e6 ? std::llround(v * 1000) : 999999999; }

void Run(uint64_t seed) {
  vlog::Rng r(seed);
  static_map::pre_processers::filter::Factory factory;
  static_map::data::DataCollectorOptions options;
  DataCollector dc(options, &factory);
  // messages are made in a frame around a fixed place on earth
  const double lat = r.range(-60, 60), lon = r.range(-179, 179), alt = r.range(0, 500);
  GeographicLib::LocalCartesian world(lat, lon, alt);

  const int gaps[] = {20, 50, 100, 150, 199, 200, 201, 300, 700, 999, 1000, 1001, 2500};
  const bool dense = r.chance(0.6);
  int64_t tg = 100000, to = 100000;
  std::vector<int64_t> gt, ot;  // times used so far
  auto gap = [&] { return gaps[dense ? r.upto(6) : r.upto(13)]; };
  auto when = [&](const std::vector<int64_t>& ts) -> int64_t {
    if (ts.empty()) return 100000 + r.range(-5, 5);
    const int k = r.chance(0.4) ? ts.size() - 1 - r.upto(std::min<int>(ts.size(), 3)) : r.upto(ts.size());
    switch (r.upto(4)) {
      case 0: return ts[k];
      case 1: return ts[k] + r.range(-3, 3);
      case 2: return k + 1 < static_cast<int>(ts.size()) ? (ts[k] + ts[k + 1]) / 2 : ts[k] + 500;
      default: return ts[k] + r.range(-150, 150);
    }
  };
  const int n = r.range(3, 25);
  const double fix_p = r.chance(0.5) ? 0.95 : 0.6;
  for (int i = 0; i < n; ++i) {
    switch (r.upto(9)) {
      case 0:
      case 1:
      case 2: {
        static_map::data::NavSatFixMsg m;
        // some repeat an earlier time or are late
        const bool late = !gt.empty() && r.chance(0.08);
        if (!late) {
          tg += gap();
          gt.push_back(tg);
        }
        const int64_t at = late ? tg - (r.chance(0.5) ? 0 : r.range(1, 500)) : tg;
        const int x = r.range(-60, 60), y = r.range(-60, 60), z = r.range(-20, 20);
        m.header.stamp = Ms(at);
        m.status.status = r.chance(fix_p) ? 0 : (r.chance(0.5) ? -1 : r.range(1, 2));
        world.Reverse(x, y, z, m.latitude, m.longtitude, m.altitude);
        Ev("gps").i("t", at).i("s", m.status.status).a("p", std::vector<int>{x, y, z});
        dc.AddSensorData(m);
        break;
      }
      case 3:
      case 4: {
        static_map::data::OdomMsg m;
        to += gap();
        ot.push_back(to);
        const P4 p{{r.range(-60, 60), r.range(-60, 60), r.range(-20, 20), r.upto(4)}};
        m.header.stamp = Ms(to);
        m.SetPose(vpose::ToMatrix(p));
        Ev("odom").i("t", to).a("p", p);
        dc.AddSensorData(m);
        break;
      }
      case 5:
      case 6: {
        const int64_t t = when(gt);
        const int thr = r.range(0, 3) * 10 + 5;  // x 0.1 ms below
        const bool trim = r.chance(0.4);
        const auto v = dc.InterpolateGps(Ms(t), thr * 1e-3 + 0.0005, trim);
        Ev e("glook");
        e.i("t", t).i("thr", thr).b("trim", trim).b("got", v != nullptr);
        if (v) e.a("v", std::vector<int64_t>{Milli((*v)[0]), Milli((*v)[1]), Milli((*v)[2])});
        break;
      }
      case 7: {
        const int64_t t = when(ot);
        const int thr = r.range(0, 3) * 10 + 5;
        const bool trim = r.chance(0.4);
        const auto v = dc.InterpolateOdom(Ms(t), thr * 1e-3 + 0.0005, trim);
        Ev e("olook");
        e.i("t", t).i("thr", thr).b("trim", trim).b("got", v != nullptr);
        if (v) {
          const Eigen::Matrix4d& m = *v;
          const bool upright = std::fabs(m(2, 2) - 1) < 1e-6 && std::fabs(m.block<3, 3>(0, 0).determinant() - 1) < 1e-6;
          e.a("v", std::vector<int64_t>{Milli(m(0, 3)), Milli(m(1, 3)), Milli(m(2, 3)),
                                        Milli(std::atan2(m(1, 0), m(0, 0)) / (M_PI / 2))});
          e.b("up", upright);
        }
        break;
      }
      default: {
        const int64_t t = when(gt);
        Ev("gtrim").i("t", t);
        dc.TrimSensorData(static_map::data::kGpsData, Ms(t));
        break;
      }
    }
  }
  for (const char* name : {"gps", "odom"}) {
    const std::string f = g_dir + "/" + name + ".pcd";
    unlink(f.c_str());
    if (name[0] == 'g') {
      dc.RawGpsDataToFile(f);
    } else {
      dc.RawOdomDataToFile(f);
    }
    pcl::PointCloud<pcl::PointXYZI> c;
    const bool there = access(f.c_str(), F_OK) == 0;
    const int err = there ? pcl::io::loadPCDFile(f, c) : 0;
    std::vector<std::string> rows;
    for (const auto& p : c.points)
      rows.push_back(Ev::Arr(std::vector<int64_t>{Milli(p.x), Milli(p.y), Milli(p.z), std::lround(p.intensity)}));
    Ev("file").s("k", name).b("ok", there && err >= 0).raw("rows", Ev::ArrRaw(rows));
    unlink(f.c_str());
  }
  const auto ref = dc.GetGpsReference();
  Ev e("ref");
  e.b("got", static_cast<bool>(ref));
  if (ref) {
    double x, y, z;
    world.Forward(ref->LatitudeOrigin(), ref->LongitudeOrigin(), ref->HeightOrigin(), x, y, z);
    e.a("v", std::vector<int64_t>{Milli(x), Milli(y), Milli(z)});
  }
}
}  // namespace

int main(int, char** argv) {
  g_dir = argv[4];
  mkdir(g_dir.c_str(), 0755);
  return vlog::Main(argv, Run, 30);
}
