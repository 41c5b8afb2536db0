// Runs the whole MapBuilder with stand-in registration and logs what can be observed.
// usage: drv_pipe <out> <scratch dir> <mode> <first seed> <count>
// mode: bits; 1 disk offloading runs only, 2 no disk offloading, 4 no concurrent finish,
//       8 one schedule policy without preemption (semantic runs),
//       16 motion without rotation, 32 loop closing on, 64 position fixes on,
//       128 position fixes that agree with the motion and take part in the pose graph
#include <dirent.h>
#include <sys/stat.h>
#include <tbb/global_control.h>

#include <atomic>
#include <fstream>
#include <memory>
#include <sstream>
#include <thread>

#include "GeographicLib/LocalCartesian.hpp"
#include "builder/map_builder.h"
#include "cells.h"
#include "fake_matcher.h"
#include "log.h"
#include "pcl/io/pcd_io.h"
#include "pose.h"
#include "pugixml/pugixml.hpp"
#ifdef VERIF_SCHED
#include "vsched.h"
#endif

using static_map::MapBuilder;
using vlog::Ev;
using vpose::P4;

namespace {
struct Scan {
  int64_t t = 0;  // microseconds
  std::vector<std::array<int, 4>> pts;
  P4 delta{{0, 0, 0, 0}};
};
struct Scenario {
  int acc = 1, frames = 2, trange = 5, arange = 0, filter = 0, filter_lo = 0, filter_hi = 0;
  bool disk = false, combined = true, mrvm = false, separate = false, kitti = false;
  int delay = 3, step = 2, min_score4 = 3;
  bool cb_submap = false, cb_path = false, cb_map = false, cb_edge = false;
  P4 mount{{0, 0, 0, 0}};
  std::vector<Scan> scans;
  std::vector<int> pause;  // before each scan: <0 virtual ms, >0 decisions
  int finish_at = -1;      // index of the scan at which a second thread finishes; -1 = at the end
  int finish_pause = 0;
  int slow = 0;            // virtual ms a registration takes
  bool late_insert = false, second_finish = false, destroy = true;
  std::vector<int> score4;  // back-end score in quarters, per pair
  std::vector<P4> corr;     // back-end correction, per pair
  bool straight = false, loops = false, gps = false, gps_early = false, imu = false;
  int loop_ignore = 1, loop_reach = 10, loop_tries = 1, loop_near = 3;
  struct Fix {
    int64_t t;
    int x, y, z, status;
  };
  std::vector<Fix> fixes;
  int imu_at = 0;             // scans offered before the first inertial sample
  std::vector<int64_t> imus;  // times of the samples
  int side_pause = 0;         // of the thread that delivers them
  int imu_mount = 0;
  bool anchor = false;        // the fixes agree with the motion
  P4 coord{{0, 0, 0, 0}}, lever{{0, 0, 0, 0}};
  int gps_init = 3, gps_step = 1;
  bool gps_calib = false;
  bool package = false;
  int half = 84, border = 29;  // in 1/8
};
Scenario g_s;
std::string g_dir;
std::atomic<int> g_back{0};
std::atomic<int> g_finisher{-1};  // thread with a request to finish under way

void Pt(int n = 1) {
#ifdef VERIF_SCHED
  for (int i = 0; i < n; ++i) vsched::Point();
#else
  (void)n;
#endif
}

void StuckHandler(const char* why) {
  Ev("stuck").s("why", why);
  _exit(70);
}

int ScanOf(const vfake::CloudPtr& c) {
  if (!c) return -1;
  auto inner = c->GetInnerCloud();
  if (!inner || inner->points.empty()) return -1;
  return static_cast<int>(std::lround(inner->points[0].intensity)) / 16;
}

bool Align(const vfake::AlignCall& call, Eigen::Matrix4d* result, double* score) {
  Pt(2);
  if (call.type == 5) {  // front end
    const int src = ScanOf(call.source), tgt = ScanOf(call.target);
    P4 d{{0, 0, 0, 0}};
    // the scripted motion belongs to the merged scan that starts with this one
    if (src >= 0 && src < static_cast<int>(g_s.scans.size())) d = g_s.scans[src].delta;
    *result = vpose::ToMatrix(d);
    *score = 1;
    Ev("fa")
        .i("src", src)
        .i("tgt", tgt)
        .i("t", call.source ? static_cast<int64_t>(call.source->GetTime().ToNanoSec() / 1000) : -1)
        .raw("pts", call.source ? vpose::Points(call.source->GetInnerCloud()->points) : "[]")
        .raw("tpts", call.target ? vpose::Points(call.target->GetInnerCloud()->points) : "[]")
        .raw("res", vpose::Decode(*result))
        .a("gs", std::vector<int64_t>{vcell::Round(call.guess(0, 3), 1000), vcell::Round(call.guess(1, 3), 1000),
                                      vcell::Round(call.guess(2, 3), 1000)})
        .b("gr", (call.guess.block<3, 3>(0, 0) - Eigen::Matrix3d::Identity()).norm() < 1e-6);
    Pt(2);
    if (g_s.slow) static_map::SimpleTime::FromSec(g_s.slow / 1000.).Sleep();
    return true;
  }
  if (call.type == -1) {  // loop closing
    const auto s = call.source ? call.source->GetInnerCloud() : nullptr;
    const auto t = call.target ? call.target->GetInnerCloud() : nullptr;
    const int k = (ScanOf(call.source) * 5 + ScanOf(call.target) * 3 + 96) % 32;
    const bool ok = g_s.score4[k] >= 2;
    *result = call.guess;
    *score = ok ? 0.875 : 0.25;
    Ev("la").raw("sp", s ? vpose::Points(s->points) : "[]").raw("tp", t ? vpose::Points(t->points) : "[]")
        .raw("guess", vpose::Decode(call.guess)).b("ok", ok);
    Pt(2);
    return true;
  }
  // back end
  const int src = ScanOf(call.source), tgt = ScanOf(call.target);
  const int k = src >= 0 ? src % static_cast<int>(g_s.corr.size()) : 0;
  *result = call.guess * vpose::ToMatrix(g_s.corr[k]);
  *score = g_s.score4[k] / 4.;
  const auto inner = call.source ? call.source->GetInnerCloud() : nullptr;
  const int first = inner && !inner->points.empty() ? static_cast<int>(std::lround(inner->points[0].intensity)) : -1;
  std::string sp = call.source ? vpose::Points(call.source->GetInnerCloud()->points) : "[]";
  std::string tp = call.target ? vpose::Points(call.target->GetInnerCloud()->points) : "[]";
  Ev("ba")
      .i("src", src)
      .i("tgt", tgt)
      .i("st", call.source ? static_cast<int64_t>(call.source->GetTime().ToNanoSec() / 1000) : -1)
      .raw("sp", sp)
      .raw("tp", tp)
      .raw("guess", vpose::Decode(call.guess))
      .raw("res", vpose::Decode(*result))
      .i("score", g_s.score4[k]);
#ifdef VERIF_SCHED
  vsched::Pause(g_s.score4[k] == 2 ? 30 : 3);
#endif
  Ev("baret").i("id", first);
  return true;
}

std::string Config() {
  std::ostringstream o;
  auto b = [](bool v) { return v ? "true" : "false"; };
  o << "<edward_liu><static_mapping>"
    << "<whole_options export_file_path=\"" << g_dir << "/out/\" map_package_path=\"" << g_dir
    << "/pkg/\" odom_calib_mode=\"0\" separate_output=\"" << b(g_s.separate) << "\" output_direct_combined_map=\""
    << b(g_s.combined) << "\" output_mrvm=\"" << b(g_s.mrvm) << "\" output_kitti_pose=\"" << b(g_s.kitti)
    << "\" separate_step=\"" << g_s.step << "\"/>"
    << "<output_mrvm_settings low_resolution=\"3.0\" high_resolution=\"0.5\" prob_threshold=\"0.4\" "
       "hit_prob=\"0.9\" miss_prob=\"0.499\" max_point_num_in_cell=\"10\" output_average=\"false\" "
       "output_rgb=\"false\" use_max_intensity=\"true\"/>";
  if (g_s.filter) {
    o << "<filters><filter name=\"AxisRange\"><param type=\"0\" name=\"axis_index\"> 2 </param>"
      << "<param type=\"1\" name=\"min\"> " << g_s.filter_lo - 0.5 << " </param><param type=\"1\" name=\"max\"> "
      << g_s.filter_hi + 0.5 << " </param></filter></filters>";
  }
  o << "<front_end_options accumulate_cloud_num=\"" << g_s.acc << "\">"
    << "<scan_matcher_options type=\"5\" accepted_min_score=\"0.7\"/>"
    << "<motion_filter translation_range=\"" << g_s.trange << "\" angle_range=\"" << g_s.arange << "\"/>"
    << "<motion_compensation_options enable=\"false\" use_average=\"false\"/>"
    << "<imu_options use_imu=\"" << b(g_s.imu)
    << "\" imu_frequency=\"100\" gravity_constant=\"9.8\"/></front_end_options>"
    << "<back_end_options><submap_matcher_options type=\"1\" accepted_min_score=\"" << g_s.min_score4 / 4. << "\"/>"
    << "<submap_options frame_count=\"" << g_s.frames << "\" enable_disk_saving=\"" << b(g_s.disk)
    << "\" disk_saving_delay=\"" << g_s.delay << "\" enable_check=\"true\" saving_name_prefix=\"sub_\"/>"
    << "<isam_optimizer_options use_odom=\"false\" use_gps=\"" << b(g_s.anchor)
    << "\" output_graph_pic=\"false\" enable_extrinsic_calib=\"" << b(g_s.gps_calib) << "\" gps_factor_init_num=\""
    << g_s.gps_init << "\" gps_factor_sample_step=\"" << g_s.gps_step << "\" gps_factor_init_angle_rad=\"0\"/>"
    << "<loop_detector_setting use_gps=\"true\" use_descriptor=\"false\" trying_detect_loop_count=\"" << g_s.loop_tries
    << "\" nearest_history_pos_num=\"" << g_s.loop_near << "\" max_close_loop_distance=\"" << g_s.loop_reach
    << "\" max_close_loop_z_distance=\"5\" accept_scan_match_score=\"0.5\" output_matched_cloud=\"false\" "
    << "loop_ignore_threshold=\"" << (g_s.loops ? g_s.loop_ignore : 100000) << "\"/>"
    << "</back_end_options><map_package_options enable=\"" << b(g_s.package) << "\" border_offset=\"" << g_s.border / 8.
    << "\" piece_width=\"" << g_s.half / 4. << "\" cloud_file_prefix=\"piece_\" descript_filename=\"package.xml\"/>"
    << "</static_mapping></edward_liu>";
  return o.str();
}

std::vector<std::string> List(const std::string& dir) {
  std::vector<std::string> r;
  if (DIR* d = opendir(dir.c_str())) {
    while (dirent* e = readdir(d))
      if (e->d_name[0] != '.') r.push_back(e->d_name);
    closedir(d);
  }
  std::sort(r.begin(), r.end());
  return r;
}
bool Exists(const std::string& f) {
  struct stat st;
  return stat(f.c_str(), &st) == 0;
}
void RemoveTree(const std::string& dir) {
  // only the two folders of the scratch directory, one level deep
  for (const char* sub : {"/out", "/pkg"}) {
    for (const auto& f : List(dir + sub)) unlink((dir + sub + "/" + f).c_str());
    rmdir((dir + sub).c_str());
  }
  unlink((dir + "/config.xml").c_str());
}

std::string PcdPoints(const std::string& f, int* err) {
  pcl::PointCloud<pcl::PointXYZI> c;
  *err = pcl::io::loadPCDFile(f, c) < 0 ? 1 : 0;
  if (*err == 0 && static_cast<size_t>(c.width) * c.height != c.size()) *err = 2;
  return vpose::Points(c.points);
}

void LogFiles() {
  const std::string out = g_dir + "/out/", pkg = g_dir + "/pkg/";
  {
    pugi::xml_document doc;
    const bool ok = static_cast<bool>(doc.load_file((pkg + "map.xml").c_str()));
    std::vector<std::string> subs;
    int trajectories = 0;
    for (auto tn : doc.child("Map").children("Trajectory")) {
      ++trajectories;
      for (auto s : tn.children("Submap")) {
        const std::string file = s.attribute("file").as_string();
        std::string conns = s.attribute("connections").as_string();
        std::vector<int64_t> cs;
        size_t p = 0;
        while ((p = conns.find(',', p)) != std::string::npos) cs.push_back(atoi(conns.c_str() + ++p));
        std::string stored = "[]";
        int64_t stamp = -1;
        if (!file.empty() && Exists(pkg + file)) {
          std::fstream st(pkg + file, std::ios::in | std::ios::binary);
          static_map::data::InnerCloudType c;
          if (c.Deserialize(&st) == 0) {
            stored = vpose::Points(c.points);
            stamp = c.stamp.ToNanoSec() / 1000;
          }
        }
        const Eigen::Matrix4d pose =
            vpose::FromRpy(s.attribute("tx").as_double(), s.attribute("ty").as_double(), s.attribute("tz").as_double(),
                           s.attribute("rx").as_double(), s.attribute("ry").as_double(), s.attribute("rz").as_double());
        subs.push_back("{\"id\":" + std::to_string(s.attribute("id").as_int()) + ",\"file\":\"" + file +
                       "\",\"pose\":" + vpose::Decode(pose) + ",\"conn\":" + Ev::Arr(cs) +
                       ",\"t\":" + std::to_string(stamp) + ",\"pts\":" + stored + "}");
      }
    }
    Ev("index").b("ok", ok).i("n", trajectories).raw("subs", Ev::ArrRaw(subs));
  }
  {
    std::ifstream f(out + "path.csv");
    std::vector<std::string> rows;
    std::string line;
    while (std::getline(f, line)) {
      double v[7];
      int n = sscanf(line.c_str(), "%lf, %lf, %lf, %lf, %lf, %lf, %lf", v, v + 1, v + 2, v + 3, v + 4, v + 5, v + 6);
      rows.push_back("{\"i\":" + std::to_string(n >= 1 ? static_cast<int>(v[0]) : -1) + ",\"pose\":" +
                     (n == 7 ? vpose::Decode(vpose::FromRpy(v[1], v[2], v[3], v[4], v[5], v[6])) : "[0,0,0,0,0]") + "}");
    }
    Ev("pathcsv").b("ok", Exists(out + "path.csv")).raw("rows", Ev::ArrRaw(rows));
  }
  auto pcd = [&](const char* ev, const std::string& f, int idx) {
    int err = 0;
    std::string pts = "[]";
    const bool ex = Exists(f);
    if (ex) pts = PcdPoints(f, &err);
    Ev(ev).i("k", idx).b("ok", ex).i("err", err).raw("pts", pts);
  };
  pcd("pathpcd", out + "path.pcd", 0);
  if (g_s.combined && !g_s.separate) pcd("whole", out + "whole_map.pcd", 0);
  auto places = [&](const char* ev, const std::string& f) {
    pcl::PointCloud<pcl::PointXYZI> c;
    const bool ex = Exists(f);
    if (ex && pcl::io::loadPCDFile(f, c) < 0) c.clear();
    std::vector<std::string> rows;
    for (const auto& p : c)
      rows.push_back(Ev::Arr(std::vector<int64_t>{vcell::Round(p.x, 1000), vcell::Round(p.y, 1000),
                                                  vcell::Round(p.z, 1000), vcell::Round(p.intensity, 1)}));
    Ev(ev).b("ok", ex).raw("pts", Ev::ArrRaw(rows));
  };
  places("enu", out + "enu_path.pcd");
  places("rawenu", out + "original_gps.pcd");
  {
    std::ifstream f(out + "kitti_pose.txt");
    std::vector<std::string> rows;
    std::string line;
    while (std::getline(f, line)) {
      std::istringstream is(line);
      Eigen::Matrix4d m = Eigen::Matrix4d::Identity();
      for (int r = 0; r < 3; ++r)
        for (int c = 0; c < 4; ++c) is >> m(r, c);
      rows.push_back(is.fail() ? "[0,0,0,0,0]" : vpose::Decode(m));
    }
    Ev("kitti").b("ok", Exists(out + "kitti_pose.txt")).raw("rows", Ev::ArrRaw(rows));
  }
  int parts = 0, statics = 0, wholes = 0, static_map = 0;
  for (const auto& n : List(out)) {
    if (n.compare(0, 9, "part_map_") == 0) ++parts;
    if (n.compare(0, 16, "static_part_map_") == 0) ++statics;
    if (n == "whole_map.pcd") ++wholes;
    if (n == "static_map.pcd") ++static_map;
  }
  if (g_s.separate) {
    for (int k = 0; k < parts; ++k) pcd("part", out + "part_map_" + std::to_string(k) + ".pcd", k);
    for (int k = 0; k < statics; ++k) pcd("spart", out + "static_part_map_" + std::to_string(k) + ".pcd", k);
  } else if (g_s.mrvm) {
    pcd("static", out + "static_map.pcd", 0);
  }
  {
    pugi::xml_document doc;
    const bool ok = Exists(out + "package.xml") && doc.load_file((out + "package.xml").c_str());
    std::vector<std::string> pieces;
    for (auto p : doc.child("MapPackage").children("Piece")) {
      const double x = p.attribute("x").as_double(), y = p.attribute("y").as_double();
      const std::string file = out + p.attribute("file").as_string();
      pcl::PointCloud<pcl::PointXYZI> c;
      const bool read = Exists(file) && pcl::io::loadPCDFile(file, c) >= 0;
      for (auto& q : c.points) {
        q.x += x;
        q.y += y;
      }
      bool fine = true;
      pieces.push_back("{\"x\":" + std::to_string(vlog::Grid(8 * x, 1., 0.05 + 8 * vpose::Slack(), &fine)) + ",\"y\":" +
                       std::to_string(vlog::Grid(8 * y, 1., 0.05 + 8 * vpose::Slack(), &fine)) + ",\"ok\":" +
                       (read && fine ? "true" : "false") + ",\"pts\":" + vpose::Points(c.points) + "}");
    }
    Ev("package").b("ok", ok).raw("pieces", Ev::ArrRaw(pieces));
  }
  Ev("outs").i("parts", parts).i("sparts", statics).i("whole", wholes).i("smap", static_map);
}

void Generate(uint64_t seed, int mode) {
  vlog::Rng r(seed);
  Scenario& s = g_s;
  s = Scenario();
  s.acc = r.chance(0.7) ? 1 : r.range(2, 3);
  s.frames = r.range(1, 4);
  s.trange = r.chance(0.3) ? 0 : r.range(3, 6);
  s.arange = r.chance(0.5) ? 0 : (r.chance(0.5) ? 45 : 100);
  s.disk = (mode & 1) ? true : (mode & 2) ? false : r.chance(0.5);
  s.delay = r.range(1, 4);
  s.combined = r.chance(0.85);
  s.mrvm = r.chance(0.2);
  s.separate = r.chance(0.4);
  s.kitti = r.chance(0.4);
  s.step = r.range(1, 3);
  s.cb_submap = r.chance(0.5);
  s.cb_path = r.chance(0.5);
  s.cb_map = r.chance(0.1);
  s.cb_edge = r.chance(0.2);
  s.min_score4 = r.range(2, 3);
  s.straight = (mode & 16) || r.chance(0.15);
  s.loops = (mode & 32) || r.chance(0.12);
  s.gps = (mode & 64) || r.chance(0.12);
  s.imu = r.chance((mode & 16) ? 0.5 : 0.12);
  s.anchor = (mode & 128) || r.chance(0.06);
  if (s.anchor) {
    s.gps = true;
    s.imu = false;
    s.acc = 1;
    s.trange = 0;
    s.gps_init = r.range(2, 5);
    s.gps_step = r.range(0, 3);
    s.gps_calib = r.chance(0.3);
    if (r.chance(0.7)) s.lever = P4{{r.range(-2, 2), r.range(-2, 2), r.range(-1, 1), 0}};
  }
  s.package = !s.anchor && r.chance(0.15);
  if (r.chance(0.5)) s.half = 44;
  if (r.chance(0.5)) s.border = 5;
  const bool tilted = !s.straight && !s.loops && r.chance(0.3);
  auto rot = [&] { return tilted ? r.upto(24) : r.upto(4); };
  if (r.chance(0.4)) s.mount = P4{{r.range(-2, 2), r.range(-2, 2), r.range(-1, 1), rot()}};
  if (r.chance(0.3)) {
    s.filter = 1;
    s.filter_lo = -1;
    s.filter_hi = 1;
  }
  const int n = r.chance(0.08) ? r.upto(2) : r.range(2, r.chance(s.loops ? 0.7 : 0.2) ? 24 : 14);
  if (s.loops) {
    s.frames = r.range(1, 2);
    s.acc = 1;
    s.loop_ignore = r.range(1, 4);
    s.loop_reach = r.range(3, 20);
    s.loop_tries = r.range(1, 2);
    s.loop_near = r.range(2, 4);
  }
  int64_t t = 1000000;
  // time stamps that repeat or go back; scans nothing is left of
  const bool disorder = s.acc == 1 && !s.straight && !s.anchor && r.chance(0.25), sparse = !s.anchor && r.chance(0.2);
  const Eigen::Matrix4d back = vpose::ToMatrix(s.mount).inverse();
  for (int i = 0; i < n; ++i) {
    Scan sc;
    const bool odd = disorder && r.chance(0.35);
    if (!odd) t += 100000 * r.range(1, 3);
    sc.t = odd && r.chance(0.6) ? std::max<int64_t>(100000, t - 100000 * r.range(1, 5)) : t;
    const bool few = sparse && r.chance(0.4);
    const int np = few ? r.upto(3) : r.range(3, 5);
    for (int k = 0; k < np; ++k) {
      // with the filter on, three points survive it, unless the scan is sparse
      const Eigen::Vector4d at(r.range(-6, 6), r.range(-6, 6), !few && k < 3 ? 0 : r.range(-2, 2), 1);
      const Eigen::Vector4d raw = back * at;
      sc.pts.push_back({{i * 16 + k, static_cast<int>(std::lround(raw[0])), static_cast<int>(std::lround(raw[1])),
                         static_cast<int>(std::lround(raw[2]))}});
    }
    switch (r.upto(6)) {
      case 0: sc.delta = P4{{0, 0, 0, 0}}; break;
      case 1: sc.delta = P4{{3, 4, 0, rot()}}; break;   // length exactly 5
      case 2: sc.delta = P4{{1, 2, 2, 0}}; break;           // length exactly 3
      case 3: sc.delta = P4{{r.range(-2, 2), r.range(-2, 2), 0, rot()}}; break;
      case 4: sc.delta = P4{{r.range(-7, 7), r.range(-7, 7), r.range(-1, 1), 0}}; break;
      default: sc.delta = P4{{4, 0, 0, r.chance(0.5) ? 1 : 3}}; break;
    }
    if (s.straight) sc.delta[3] = 0;
    if (s.loops) sc.delta[2] = 0;
    s.scans.push_back(sc);
    int pz = 0;
    if (r.chance(0.4)) pz = r.chance(0.5) ? -r.range(1, 800) : r.range(1, 30);
    s.pause.push_back(pz);
  }
  for (int i = 0; i < 32; ++i) {
    s.score4.push_back(r.range(1, 4));
    s.corr.push_back(r.chance(0.5) ? P4{{0, 0, 0, 0}} : P4{{r.range(-1, 1), r.range(-1, 1), 0, r.chance(0.2) ? (tilted ? r.upto(24) : 1) : 0}});
  }
  if (s.straight)
    for (auto& d : s.corr) d[3] = 0;
  if (s.anchor) {
    for (auto& d : s.corr) d = P4{{0, 0, 0, 0}};
    s.gps_early = true;
    // the first fix is the origin
    const Eigen::Vector3d lever(s.lever[0], s.lever[1], s.lever[2]);
    const Eigen::Vector3d start = vpose::Rotation(s.coord[3]) * lever;
    for (int k = 0; k < 3; ++k) s.coord[k] = -std::lround(start[k]);
    Eigen::Matrix4d pose = Eigen::Matrix4d::Identity();
    for (int i = 0; i < n; ++i) {
      if (i > 0) pose = pose * vpose::ToMatrix(s.scans[i].delta);
      const Eigen::Vector3d at = (vpose::ToMatrix(s.coord) * pose).block<3, 4>(0, 0) * lever.homogeneous();
      const bool known = i == 0 || r.chance(0.85);
      for (int side : {-1, 1})
        s.fixes.push_back({s.scans[i].t + side * 20000, static_cast<int>(std::lround(at[0])), static_cast<int>(std::lround(at[1])),
                           static_cast<int>(std::lround(at[2])), known ? 0 : -1});
    }
  } else if (s.gps) {
    s.gps_early = r.chance(0.5);
    int64_t at = 1000000 + 20000 * r.range(-10, 10) + 10000;
    bool fixed = false;
    const int step[] = {40, 60, 100, 140, 180, 220, 500};
    const int dense = r.range(3, 7), m = r.upto(40);
    for (int i = 0; i < m; ++i) {
      Scenario::Fix x{at, r.range(-60, 60), r.range(-60, 60), r.range(-9, 9), r.chance(0.9) ? 0 : -1};
      // the first valid one is the reference place
      if (!fixed && x.status == 0) {
        fixed = true;
        x.x = x.y = x.z = 0;
      }
      s.fixes.push_back(x);
      if (fixed && r.chance(0.1)) s.fixes.push_back({at - 20000 * r.upto(8), r.range(-60, 60), r.range(-60, 60), 0, 0});
      at += 1000 * step[r.upto(dense)];
    }
  }
  if (s.imu) {
    s.imu_mount = r.chance(0.5) ? 0 : r.upto(24);
    s.imu_at = r.chance(0.7) ? 0 : r.upto(n + 1);
    int64_t at = std::max<int64_t>(100000, (s.imu_at < n ? s.scans[s.imu_at].t : t) - 10000 * r.range(-20, 30));
    const int m = r.upto(60);
    for (int i = 0; i < m; ++i) {
      s.imus.push_back(r.chance(0.1) ? std::max<int64_t>(10000, at - 10000 * r.range(1, 40)) : at);
      at += 10000 * r.range(0, 8);
    }
  }
  s.side_pause = r.chance(0.5) ? 0 : r.range(1, 40);
  if (!(mode & 4) && r.chance(0.35)) s.finish_at = r.upto(n + 1);
  s.finish_pause = r.chance(0.4) ? (r.chance(0.5) ? -r.range(1, 3000) : r.range(1, 60)) : 0;
  s.late_insert = r.chance(0.3);
  s.second_finish = r.chance(0.3);
  // scans that keep coming while a request to finish works off a backlog
  if (!(mode & 4) && n > 3 && r.chance(0.15)) {
    s.slow = r.range(20, 200);
    s.finish_at = r.range(2, n - 1);
    s.finish_pause = 0;
    for (int i = 0; i < n; ++i) s.pause[i] = i < s.finish_at ? 0 : -r.range(1, 150);
  }
}

void Wait(int p) {
  if (p < 0) static_map::SimpleTime::FromSec(-p / 1000.).Sleep();
#ifdef VERIF_SCHED
  if (p > 0) vsched::Pause(p);
#endif
}

void Insert(MapBuilder* mb, int i, int64_t t, const std::vector<std::array<int, 4>>& pts) {
  pcl::PointCloud<pcl::PointXYZI>::Ptr c(new pcl::PointCloud<pcl::PointXYZI>);
  std::vector<std::string> ps;
  for (const auto& p : pts) {
    pcl::PointXYZI q;
    q.x = p[1];
    q.y = p[2];
    q.z = p[3];
    q.intensity = p[0];
    c->push_back(q);
    ps.push_back(Ev::Arr(p));
  }
  c->header.stamp = t;
  bool asked = false;
#ifdef VERIF_SCHED
  // the thread that asked to finish is seen waiting for the work to be done
  const int finisher = g_finisher.load();
  asked = finisher >= 0 && vsched::Resting(finisher);
#endif
  Ev("ins").i("i", i).i("t", t).b("asked", asked).raw("pts", Ev::ArrRaw(ps));
  mb->InsertPointcloudMsg(c);
  Ev("insret").i("i", i);
}

void InsertFixes(MapBuilder* mb) {
  GeographicLib::LocalCartesian world(31, 121, 20);
  for (const auto& x : g_s.fixes) {
    static_map::data::NavSatFixMsg::Ptr m(new static_map::data::NavSatFixMsg);
    m->header.stamp = static_map::SimpleTime::FromSec(0) + static_map::SimpleTime::FromNanoSec(x.t * 1000);
    m->status.status = x.status;
    world.Reverse(x.x, x.y, x.z, m->latitude, m->longtitude, m->altitude);
    Ev("gps").i("t", x.t).a("p", std::vector<int>{x.x, x.y, x.z}).i("st", x.status);
    mb->InsertGpsMsg(m);
    if (!g_s.gps_early && g_s.side_pause) Wait(g_s.side_pause);
  }
}

void InsertImu(MapBuilder* mb, int64_t t) {
  static_map::data::ImuMsg::Ptr m(new static_map::data::ImuMsg);
  m->header.stamp = static_map::SimpleTime::FromNanoSec(t * 1000);
  m->linear_acceleration = vpose::Rotation(g_s.imu_mount).transpose() * Eigen::Vector3d(0, 0, 9.8);
  m->angular_velocity.setZero();
  Ev("imu").i("t", t);
  mb->InsertImuMsg(m);
  Ev("imuret").i("t", t);
}

void Finish(MapBuilder* mb) {
  Ev("fin");
#ifdef VERIF_SCHED
  g_finisher = vsched::ThreadId();
#endif
  mb->FinishAllComputations();
  g_finisher = -1;
  Ev("finret");
}

void Run(uint64_t seed, int mode) {
  Generate(seed, mode);
  mkdir((g_dir + "/out").c_str(), 0755);
  mkdir((g_dir + "/pkg").c_str(), 0755);
  {
    std::ofstream f(g_dir + "/config.xml");
    f << Config();
  }
  static tbb::global_control gc(tbb::global_control::max_allowed_parallelism, 1);
  Ev("cfg")
      .i("acc", g_s.acc)
      .i("frames", g_s.frames)
      .i("trange", g_s.trange)
      .i("arange", g_s.arange)
      .b("disk", g_s.disk)
      .b("combined", g_s.combined)
      .b("mrvm", g_s.mrvm)
      .b("separate", g_s.separate)
      .b("kitti", g_s.kitti)
      .i("step", g_s.step)
      .i("min", g_s.min_score4)
      .b("cbs", g_s.cb_submap)
      .b("cbp", g_s.cb_path)
      .a("mount", g_s.mount)
      .b("filter", g_s.filter != 0)
      .i("lo", g_s.filter_lo)
      .i("hi", g_s.filter_hi)
      .b("straight", g_s.straight)
      .b("loops", g_s.loops)
      .b("gps", g_s.gps)
      .b("early", g_s.gps_early)
      .b("imu", g_s.imu)
      .b("anchor", g_s.anchor)
      .i("init", g_s.gps_init)
      .a("coord", g_s.coord)
      .b("package", g_s.package)
      .i("half", g_s.half)
      .i("border", g_s.border);
  vpose::Slack() = g_s.anchor ? 0.2 : 0.02;
  vfake::g_align = Align;
#ifdef VERIF_SCHED
  vlog::Rng r(seed * 31 + 7);
  vsched::Config c;
  c.seed = seed;
  if (mode & 8) {
    c.policy = 3;
    c.spurious = 0;
    c.atomic_p = 0;
  } else {
    c.policy = r.upto(10) < 6 ? 0 : r.range(1, 2);
    c.pct_depth = r.range(1, 12);
    c.pct_steps = r.chance(0.5) ? 3000 : 12000;
    c.stick = r.chance(0.5) ? 0.3 : 0.9;
    c.early = r.chance(0.5) ? 0.02 : 0.0005;
    c.atomic_p = r.chance(0.5) ? 0.3 : 0.02;
    c.mem_every = r.chance(0.6) ? 0 : r.range(200, 4000);
    c.spurious = 0.0005;
    if (r.chance(0.6)) {
      c.stall_max = r.range(1, 12);
      c.stall_share = r.range(4, 64);
      c.stall_p = r.chance(0.5) ? 0.5 : 0.05;
    }
  }
  c.max_steps = 3000000;
  c.max_virtual_ns = 3000LL * 1000000000LL;
  vsched::Start(c, StuckHandler);
#endif
  MapBuilder* mb = new MapBuilder;
  mb->SetTransformOdomToLidar(Eigen::Matrix4d::Identity());
  mb->SetTransformImuToLidar(Eigen::Matrix4d::Identity());
  mb->SetTrackingToImu(vpose::ToMatrix(P4{{0, 0, 0, g_s.imu_mount}}));
  mb->SetTrackingToOdom(Eigen::Matrix4d::Identity());
  mb->SetTrackingToGps(vpose::ToMatrix(g_s.lever));
  mb->SetTrackingToLidar(vpose::ToMatrix(g_s.mount));
  mb->EnableUsingOdom(false);
  mb->EnableUsingGps(g_s.gps);
  if (g_s.cb_submap)
    mb->SetShowSubmapFunction([](const MapBuilder::PointCloudPtr& c, const Eigen::Matrix4d& p) {
      Ev("ss").raw("pts", vpose::Points(c->points)).raw("pose", vpose::Decode(p));
      Pt(2);
    });
  if (g_s.cb_path)
    mb->SetShowPathFunction([](const std::vector<Eigen::Matrix4d>& v) {
      std::vector<std::string> ps;
      for (const auto& m : v) ps.push_back(vpose::Decode(m));
      Ev("sp").raw("poses", Ev::ArrRaw(ps));
      Pt(2);
    });
  if (g_s.cb_map)
    mb->SetShowMapFunction([](const MapBuilder::PointCloudPtr& c) {
      Ev("sm").raw("pts", vpose::Points(c->points));
      Pt(2);
    });
  if (g_s.cb_edge)
    mb->SetShowEdgeFunction([](std::map<int64_t, static_map::back_end::ViewGraph::GraphItem> graph) {
      std::vector<std::string> vs, es;
      for (const auto& v : graph) {
        vs.push_back("{\"id\":" + std::to_string(v.first) + ",\"pose\":" + vpose::Decode(v.second.self_pose) + "}");
        for (const auto& k : v.second.connections)
          es.push_back("{\"a\":" + std::to_string(v.first) + ",\"b\":" + std::to_string(k.first) + ",\"t\":" +
                       vpose::Decode(k.second) + "}");
      }
      Ev("se").raw("vs", Ev::ArrRaw(vs)).raw("es", Ev::ArrRaw(es));
      Pt(2);
    });
  mb->Initialise((g_dir + "/config.xml").c_str());

  const int n = g_s.scans.size();
  std::unique_ptr<std::thread> fin, fixes, imus;
  if (g_s.gps) {
    if (g_s.gps_early)
      InsertFixes(mb);
    else
      fixes.reset(new std::thread([mb] { InsertFixes(mb); }));
  }
  for (int i = 0; i <= n; ++i) {
    if (i == g_s.finish_at)
      fin.reset(new std::thread([mb] {
        Wait(g_s.finish_pause);
        Finish(mb);
      }));
    if (i == g_s.imu_at && !g_s.imus.empty()) {
      InsertImu(mb, g_s.imus[0]);
      imus.reset(new std::thread([mb] {
        for (size_t k = 1; k < g_s.imus.size(); ++k) {
          InsertImu(mb, g_s.imus[k]);
          Wait(g_s.side_pause);
        }
      }));
    }
    if (i == n) break;
    Wait(g_s.pause[i]);
    Insert(mb, i, g_s.scans[i].t, g_s.scans[i].pts);
  }
  if (fin) {
    fin->join();
  } else {
    Wait(g_s.finish_pause);
    Finish(mb);
  }
  if (fixes) fixes->join();
  if (imus) imus->join();
  int extra = n;
  if (g_s.late_insert) {
    // a scan offered after finishing has no effect
    Insert(mb, extra, 900000000, {{{extra * 16, 1, 1, 0}}});
    ++extra;
    Wait(-300);
  }
  if (g_s.second_finish) Finish(mb);
  LogFiles();
  if (g_s.destroy) {
    Ev("del");
    delete mb;
    int live = 1;
#ifdef VERIF_SCHED
    live = vsched::LiveThreads();
#endif
    Ev("delret").i("live", live);
  }
  Ev("done");
  _exit(0);
}
}  // namespace

int main(int argc, char** argv) {
  vlog::Open(argv[1]);
  g_dir = argv[2];
  const int mode = atoi(argv[3]);
  const uint64_t first = strtoull(argv[4], nullptr, 10);
  const int count = atoi(argv[5]);
  mkdir(g_dir.c_str(), 0755);
  if (chdir(g_dir.c_str()) != 0) return 2;
  for (int i = 0; i < count; ++i) {
    Ev("run").i("seed", first + i).i("mode", mode);
    const std::string st = vlog::RunChild([&] { Run(first + i, mode); }, 60, getenv("VERBOSE") == nullptr);
    Ev("exit").s("st", st);
    RemoveTree(g_dir);
  }
  return 0;
}
