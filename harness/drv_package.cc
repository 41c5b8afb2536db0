// Writes map packages of small grid maps and logs the maps and what was written.
// usage: drv_package <out> <first> <count> <scratch dir>
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
#include "builder/map_package.h"
#include "builder/submap.h"
#include "builder/trajectory.h"
#include "cells.h"
#include "pcl/io/pcd_io.h"
#include "pugixml/pugixml.hpp"

using namespace static_map;  // NOLINT
using vcell::Int;
using vlog::Ev;
typedef std::vector<int64_t> Row;

namespace {
std::string g_dir;

std::vector<std::string> List(const std::string& dir) {
  std::vector<std::string> v;
  DIR* d = opendir(dir.c_str());
  while (dirent* e = readdir(d))
    if (e->d_name[0] != '.') v.push_back(e->d_name);
  closedir(d);
  std::sort(v.begin(), v.end());
  return v;
}

void Run(uint64_t seed) {
  vlog::Rng r(seed);
  for (const auto& f : List(g_dir)) unlink((g_dir + "/" + f).c_str());
  MapPackageOptions o;
  const int halves[] = {8, 16, 32, 64};
  const int half = halves[r.upto(4)], border = r.chance(0.2) ? 0 : r.range(1, 6) * 8;
  o.piece_width = half / 4.;
  o.border_offset = border / 8.;
  if (r.chance(0.3)) o.cloud_file_prefix = "piece-";
  if (r.chance(0.3)) o.descript_filename = "package.txt";
  MrvmSettings m;
  m.high_resolution = 0.25f;
  m.hit_prob = 0.9f;
  m.miss_prob = 0.499f;
  m.prob_threshold = 0.3f;
  m.use_max_intensity = false;
  m.max_point_num_in_cell = 1000;
  Ev("options").i("half", half).i("border", border).s("prefix", o.cloud_file_prefix).s("name", o.descript_filename);
  std::vector<std::shared_ptr<Trajectory>> ts;
  const int n_traj = r.chance(0.7) ? 1 : r.range(0, 3);
  const int spread = r.range(0, 12);
  int id = 0;
  for (int t = 0; t < n_traj; ++t) {
    ts.push_back(std::make_shared<Trajectory>());
    ts.back()->SetId(t);
    const int n = r.chance(0.05) ? 0 : r.range(1, 5);
    for (int k = 0; k < n; ++k) {
      auto s = std::make_shared<Submap>(SubmapOptions());
      s->SetId(SubmapId{t, k});
      Eigen::Matrix4d pose = vcell::GridMotion(&r, spread);
      s->SetGlobalPose(pose);
      data::InnerCloudType::Ptr c(new data::InnerCloudType);
      std::vector<std::string> pts;
      const int count = r.range(1, 8);
      for (int i = 0; i < count; ++i) {
        data::InnerPointType p;
        // not on a boundary of a square: those lie on whole metres
        p.x = (8 * r.range(-5, 4) + r.range(1, 7)) / 8.f;
        p.y = (8 * r.range(-5, 4) + r.range(1, 7)) / 8.f;
        p.z = (8 * r.range(-5, 4) + r.range(1, 7)) / 8.f;
        p.intensity = ++id;
        p.factor = 0;
        c->points.push_back(p);
        pts.push_back(Ev::Arr(Row{id, Int(p.x, 8), Int(p.y, 8), Int(p.z, 8)}));
      }
      s->SetCloud(std::make_shared<data::InnerPointCloudData>(c));
      ts.back()->push_back(s);
      Ev("submap").raw("pose", vcell::Rows(pose)).raw("pts", Ev::ArrRaw(pts));
    }
  }
  bool threw = false, ok = false;
  try {
    ok = SaveTrajectoriesAsMapPackage(ts, o, m, g_dir + "/");
  } catch (...) {
    threw = true;
  }
  std::vector<std::string> files, pieces;
  for (const auto& f : List(g_dir)) files.push_back("\"" + f + "\"");
  pugi::xml_document doc;
  const bool has = static_cast<bool>(doc.load_file((g_dir + "/" + o.descript_filename).c_str()));
  if (has) {
    for (auto n = doc.child("MapPackage").child("Piece"); n; n = n.next_sibling("Piece")) {
      pcl::PointCloud<pcl::PointXYZI> c;
      const std::string file = n.attribute("file").as_string();
      struct stat st;
      int res = -1;
      if (stat((g_dir + "/" + file).c_str(), &st) == 0) {
        try {
          res = pcl::io::loadPCDFile(g_dir + "/" + file, c);
        } catch (...) {
        }
      }
      std::vector<std::string> pts;
      for (const auto& p : c.points) pts.push_back(Ev::Arr(Row{Int(p.intensity), Int(p.x, 8), Int(p.y, 8), Int(p.z, 8)}));
      pieces.push_back("{\"x\":" + std::to_string(Int(n.attribute("x").as_double(), 8)) + ",\"y\":" +
                       std::to_string(Int(n.attribute("y").as_double(), 8)) + ",\"file\":\"" + file + "\",\"read\":" +
                       (res == 0 ? "true" : "false") + ",\"pts\":" + Ev::ArrRaw(pts) + "}");
    }
  }
  Ev("package").b("threw", threw).b("ok", ok).b("described", has).raw("files", Ev::ArrRaw(files)).raw("pieces", Ev::ArrRaw(pieces));
}
}  // namespace

int main(int, char** argv) {
  g_dir = argv[4];
  mkdir(g_dir.c_str(), 0755);
  return vlog::Main(argv, Run, 30);
}
