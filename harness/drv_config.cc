// Starts the map builder with generated configuration files and logs the effective settings.
// usage: drv_config <out> <first> <count> <scratch dir>
#include <sys/stat.h>
#include <algorithm>
#include <fstream>
#include "builder/map_builder.h"
#include "cells.h"
#include "log.h"

using namespace static_map;  // NOLINT
using vlog::Ev;

namespace {
typedef MapBuilderOptions Options;
std::string g_dir;

struct Setting {
  std::string section, name;
  char kind;  // b, i, f (in 1/1000), s
  std::function<std::string(const Options&)> value;
};

const std::vector<Setting>& Settings() {
  static const std::vector<Setting> all = {
      {"whole_options", "export_file_path", 's', [](const Options& o) { return std::string(o.whole_options.export_file_path); }},
      {"whole_options", "map_package_path", 's', [](const Options& o) { return std::string(o.whole_options.map_package_path); }},
      {"whole_options", "odom_calib_mode", 'i', [](const Options& o) { return std::string(std::to_string(static_cast<int>(o.whole_options.odom_calib_mode))); }},
      {"whole_options", "separate_output", 'b', [](const Options& o) { return std::string(std::to_string(static_cast<int>(o.whole_options.separate_output))); }},
      {"whole_options", "output_direct_combined_map", 'b', [](const Options& o) { return std::string(std::to_string(static_cast<int>(o.whole_options.output_direct_combined_map))); }},
      {"whole_options", "output_mrvm", 'b', [](const Options& o) { return std::string(std::to_string(static_cast<int>(o.whole_options.output_mrvm))); }},
      {"whole_options", "output_kitti_pose", 'b', [](const Options& o) { return std::string(std::to_string(static_cast<int>(o.whole_options.output_kitti_pose))); }},
      {"whole_options", "separate_step", 'i', [](const Options& o) { return std::string(std::to_string(static_cast<int>(o.whole_options.separate_step))); }},
      {"output_mrvm_settings", "output_average", 'b', [](const Options& o) { return std::string(std::to_string(static_cast<int>(o.output_mrvm_settings.output_average))); }},
      {"output_mrvm_settings", "output_rgb", 'b', [](const Options& o) { return std::string(std::to_string(static_cast<int>(o.output_mrvm_settings.output_rgb))); }},
      {"output_mrvm_settings", "use_max_intensity", 'b', [](const Options& o) { return std::string(std::to_string(static_cast<int>(o.output_mrvm_settings.use_max_intensity))); }},
      {"output_mrvm_settings", "prob_threshold", 'f', [](const Options& o) { return std::string(std::to_string(vcell::Round(o.output_mrvm_settings.prob_threshold, 1000))); }},
      {"output_mrvm_settings", "low_resolution", 'f', [](const Options& o) { return std::string(std::to_string(vcell::Round(o.output_mrvm_settings.low_resolution, 1000))); }},
      {"output_mrvm_settings", "high_resolution", 'f', [](const Options& o) { return std::string(std::to_string(vcell::Round(o.output_mrvm_settings.high_resolution, 1000))); }},
      {"output_mrvm_settings", "hit_prob", 'f', [](const Options& o) { return std::string(std::to_string(vcell::Round(o.output_mrvm_settings.hit_prob, 1000))); }},
      {"output_mrvm_settings", "miss_prob", 'f', [](const Options& o) { return std::string(std::to_string(vcell::Round(o.output_mrvm_settings.miss_prob, 1000))); }},
      {"output_mrvm_settings", "z_offset", 'f', [](const Options& o) { return std::string(std::to_string(vcell::Round(o.output_mrvm_settings.z_offset, 1000))); }},
      {"output_mrvm_settings", "max_point_num_in_cell", 'i', [](const Options& o) { return std::string(std::to_string(static_cast<int>(o.output_mrvm_settings.max_point_num_in_cell))); }},
      {"front_end_options", "accumulate_cloud_num", 'i', [](const Options& o) { return std::string(std::to_string(static_cast<int>(o.front_end_options.accumulate_cloud_num))); }},
      {"front_end_options/scan_matcher_options", "type", 'i', [](const Options& o) { return std::string(std::to_string(static_cast<int>(o.front_end_options.scan_matcher_options.type))); }},
      {"front_end_options/scan_matcher_options", "accepted_min_score", 'f', [](const Options& o) { return std::string(std::to_string(vcell::Round(o.front_end_options.scan_matcher_options.accepted_min_score, 1000))); }},
      {"front_end_options/motion_filter", "translation_range", 'f', [](const Options& o) { return std::string(std::to_string(vcell::Round(o.front_end_options.motion_filter.translation_range, 1000))); }},
      {"front_end_options/motion_filter", "angle_range", 'f', [](const Options& o) { return std::string(std::to_string(vcell::Round(o.front_end_options.motion_filter.angle_range, 1000))); }},
      {"front_end_options/motion_filter", "time_range", 'f', [](const Options& o) { return std::string(std::to_string(vcell::Round(o.front_end_options.motion_filter.time_range, 1000))); }},
      {"front_end_options/motion_compensation_options", "enable", 'b', [](const Options& o) { return std::string(std::to_string(static_cast<int>(o.front_end_options.motion_compensation_options.enable))); }},
      {"front_end_options/motion_compensation_options", "use_average", 'b', [](const Options& o) { return std::string(std::to_string(static_cast<int>(o.front_end_options.motion_compensation_options.use_average))); }},
      {"front_end_options/imu_options", "use_imu", 'b', [](const Options& o) { return std::string(std::to_string(static_cast<int>(o.front_end_options.imu_options.enabled))); }},
      {"front_end_options/imu_options", "type", 'i', [](const Options& o) { return std::string(std::to_string(static_cast<int>(o.front_end_options.imu_options.type))); }},
      {"front_end_options/imu_options", "imu_frequency", 'f', [](const Options& o) { return std::string(std::to_string(vcell::Round(o.front_end_options.imu_options.frequency, 1000))); }},
      {"front_end_options/imu_options", "gravity_constant", 'f', [](const Options& o) { return std::string(std::to_string(vcell::Round(o.front_end_options.imu_options.gravity_constant, 1000))); }},
      {"back_end_options/submap_matcher_options", "type", 'i', [](const Options& o) { return std::string(std::to_string(static_cast<int>(o.back_end_options.submap_matcher_options.type))); }},
      {"back_end_options/submap_matcher_options", "accepted_min_score", 'f', [](const Options& o) { return std::string(std::to_string(vcell::Round(o.back_end_options.submap_matcher_options.accepted_min_score, 1000))); }},
      {"back_end_options/submap_options", "frame_count", 'i', [](const Options& o) { return std::string(std::to_string(static_cast<int>(o.back_end_options.submap_options.frame_count))); }},
      {"back_end_options/submap_options", "enable_inner_mrvm", 'b', [](const Options& o) { return std::string(std::to_string(static_cast<int>(o.back_end_options.submap_options.enable_inner_mrvm))); }},
      {"back_end_options/submap_options", "enable_voxel_filter", 'b', [](const Options& o) { return std::string(std::to_string(static_cast<int>(o.back_end_options.submap_options.enable_voxel_filter))); }},
      {"back_end_options/submap_options", "enable_random_sampleing", 'b', [](const Options& o) { return std::string(std::to_string(static_cast<int>(o.back_end_options.submap_options.enable_random_sampleing))); }},
      {"back_end_options/submap_options", "random_sampling_rate", 'f', [](const Options& o) { return std::string(std::to_string(vcell::Round(o.back_end_options.submap_options.random_sampling_rate, 1000))); }},
      {"back_end_options/submap_options", "voxel_size", 'f', [](const Options& o) { return std::string(std::to_string(vcell::Round(o.back_end_options.submap_options.voxel_size, 1000))); }},
      {"back_end_options/submap_options", "enable_disk_saving", 'b', [](const Options& o) { return std::string(std::to_string(static_cast<int>(o.back_end_options.submap_options.enable_disk_saving))); }},
      {"back_end_options/submap_options", "enable_check", 'b', [](const Options& o) { return std::string(std::to_string(static_cast<int>(o.back_end_options.submap_options.enable_check))); }},
      {"back_end_options/submap_options", "disk_saving_delay", 'i', [](const Options& o) { return std::string(std::to_string(static_cast<int>(o.back_end_options.submap_options.disk_saving_delay))); }},
      {"back_end_options/submap_options", "saving_name_prefix", 's', [](const Options& o) { return std::string(o.back_end_options.submap_options.saving_name_prefix); }},
      {"back_end_options/isam_optimizer_options", "use_odom", 'b', [](const Options& o) { return std::string(std::to_string(static_cast<int>(o.back_end_options.isam_optimizer_options.use_odom))); }},
      {"back_end_options/isam_optimizer_options", "use_gps", 'b', [](const Options& o) { return std::string(std::to_string(static_cast<int>(o.back_end_options.isam_optimizer_options.use_gps))); }},
      {"back_end_options/isam_optimizer_options", "output_graph_pic", 'b', [](const Options& o) { return std::string(std::to_string(static_cast<int>(o.back_end_options.isam_optimizer_options.output_graph_pic))); }},
      {"back_end_options/isam_optimizer_options", "enable_extrinsic_calib", 'b', [](const Options& o) { return std::string(std::to_string(static_cast<int>(o.back_end_options.isam_optimizer_options.enable_extrinsic_calib))); }},
      {"back_end_options/isam_optimizer_options", "gps_factor_init_num", 'i', [](const Options& o) { return std::string(std::to_string(static_cast<int>(o.back_end_options.isam_optimizer_options.gps_factor_init_num))); }},
      {"back_end_options/isam_optimizer_options", "gps_factor_sample_step", 'i', [](const Options& o) { return std::string(std::to_string(static_cast<int>(o.back_end_options.isam_optimizer_options.gps_factor_sample_step))); }},
      {"back_end_options/isam_optimizer_options", "gps_factor_init_angle_rad", 'f', [](const Options& o) { return std::string(std::to_string(vcell::Round(o.back_end_options.isam_optimizer_options.gps_factor_init_angle_rad, 1000))); }},
      {"back_end_options/loop_detector_setting", "use_gps", 'b', [](const Options& o) { return std::string(std::to_string(static_cast<int>(o.back_end_options.loop_detector_setting.use_gps))); }},
      {"back_end_options/loop_detector_setting", "use_descriptor", 'b', [](const Options& o) { return std::string(std::to_string(static_cast<int>(o.back_end_options.loop_detector_setting.use_descriptor))); }},
      {"back_end_options/loop_detector_setting", "output_matched_cloud", 'b', [](const Options& o) { return std::string(std::to_string(static_cast<int>(o.back_end_options.loop_detector_setting.output_matched_cloud))); }},
      {"back_end_options/loop_detector_setting", "trying_detect_loop_count", 'i', [](const Options& o) { return std::string(std::to_string(static_cast<int>(o.back_end_options.loop_detector_setting.trying_detect_loop_count))); }},
      {"back_end_options/loop_detector_setting", "loop_ignore_threshold", 'i', [](const Options& o) { return std::string(std::to_string(static_cast<int>(o.back_end_options.loop_detector_setting.loop_ignore_threshold))); }},
      {"back_end_options/loop_detector_setting", "nearest_history_pos_num", 'i', [](const Options& o) { return std::string(std::to_string(static_cast<int>(o.back_end_options.loop_detector_setting.nearest_history_pos_num))); }},
      {"back_end_options/loop_detector_setting", "max_close_loop_distance", 'f', [](const Options& o) { return std::string(std::to_string(vcell::Round(o.back_end_options.loop_detector_setting.max_close_loop_distance, 1000))); }},
      {"back_end_options/loop_detector_setting", "max_close_loop_z_distance", 'f', [](const Options& o) { return std::string(std::to_string(vcell::Round(o.back_end_options.loop_detector_setting.max_close_loop_z_distance, 1000))); }},
      {"back_end_options/loop_detector_setting", "m2dp_match_score", 'f', [](const Options& o) { return std::string(std::to_string(vcell::Round(o.back_end_options.loop_detector_setting.m2dp_match_score, 1000))); }},
      {"back_end_options/loop_detector_setting", "accept_scan_match_score", 'f', [](const Options& o) { return std::string(std::to_string(vcell::Round(o.back_end_options.loop_detector_setting.accept_scan_match_score, 1000))); }},
      {"map_package_options", "enable", 'b', [](const Options& o) { return std::string(std::to_string(static_cast<int>(o.map_package_options.enable))); }},
      {"map_package_options", "border_offset", 'f', [](const Options& o) { return std::string(std::to_string(vcell::Round(o.map_package_options.border_offset, 1000))); }},
      {"map_package_options", "piece_width", 'f', [](const Options& o) { return std::string(std::to_string(vcell::Round(o.map_package_options.piece_width, 1000))); }},
      {"map_package_options", "cloud_file_prefix", 's', [](const Options& o) { return std::string(o.map_package_options.cloud_file_prefix); }},
      {"map_package_options", "descript_filename", 's', [](const Options& o) { return std::string(o.map_package_options.descript_filename); }},
  };
  return all;
}

std::string Quote(const std::string& s) { return "\"" + s + "\""; }
std::string Pair(const Setting& s, const std::string& v) {
  return "[" + Quote(s.section + "." + s.name) + "," + (s.kind == 's' ? Quote(v) : v) + "]";
}

void Shown(const Options& o) {
  std::vector<std::string> v;
  for (const auto& s : Settings()) v.push_back(Pair(s, s.value(o)));
  const auto& front = o.front_end_options.scan_matcher_options.registrator_options_node;
  const auto& back = o.back_end_options.submap_matcher_options.registrator_options_node;
  struct stat st;
  auto dir = [&](const std::string& p) { return stat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode); };
  Ev("shown").raw("all", Ev::ArrRaw(v)).i("front", front.attribute("mark").as_int(-1))
      .i("back", back.attribute("mark").as_int(-1))
      .b("dirs", dir(o.whole_options.export_file_path) && dir(o.whole_options.map_package_path));
}

struct Node {
  std::string name;
  std::vector<std::pair<std::string, std::string>> attributes;
  std::vector<Node> children;
  std::string text;
  Node& Child(const std::string& n) {
    for (auto& c : children)
      if (c.name == n) return c;
    children.emplace_back();
    children.back().name = n;
    return children.back();
  }
  Node& Path(const std::string& p) {
    const size_t k = p.find('/');
    if (k == std::string::npos) return Child(p);
    return Child(p.substr(0, k)).Path(p.substr(k + 1));
  }
  void Mix(vlog::Rng* r) {
    for (size_t i = attributes.size(); i > 1; --i) std::swap(attributes[i - 1], attributes[r->upto(i)]);
    // registrator_options are searched in file order: keep equal names in order
    std::stable_sort(children.begin(), children.end(),
                     [r](const Node& a, const Node& b) { return a.name < b.name; });
    if (r->chance(0.5)) {
      const bool regs = std::any_of(children.begin(), children.end(),
                                    [](const Node& n) { return n.name == "registrator_options"; });
      if (!regs) std::reverse(children.begin(), children.end());
    }
    for (auto& c : children) c.Mix(r);
  }
  void Print(std::ostream* o, vlog::Rng* r) const {
    *o << "<" << name;
    for (const auto& a : attributes)
      *o << (r->chance(0.3) ? "\n  " : " ") << a.first << (r->chance(0.2) ? " = " : "=") << "\"" << a.second << "\"";
    if (children.empty() && r->chance(0.5)) {
      *o << "/>\n";
      return;
    }
    *o << ">\n";
    if (r->chance(0.2)) *o << "<!-- type=\"3\" -->\n";
    for (const auto& c : children) c.Print(o, r);
    *o << "</" << name << ">\n";
  }
};

std::string Millis(int m) {
  char b[32];
  snprintf(b, sizeof b, "%s%d.%03d", m < 0 ? "-" : "", std::abs(m) / 1000, std::abs(m) % 1000);
  return b;
}

void Run(uint64_t seed) {
  vlog::Rng r(seed);
  const std::string dir = g_dir + "/r" + std::to_string(seed);
  mkdir(g_dir.c_str(), 0755);
  mkdir(dir.c_str(), 0755);
  if (chdir(dir.c_str()) != 0) _exit(71);
  const char* kinds[] = {"null", "empty", "absent", "broken", "root", "inner", "blank"};
  const bool file = r.chance(0.92);
  const std::string kind = file ? "file" : kinds[r.upto(7)];
  Node root;
  root.name = kind == "root" ? "other" : "edward_liu";
  Node& top = root.Child(kind == "inner" ? "other" : "static_mapping");
  const double share = r.chance(0.3) ? 0.05 : r.chance(0.5) ? 0.3 : r.chance(0.7) ? 0.7 : 1.;
  std::vector<std::string> given;
  bool front_regs = r.chance(0.5), back_regs = r.chance(0.5);
  for (const auto& s : Settings()) {
    // most files satisfy the rules that the defaults do not
    const bool loop = s.section == "back_end_options/loop_detector_setting" && s.name == "use_descriptor" && r.chance(0.7);
    if (!loop && !r.chance(share)) continue;
    std::string text, value;
    if (s.kind == 'b') {
      const bool on = loop || r.chance(0.5);
      text = on ? (r.chance(0.7) ? "true" : "1") : (r.chance(0.7) ? "false" : "0");
      value = on ? "1" : "0";
    } else if (s.kind == 'i') {
      int v = r.range(1, 40);
      if (s.name == "odom_calib_mode") v = r.range(0, 2);
      if (s.name == "type") v = s.section == "front_end_options/imu_options" ? r.range(0, 1) : r.range(1, 6);
      if (r.chance(0.05) && (s.name == "accumulate_cloud_num" || s.name == "max_point_num_in_cell" ||
                             s.name == "nearest_history_pos_num"))
        v = r.range(-1, 0);
      text = value = std::to_string(v);
    } else if (s.kind == 'f') {
      int v = r.range(1, 400) * 125;
      if (s.name == "hit_prob") v = r.chance(0.07) ? r.range(0, 500) : r.range(501, 999);
      if (s.name == "miss_prob") v = r.chance(0.07) ? r.range(500, 999) : r.range(1, 499);
      if (s.name == "z_offset") v = r.range(-40, 40) * 125;
      if (s.name == "imu_frequency" && r.chance(0.2)) v = -v * r.range(0, 1);
      text = Millis(v);
      value = std::to_string(v);
    } else {
      text = std::string(1, static_cast<char>('a' + r.upto(26))) + std::to_string(r.upto(100));
      const bool path = s.name == "export_file_path" || s.name == "map_package_path";
      if (path) {
        if (r.chance(0.3)) text += "/b" + std::to_string(r.upto(3));
        if (r.chance(0.2)) text = "./" + text;
        value = text + "/";
        if (r.chance(0.5)) text = value;
      } else {
        value = text;
      }
    }
    top.Path(s.section).attributes.emplace_back(s.name, text);
    given.push_back(Pair(s, value));
  }
  std::vector<int> regs[2];
  for (int k = 0; k < 2; ++k) {
    if (!(k ? back_regs : front_regs)) continue;
    Node& m = top.Path(k ? "back_end_options/submap_matcher_options" : "front_end_options/scan_matcher_options");
    const int n = r.range(1, 4);
    for (int i = 0; i < n; ++i) {
      Node c;
      c.name = "registrator_options";
      const int type = r.range(1, 6);
      c.attributes = {{"type", std::to_string(type)}, {"mark", std::to_string(i)}};
      m.children.push_back(c);
      regs[k].push_back(type);
    }
  }
  if (r.chance(0.4)) top.Child("unknown_options").attributes.emplace_back("use_gps", "true");
  if (r.chance(0.4)) top.Path("back_end_options/more").attributes.emplace_back("frame_count", "77");
  if (r.chance(0.4)) top.Path("whole_options").attributes.emplace_back("unknown", "1");
  root.Mix(&r);
  std::ofstream f(dir + "/config.xml");
  if (r.chance(0.7)) f << "<?xml version=\"1.0\"?>\n";
  if (kind != "blank") root.Print(&f, &r);
  if (kind == "broken") f << "<edward_liu><open";
  f.close();
  Ev("config").s("kind", kind).raw("given", Ev::ArrRaw(given)).a("front", regs[0]).a("back", regs[1]);
  MapBuilder* b = new MapBuilder;
  for (auto set : {&MapBuilder::SetTransformOdomToLidar, &MapBuilder::SetTransformImuToLidar,
                   &MapBuilder::SetTrackingToImu, &MapBuilder::SetTrackingToOdom, &MapBuilder::SetTrackingToGps,
                   &MapBuilder::SetTrackingToLidar})
    (b->*set)(Eigen::Matrix4d::Identity());
  const std::string path = dir + "/config.xml";
  const Options& o = b->Initialise(kind == "null" ? nullptr : kind == "empty" ? "" : kind == "absent" ? "no.xml" : path.c_str());
  Shown(o);
  for (int i = r.range(0, 3); i > 0; --i) {
    const bool gps = r.chance(0.5), on = r.chance(0.5);
    if (gps) {
      b->EnableUsingGps(on);
    } else {
      b->EnableUsingOdom(on);
    }
    Ev("switch").s("what", gps ? "gps" : "odom").b("on", on);
    Shown(o);
  }
}
}  // namespace

int main(int, char** argv) {
  g_dir = argv[4];
  return vlog::Main(argv, Run, 60);
}
