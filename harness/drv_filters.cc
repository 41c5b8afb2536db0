// Runs single filters and filter chains on grid clouds and logs inputs, settings and outputs.
// usage: drv_filters <out> <first> <count> <one|chain>
#include <sstream>
#include "cells.h"
#include "pre_processors/filter_axis_range.h"
#include "pre_processors/filter_bounding_box.h"
#include "pre_processors/filter_factory.h"
#include "pre_processors/filter_ground_removal.h"
#include "pre_processors/filter_ground_removal2.h"
#include "pre_processors/filter_random_sample.h"
#include "pre_processors/filter_range.h"
#include "pre_processors/filter_range_image.h"
#include "pre_processors/filter_statistic_removal.h"
#include "pre_processors/filter_voxel_grid.h"

using namespace static_map;                          // NOLINT
using namespace static_map::pre_processers::filter;  // NOLINT
using vcell::Int;
using vcell::Round;
using vlog::Ev;
typedef std::vector<int64_t> Row;
typedef data::InnerCloudType Cloud;

namespace {
std::string g_mode;

struct Param {
  std::string name;
  int v;         // value, in 1/8 for lengths, as it is for counts
  double scale;  // what v is multiplied by
  bool whole;    // an integer parameter
};
struct Setup {
  std::string name;
  std::vector<Param> given;
  std::string Xml(vlog::Rng* r) const {
    std::ostringstream s;
    s << "<filter name=\"" << name << "\">";
    for (const auto& p : given) {
      const double v = p.v * p.scale;
      // a whole value may be given in either notation
      const bool as_int = v == std::floor(v) && (p.whole ? r->chance(0.8) : r->chance(0.3));
      s << "<param type=\"" << (as_int ? 0 : 1) << "\" name=\"" << p.name << "\"> " << v << " </param>";
    }
    s << "</filter>";
    return s.str();
  }
  std::string Json() const {
    std::string s = "{\"k\":\"" + name + "\"";
    for (const auto& p : given) s += ",\"" + p.name + "\":" + std::to_string(p.v);
    return s + "}";
  }
};

Setup RandomSetup(vlog::Rng* r, const std::string& kind, bool defaults) {
  Setup s;
  s.name = kind;
  auto add = [&](const std::string& n, int v, double scale, bool whole) {
    if (!defaults || r->chance(0.6)) s.given.push_back({n, v, scale, whole});
  };
  if (kind == "Range") {
    add("min_range", r->range(0, 80), 0.125, false);
    add("max_range", r->range(40, 160), 0.125, false);
  } else if (kind == "AxisRange") {
    const int lo = r->range(-80, 60);
    add("min", lo, 0.125, false);
    add("max", lo + r->range(1, 80), 0.125, false);
    add("axis_index", r->upto(3), 1, true);
  } else if (kind == "BoundingBoxRemoval") {
    for (const char* a : {"x", "y", "z"}) {
      const int lo = r->range(-80, 20);
      add(std::string("min_") + a, lo, 0.125, false);
      add(std::string("max_") + a, lo + r->range(20, 160), 0.125, false);
    }
  } else if (kind == "RandomSampler") {
    const int rates[] = {0, 8, 4, 2};
    add("sampling_rate", rates[r->upto(g_mode == "one" ? 4 : 2)], 0.125, false);
  } else if (kind == "GroundRemoval") {
    const int leaf[] = {8, 16, 32};
    s.given.push_back({"leaf_size", leaf[r->upto(3)], 0.125, false});
    s.given.push_back({"height_threshold", r->range(0, 5), 0.125, false});
    s.given.push_back({"min_point_num_in_voxel", r->range(1, 4), 1, true});
  } else if (kind == "VoxelGrid") {
    const int size[] = {8, 16, 32, 64};
    s.given.push_back({"voxel_size", size[r->upto(4)], 0.125, false});
  }
  for (size_t k = s.given.size(); k > 1; --k) std::swap(s.given[k - 1], s.given[r->upto(k)]);
  return s;
}

Cloud::Ptr RandomCloud(vlog::Rng* r, int n, int flat) {
  Cloud::Ptr c(new Cloud);
  c->stamp = SimpleTime(r->range(1, 1000), r->range(0, 999) * 1000000);
  for (int i = 0; i < n; ++i) {
    data::InnerPointType p;
    const int reach = r->chance(0.5) ? 20 : 90;
    p.x = r->range(-reach, reach) / 8.f;
    p.y = r->range(-reach, reach) / 8.f;
    p.z = r->range(-flat, flat) / 8.f;
    if (r->chance(0.3)) p.x = r->range(-11, 11), p.y = 0;  // whole numbers and ties
    p.intensity = i + 1;
    p.factor = r->range(0, 16) / 16.f;
    c->points.push_back(p);
  }
  return c;
}

std::string Pts(const Cloud& c) {
  std::vector<std::string> rows;
  for (const auto& p : c.points)
    rows.push_back(Ev::Arr(Row{Int(p.intensity), Int(p.x, 8), Int(p.y, 8), Int(p.z, 8), Int(p.factor, 16)}));
  return Ev::ArrRaw(rows);
}
// fine values, for averaged points: 1/1000 of an eighth
std::string Fine(const Cloud& c) {
  std::vector<std::string> rows;
  for (const auto& p : c.points)
    rows.push_back(Ev::Arr(Row{Round(p.intensity, 1000), Round(p.x, 8000), Round(p.y, 8000), Round(p.z, 8000)}));
  return Ev::ArrRaw(rows);
}
int64_t Ms(const SimpleTime& t) { return t.ToNanoSec() / 1000000; }
bool Same(const Cloud& a, const Cloud& b) {
  return a.points.size() == b.points.size() && a.stamp.ToNanoSec() == b.stamp.ToNanoSec() &&
         (a.points.empty() || memcmp(a.points.data(), b.points.data(), a.points.size() * sizeof(a.points[0])) == 0);
}

std::shared_ptr<Interface> Make(const std::string& kind) {
  if (kind == "Range") return std::make_shared<Range>();
  if (kind == "AxisRange") return std::make_shared<AxisRange>();
  if (kind == "BoundingBoxRemoval") return std::make_shared<BoundingBoxRemoval>();
  if (kind == "RandomSampler") return std::make_shared<RandomSampler>();
  if (kind == "GroundRemoval") return std::make_shared<GroundRemoval>();
  if (kind == "GroundRemoval2") return std::make_shared<GroundRemoval2>();
  if (kind == "VoxelGrid") return std::make_shared<VoxelGrid>();
  if (kind == "RangeImage") return std::make_shared<RangeImage>();
  return std::make_shared<StatisticRemoval>();
}

// Flat ground with posts on it; ids of the posts are returned.
Cloud::Ptr Ground(vlog::Rng* r, std::vector<int64_t>* posts) {
  Cloud::Ptr c(new Cloud);
  c->stamp = SimpleTime(r->range(1, 1000), 5000000);
  const int h = r->range(-3, -1);  // eighths; default start height is -0.25
  const int beams = r->range(1, 12), a0 = r->upto(360);
  int id = 0;
  for (int b = 0; b < beams; ++b) {
    // beams well apart, and not on the border between two sectors of 2 degrees
    const double a = (a0 / 2 * 2 + 1 + b * 26) * M_PI / 180;
    const int n = r->range(4, 9);
    double d = r->range(2, 9) + 0.25;
    for (int k = 0; k < n; ++k) {
      data::InnerPointType p;
      p.x = d * std::cos(a);
      p.y = d * std::sin(a);
      p.z = h / 8.f;
      p.intensity = ++id;
      c->points.push_back(p);
      if (r->chance(0.3)) {
        p.z += r->range(2, 24) / 8.f;
        p.intensity = ++id;
        posts->push_back(id);
        c->points.push_back(p);
      }
      d += 0.75;
    }
  }
  return c;
}

// Points clearly inside of pixels of the range image, or clearly outside of it.
Cloud::Ptr Image(vlog::Rng* r, int rows, int cols, const double* off, std::vector<std::string>* pixel) {
  Cloud::Ptr c(new Cloud);
  c->stamp = SimpleTime(r->range(1, 1000), 5000000);
  const int n = r->range(1, 25);
  const double top = 30, btm = -20, vres = (top - btm) / rows, hres = 360. / cols;
  for (int i = 0; i < n; ++i) {
    const int u = r->chance(0.3) ? r->upto(rows) : r->upto(3), v = r->chance(0.3) ? r->upto(cols) : r->range(-1, 1);
    const double range = r->range(2, 60);
    double el = btm + (u + 0.5) * vres;
    int kind = r->upto(12);
    if (kind == 0) el = top + vres * r->range(1, 3);
    if (kind == 1) el = btm - vres * r->range(2, 4);
    const double az = (v + (r->chance(0.5) ? r->range(-4, 4) / 10. : 0)) * hres * M_PI / 180;
    data::InnerPointType p;
    p.x = range * std::cos(el * M_PI / 180) * std::cos(az);
    p.y = range * std::cos(el * M_PI / 180) * std::sin(az);
    p.z = range * std::sin(el * M_PI / 180);
    if (kind == 2) p.x = p.y = 0.;
    p.x -= off[0];
    p.y -= off[1];
    p.z -= off[2];
    p.intensity = i + 1;
    c->points.push_back(p);
    pixel->push_back(kind <= 2 ? "[-1,-1]" : Ev::Arr(Row{u, (v + cols) % cols}));
  }
  return c;
}

void RunOne(uint64_t seed) {
  vlog::Rng r(seed);
  const char* kinds[] = {"Range", "AxisRange", "BoundingBoxRemoval", "RandomSampler", "GroundRemoval",
                         "VoxelGrid", "StatisticRemoval", "GroundRemoval2", "RangeImage"};
  const std::string kind = kinds[r.upto(9)];
  auto filter = Make(kind);
  Setup s = RandomSetup(&r, kind, true);
  int rows = 0, cols = 0;
  double off[3] = {0, 0, 0};
  if (kind == "RangeImage") {
    rows = r.range(1, 5) * 10;
    cols = r.range(1, 6) * 60;
    s.given = {{"top_angle", 30, 1, false}, {"btm_angle", -20, 1, false}, {"vertical_line_num", rows, 1, true},
               {"horizontal_line_num", cols, 1, true}};
    for (int k = 0; k < 3; ++k) {
      off[k] = r.range(-2, 2);
      s.given.push_back({std::string("offset_") + "xyz"[k], static_cast<int>(off[k]), 1, false});
    }
  }
  filter->InitFromXmlText(s.Xml(&r).c_str());
  Ev("setup").raw("cfg", s.Json());
  if (kind == "Range" && r.chance(0.003)) {
    // a very large cloud: only counts are logged
    Cloud::Ptr big(new Cloud);
    big->points.resize(12000000);
    for (auto& p : big->points) p.x = 50;
    filter->SetInputCloud(big);
    Cloud::Ptr out(new Cloud);
    filter->Filter(out);
    Ev("big").i("n", big->points.size()).i("in", filter->Inliers().size()).i("out", filter->Outliers().size())
        .i("kept", out->points.size());
    return;
  }
  const int calls = r.range(1, 4);
  Cloud::Ptr in;
  Cloud::Ptr out(new Cloud);
  std::vector<int64_t> posts;
  std::vector<std::string> pixel;
  for (int k = 0; k < calls; ++k) {
    const bool again = in && r.chance(0.4);
    if (!again) {
      posts.clear();
      pixel.clear();
      in = kind == "GroundRemoval2" ? Ground(&r, &posts)
           : kind == "RangeImage"   ? Image(&r, rows, cols, off, &pixel)
                                    : RandomCloud(&r, r.range(1, kind == "RandomSampler" ? 200 : 25),
                                                  kind == "GroundRemoval" ? 12 : 80);
      filter->SetInputCloud(in);
    }
    if (r.chance(0.5)) out.reset(new Cloud);  // otherwise a used output
    const Cloud before = *in;
    filter->Filter(out);
    Ev e("filter");
    std::vector<int64_t> inl(filter->Inliers().begin(), filter->Inliers().end());
    std::vector<int64_t> outl(filter->Outliers().begin(), filter->Outliers().end());
    e.b("again", again).b("kept_input", Same(before, *in)).i("t", Ms(before.stamp)).i("ot", Ms(out->stamp)).a("inl", inl).a("outl", outl);
    if (kind == "VoxelGrid") {
      e.raw("in", Pts(before)).raw("out", Fine(*out));
    } else if (kind == "RangeImage" || kind == "GroundRemoval2") {
      // only the identity of the points; that they are unchanged is compared here bit by bit
      std::vector<int64_t> ids;
      bool same = true;
      for (const auto& p : out->points) {
        const int id = static_cast<int>(p.intensity);
        ids.push_back(id);
        same = same && id >= 1 && id <= static_cast<int>(before.points.size()) &&
               memcmp(&p, &before.points[id - 1], sizeof p) == 0;
      }
      e.i("n", before.points.size()).a("ids", ids).b("same", same).a("posts", posts).raw("pixel", Ev::ArrRaw(pixel));
    } else {
      e.raw("in", Pts(before)).raw("out", Pts(*out));
    }
  }
}

void RunChain(uint64_t seed) {
  vlog::Rng r(seed);
  const char* kinds[] = {"Range", "AxisRange", "BoundingBoxRemoval", "RandomSampler", "GroundRemoval", "Range", "AxisRange",
                         "NoSuchFilter"};
  Factory factory;
  const int n = r.upto(6);
  std::string xml = "<filters>";
  std::vector<std::string> cfg;
  for (int k = 0; k < n; ++k) {
    Setup s = RandomSetup(&r, kinds[r.upto(8)], true);
    if (r.chance(0.1)) xml += "<!-- nothing --><other name=\"Range\"/>";
    xml += s.Xml(&r);
    cfg.push_back(s.Json());
  }
  if (r.chance(0.15)) {
    Setup s = RandomSetup(&r, "VoxelGrid", false);
    xml += s.Xml(&r);
    cfg.push_back(s.Json());
  }
  xml += "</filters>";
  pugi::xml_document doc;
  doc.load_string(xml.c_str());
  factory.InitFromXmlNode(doc.first_child());
  const bool voxel = !cfg.empty() && cfg.back().find("VoxelGrid") != std::string::npos;
  Ev("chain").raw("cfg", Ev::ArrRaw(cfg));
  const int calls = r.range(1, 4);
  for (int k = 0; k < calls; ++k) {
    Cloud::Ptr in = RandomCloud(&r, r.range(1, 25), 40), out(new Cloud);
    if (r.chance(0.5)) *out = *RandomCloud(&r, 3, 5);
    const Cloud before = *in;
    factory.SetInputCloud(in);
    factory.Filter(out);
    Ev("pass").b("kept_input", Same(before, *in)).i("t", Ms(before.stamp)).i("ot", Ms(out->stamp)).raw("in", Pts(before))
        .raw("out", voxel ? Fine(*out) : Pts(*out));
  }
  if (r.chance(0.05)) {
    // a parameter no filter knows
    Setup s = RandomSetup(&r, kinds[r.upto(5)], false);
    s.given.insert(s.given.begin() + r.upto(s.given.size() + 1), Param{"no_such_param", 3, 1, true});
    pugi::xml_document bad;
    bad.load_string(("<filters>" + s.Xml(&r) + "</filters>").c_str());
    const std::string st = vlog::RunChild(
        [&] {
          Factory f;
          f.InitFromXmlNode(bad.first_child());
        },
        10);
    Ev("unknown_param").b("refused", st != "ok");
  }
}

void Run(uint64_t seed) {
  if (g_mode == "one") RunOne(seed);
  if (g_mode == "chain") RunChain(seed);
}
}  // namespace

int main(int, char** argv) {
  g_mode = argv[4];
  return vlog::Main(argv, Run, 30);
}
