// Clusters of range images and their pictures; one object is used for several clouds.
// usage: drv_depth <out> <first seed> <count> <scratch directory>
#include <png.h>
#include <sys/stat.h>

#include <map>

#include "cells.h"
#include "log.h"
#include "pre_processors/filter_range_image.h"

using static_map::data::InnerCloudType;
using static_map::data::InnerPointType;
using static_map::pre_processers::filter::RangeImage;
using vlog::Ev;
typedef std::vector<int64_t> Row;

namespace {
std::string g_dir;
constexpr double kStep = 10.;  // degrees between lines

std::string Picture(const std::string& file) {
  FILE* f = fopen(file.c_str(), "rb");
  if (!f) return "[]";
  png_structp png = png_create_read_struct(PNG_LIBPNG_VER_STRING, nullptr, nullptr, nullptr);
  png_infop info = png_create_info_struct(png);
  png_init_io(png, f);
  png_read_png(png, info, PNG_TRANSFORM_IDENTITY, nullptr);
  png_bytepp rows = png_get_rows(png, info);
  std::vector<std::string> out;
  for (uint32_t y = 0; y < png_get_image_height(png, info); ++y) {
    std::vector<std::string> line;
    for (uint32_t x = 0; x < png_get_image_width(png, info); ++x)
      line.push_back(Ev::Arr(Row{rows[y][3 * x], rows[y][3 * x + 1], rows[y][3 * x + 2]}));
    out.push_back(Ev::ArrRaw(line));
  }
  png_destroy_read_struct(&png, &info, nullptr);
  fclose(f);
  return Ev::ArrRaw(out);
}

void Run(uint64_t seed) {
  vlog::Rng r(seed);
  const std::string file = g_dir + "/" + std::to_string(seed) + ".png";
  const int rows = r.range(2, 5), cols = 36;
  RangeImage image;
  image.SetValue("top_angle", static_cast<float>(rows * kStep / 2));
  image.SetValue("btm_angle", static_cast<float>(-rows * kStep / 2));
  image.SetValue("vertical_line_num", rows);
  image.SetValue("horizontal_line_num", cols);
  for (int round = r.range(1, 3); round > 0; --round) {
    // blocks of returns, near or far
    std::map<std::pair<int, int>, int> at;
    for (int b = r.range(1, 6); b > 0; --b) {
      const int u = r.upto(rows), v = r.upto(cols), h = r.range(1, rows), w = r.range(1, 14), far = r.chance(0.5);
      const double density = r.chance(0.5) ? 1. : 0.8;
      for (int i = 0; i < h; ++i)
        for (int j = 0; j < w; ++j)
          if (u + i < rows && r.chance(density)) at[{u + i, (v + j) % cols}] = far ? r.range(64, 70) : r.range(8, 9);
    }
    std::vector<std::pair<std::pair<int, int>, int>> list(at.begin(), at.end());
    for (int k = list.size() - 1; k > 0; --k) std::swap(list[k], list[r.upto(k + 1)]);
    if (r.chance(0.3) && !list.empty()) list.push_back({list[r.upto(list.size())].first, 30});
    InnerCloudType::Ptr cloud(new InnerCloudType), out(new InnerCloudType);
    std::vector<std::string> pts;
    for (const auto& x : list) {
      const double el = ((x.first.first + 0.5) * kStep - rows * kStep / 2) * M_PI / 180, az = x.first.second * kStep * M_PI / 180;
      InnerPointType p;
      p.x = x.second * std::cos(el) * std::cos(az);
      p.y = x.second * std::cos(el) * std::sin(az);
      p.z = x.second * std::sin(el);
      cloud->points.push_back(p);
      pts.push_back(Ev::Arr(Row{x.first.first, x.first.second, x.second}));
    }
    if (list.empty()) continue;
    Ev("image").i("rows", rows).i("cols", cols).raw("pts", Ev::ArrRaw(pts));
    image.SetInputCloud(cloud);
    image.Filter(out);
    RangeImage::LabeledPointCloudPtr labeled(new pcl::PointCloud<RangeImage::LabeledPointType>);
    image.DepthCluster(labeled);
    std::vector<std::string> found;
    for (const auto& p : labeled->points) {
      int which = -1;
      for (size_t k = 0; k < cloud->points.size(); ++k)
        if (cloud->points[k].x == p.x && cloud->points[k].y == p.y && cloud->points[k].z == p.z) which = k + 1;
      found.push_back(Ev::Arr(Row{which, static_cast<int64_t>(p.label)}));
    }
    Ev("clusters").raw("found", Ev::ArrRaw(found));
    if (r.chance(0.4)) {
      const int most = r.chance(0.5) ? 100 : 51;
      const bool colour = r.chance(0.5);
      image.ToPng(most, file.c_str(), colour);
      Ev("picture").i("most", most).b("colour", colour).raw("px", Picture(file));
      unlink(file.c_str());
    }
  }
}
}  // namespace

int main(int, char** argv) {
  g_dir = argv[4];
  mkdir(g_dir.c_str(), 0755);
  return vlog::Main(argv, Run, 30);
}
