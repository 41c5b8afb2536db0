// Detection of flat patches and the sampling that keeps them; objects are used for several clouds.
// usage: drv_plane <out> <first seed> <count>
#include "log.h"
#include "pre_processors/random_sample_with_plane_detect.h"

using vlog::Ev;
typedef std::vector<int64_t> Row;
typedef pcl::PointCloud<pcl::PointXYZI> Cloud;

namespace {
// lengths in 1/64 m; voxels of 64
void Run(uint64_t seed) {
  vlog::Rng r(seed);
  static_map::PlaneDetector<pcl::PointXYZI> detector;
  static_map::RandomSamplerWithPlaneDetect<pcl::PointXYZI> sampler;
  const int least = r.range(5, 12), part = r.chance(0.1) ? 8 : r.range(1, 7);
  detector.SetLeafSize(1.f);
  detector.SetMinPointNumInVoxel(least);
  sampler.SetLeafSize(1.f);
  sampler.SetMinPointNumInVoxel(least);
  sampler.SetSamplingRate(part / 8.f);
  for (int round = r.range(1, 4); round > 0; --round) {
    Cloud::Ptr cloud(new Cloud), out(new Cloud);
    std::vector<std::string> pts;
    std::vector<Row> list;
    for (int v = r.range(1, 6); v > 0; --v) {
      // away from the origin, where voxels of both sides are one
      int at[3] = {r.range(1, 2), r.range(1, 2), r.chance(0.6) ? 0 : r.chance(0.5) ? 1 : -2};
      if (r.chance(0.3)) at[0] = -3;
      const int n = at[2] > 0 ? r.range(1, least * 2 - 1) : r.range(1, least + 6);
      const int flat = r.chance(0.6) ? r.range(0, 12) : r.range(13, 60);
      const int base = r.range(1, 62 - flat);
      for (int k = 0; k < n; ++k)
        list.push_back(Row{at[0] * 64 + r.range(1, 63), at[1] * 64 + r.range(1, 63),
                           at[2] * 64 + (k == 0 ? base : k == 1 ? base + flat : r.range(base, base + flat))});
    }
    // no more than the upper voxels bear
    std::map<std::vector<int64_t>, int> count;
    for (int k = static_cast<int>(list.size()) - 1; k > 0; --k) std::swap(list[k], list[r.upto(k + 1)]);
    for (const auto& p : list) {
      if (p[2] >= 64 && ++count[Row{p[0] / 64, p[1] / 64, p[2] / 64}] >= least * 2) continue;
      pcl::PointXYZI q;
      q.x = p[0] / 64.f, q.y = p[1] / 64.f, q.z = p[2] / 64.f, q.intensity = pts.size() + 1;
      cloud->push_back(q);
      pts.push_back(Ev::Arr(p));
    }
    if (r.chance(0.1)) {
      cloud->clear();
      pts.clear();
    }
    Ev("cloud").i("least", least).raw("pts", Ev::ArrRaw(pts));
    if (r.chance(0.6)) {
      std::vector<int> found;
      detector.SetInputCloud(cloud);
      detector.Detect(found, 0.2f);
      std::sort(found.begin(), found.end());
      for (auto& f : found) ++f;
      Ev("flat").a("found", found);
    }
    if (r.chance(0.6)) {
      Row kept;
      sampler.SetInputCloud(cloud);
      sampler.Filter(out);
      for (const auto& p : out->points) kept.push_back(static_cast<int64_t>(p.intensity));
      Ev("sample").i("part", part).a("kept", kept);
    }
  }
}
}  // namespace

int main(int, char** argv) { return vlog::Main(argv, Run, 30); }
