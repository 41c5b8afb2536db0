// Descriptors of clouds that are moved, reordered or changed, and their matches.
// usage: drv_descriptor <out> <first seed> <count>
#include <cmath>

#include "cells.h"
#include "descriptor/m2dp.h"
#include "log.h"

using static_map::data::InnerCloudType;
using static_map::descriptor::M2dp;
using static_map::descriptor::matchTwoM2dpDescriptors;
using vlog::Ev;

namespace {
struct P {
  int x, y, z;
};
using Cloud = std::vector<P>;

// coordinates are in units of 1/8 m
InnerCloudType::Ptr Make(const Cloud& c) {
  InnerCloudType::Ptr out(new InnerCloudType);
  for (const auto& p : c) {
    static_map::data::InnerPointType q;
    q.x = p.x / 8.f;
    q.y = p.y / 8.f;
    q.z = p.z / 8.f;
    q.intensity = 0;
    q.factor = 0;
    out->points.push_back(q);
  }
  return out;
}

void Run(uint64_t seed) {
  vlog::Rng r(seed);
  std::vector<Cloud> clouds;
  std::vector<M2dp::Descriptor> found;
  std::vector<int> params;
  std::unique_ptr<M2dp> tool[2];
  const int steps = r.range(3, 6);
  for (int s = 0; s < steps; ++s) {
    Cloud c;
    // 0 new, 1 moved, 2 reordered, 3 both, 4 repeated, 5 tiny
    int how = clouds.empty() ? 0 : r.upto(6);
    if (how > 0 && how < 5 && clouds.back().size() < 3) how = 0;
    const int from = clouds.empty() ? -1 : r.upto(clouds.size());
    if (how == 0) {
      const int n = r.range(60, 160);
      const int size = 8 << r.upto(4);
      for (int i = 0; i < n; ++i) c.push_back({r.range(-5 * size, 5 * size), r.range(-2 * size, 2 * size), r.range(-size, size)});
      if (r.chance(0.5))
        for (auto& p : c) p = {p.z, p.x + p.z, p.y};
    } else if (how == 5) {
      for (int i = r.upto(3); i > 0; --i) c.push_back({r.range(-9, 9), r.range(-9, 9), r.range(-9, 9)});
    } else {
      c = clouds[from];
      if (how == 1 || how == 3) {
        const P d = {r.range(-800, 800), r.range(-800, 800), r.range(-80, 80)};
        for (auto& p : c) p = {p.x + d.x, p.y + d.y, p.z + d.z};
      }
      if (how == 2 || how == 3)
        for (int k = c.size() - 1; k > 0; --k) std::swap(c[k], c[r.upto(k + 1)]);
    }
    // one of two settings, and either a new object or one used before
    const int set = r.chance(0.15);
    if (!tool[set] || r.chance(0.5)) tool[set].reset(set ? new M2dp(0.1, 100., 8) : new M2dp);
    const bool ok = tool[set]->setInputCloud(Make(c));
    clouds.push_back(c);
    params.push_back(set);
    found.push_back(ok ? tool[set]->getFinalDescriptor() : M2dp::Descriptor());
    std::vector<std::string> rows;
    for (const auto& p : c) rows.push_back(Ev::Arr(std::vector<int64_t>{p.x, p.y, p.z}));
    Ev("describe").b("ok", ok).i("set", set).raw("c", Ev::ArrRaw(rows));
  }
  for (int i = 0; i < steps; ++i)
    for (int j = 0; j < steps; ++j)
      Ev("match").i("a", i + 1).i("b", j + 1).i("score", vcell::Round(matchTwoM2dpDescriptors(found[i], found[j]), 1e4));
  // descriptors of small whole numbers
  for (int k = 0; k < 4; ++k) {
    const int n = r.range(10, 12);
    std::vector<int64_t> v[2];
    for (int m = 0; m < 2; ++m)
      for (int i = 0; i < n; ++i) v[m].push_back(m && r.chance(0.6) ? v[0][i] : r.range(0, 3));
    for (auto& l : v) {
      l[0] = 0;
      l[n - 1] = 3;
    }
    M2dp::Descriptor d[2];
    for (int m = 0; m < 2; ++m) {
      d[m].resize(n, 1);
      for (int i = 0; i < n; ++i) d[m](i) = v[m][i];
    }
    Ev("compare").raw("a", Ev::Arr(v[0])).raw("b", Ev::Arr(v[1])).i("score", vcell::Round(matchTwoM2dpDescriptors(d[0], d[1]), 100));
  }
}
}  // namespace

int main(int argc, char** argv) { return vlog::Main(argv, Run, 60); }
