// The view of a graph: its text and its picture.
// usage: drv_view <out> <first seed> <count> <scratch directory>
#include <sys/stat.h>
#include <unistd.h>

#include <fstream>
#include <sstream>

#include "back_end/view_graph.h"
#include "log.h"
// defines macros that the headers above do not bear
#include "CImg/CImg.h"

using static_map::back_end::ViewGraph;
using vlog::Ev;
typedef std::vector<int64_t> Row;

namespace {
std::string g_dir;

Eigen::Matrix4d At(const int x, const int y, const int z) {
  Eigen::Matrix4d m = Eigen::Matrix4d::Identity();
  m(0, 3) = x, m(1, 3) = y, m(2, 3) = z;
  return m;
}

std::string Text(const std::string& file) {
  std::ifstream in(file);
  std::vector<std::string> out;
  for (std::string line; std::getline(in, line);) {
    for (char& ch : line)
      if (ch == ',' || ch == '>') ch = ' ';
    std::istringstream words(line);
    Row row;
    for (int64_t v; words >> v;) row.push_back(v);
    out.push_back(Ev::Arr(row));
  }
  return Ev::ArrRaw(out);
}

// the letters of a line: w white, b blue, r red, x any other colour
std::string Picture(const std::string& file) {
  cimg_library::CImg<unsigned char> image(file.c_str());
  std::vector<std::string> out;
  for (int y = 0; y < image.height(); ++y) {
    std::vector<std::string> line;
    for (int x = 0; x < image.width(); ++x) {
      const int c = image(x, y, 0, 0) << 16 | image(x, y, 0, 1) << 8 | image(x, y, 0, 2);
      line.push_back(c == 0xffffff ? "\"w\"" : c == 0x0000ff ? "\"b\"" : c == 0xff0000 ? "\"r\"" : "\"x\"");
    }
    out.push_back(Ev::ArrRaw(line));
  }
  return Ev::ArrRaw(out);
}

void Run(uint64_t seed) {
  vlog::Rng r(seed);
  const std::string file = g_dir + "/" + std::to_string(seed);
  ViewGraph graph;
  const int dx = r.range(-20, 20), dy = r.range(-20, 20), names = r.range(2, 6), first = r.chance(0.2) ? -2 : 0;
  for (int k = r.range(3, 24); k > 0; --k) {
    const int a = first + r.upto(names);
    switch (r.upto(6)) {
      case 0:
      case 1: {
        const int x = dx + r.range(0, 10), y = dy + r.range(0, 10), z = r.range(0, 3);
        graph.AddVertex(a, At(x, y, z));
        Ev("vertex").i("a", a).raw("at", Ev::Arr(Row{x, y, z}));
        break;
      }
      case 2:
      case 3: {
        const int b = r.chance(0.5) ? a + 1 : first + r.upto(names), t = r.range(-9, 9);
        graph.AddEdge(a, b, At(t, 0, 0));
        Ev("edge").i("a", a).i("b", b).i("t", t);
        break;
      }
      case 4: {
        const bool lost = r.chance(0.15);
        graph.SaveTextFile(lost ? g_dir + "/none/none.txt" : file + ".txt");
        if (lost) {
          Ev("lost");
        } else {
          Ev("text").raw("lines", Text(file + ".txt"));
        }
        unlink((file + ".txt").c_str());
        std::vector<std::string> items;
        for (const auto& item : graph.GetWholeGraph()) {
          std::vector<std::string> to;
          for (const auto& c : item.second.connections) to.push_back(Ev::Arr(Row{c.first, static_cast<int64_t>(c.second(0, 3))}));
          const auto& m = item.second.self_pose;
          items.push_back(Ev::ArrRaw({std::to_string(item.first),
                                      Ev::Arr(Row{static_cast<int64_t>(m(0, 3)), static_cast<int64_t>(m(1, 3)), static_cast<int64_t>(m(2, 3))}),
                                      Ev::ArrRaw(to)}));
        }
        Ev("whole").raw("items", Ev::ArrRaw(items));
        break;
      }
      default: {
        const int per = r.range(1, 2);
        graph.SaveImage(file + ".bmp", 1. / per);
        const bool there = access((file + ".bmp").c_str(), F_OK) == 0;
        Ev("image").i("per", per).b("there", there).raw("px", there ? Picture(file + ".bmp") : "[]");
        unlink((file + ".bmp").c_str());
      }
    }
  }
}
}  // namespace

int main(int, char** argv) {
  g_dir = argv[4];
  mkdir(g_dir.c_str(), 0755);
  return vlog::Main(argv, Run, 30);
}
