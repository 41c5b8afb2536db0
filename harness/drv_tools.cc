// The command-line programs on files written here, each in a directory of its own.
// usage: drv_tools <out> <first seed> <count> <join> <sample> <path> <scratch directory>
#include <pcl/io/pcd_io.h>
#include <pcl/point_types.h>
#include <sys/stat.h>

#include <fstream>
#include <sstream>

#include "log.h"

using vlog::Ev;

namespace {
using Cloud = pcl::PointCloud<pcl::PointXYZI>;
std::string g_tool[3], g_dir;

// coordinates and reflectivity in units of 1/8
int64_t Eighths(double v) {
  bool ok = true;
  const int64_t k = vlog::Grid(v, 8, 1e-3, &ok);
  return ok ? k : 888888888;
}

std::string Json(const Cloud& c) {
  std::vector<std::string> rows;
  for (const auto& p : c.points)
    rows.push_back(Ev::Arr(std::vector<int64_t>{Eighths(p.x), Eighths(p.y), Eighths(p.z), Eighths(p.intensity)}));
  return Ev::ArrRaw(rows);
}

std::string Bytes(const std::string& file) {
  std::ifstream in(file, std::ios::binary);
  std::ostringstream out;
  out << in.rdbuf();
  return out.str();
}

bool Exists(const std::string& file) {
  struct stat st;
  return stat(file.c_str(), &st) == 0;
}

// 0: success, 1: reported failure, 2: ended by a signal or never
int Exec(const std::string& dir, std::vector<std::string> args) {
  const std::string st = vlog::RunChild(
      [&] {
        if (chdir(dir.c_str())) _exit(3);
        std::vector<char*> v;
        for (auto& a : args) v.push_back(&a[0]);
        v.push_back(nullptr);
        setpgid(0, getppid());
        execv(v[0], v.data());
        _exit(126);
      },
      60);
  return st == "ok" ? 0 : st.compare(0, 4, "exit") == 0 ? 1 : 2;
}

void Run(uint64_t seed) {
  vlog::Rng r(seed);
  const std::string dir = g_dir + "/" + std::to_string(seed);
  const std::string sub = r.chance(0.5) ? "pkg/" : "";
  mkdir(dir.c_str(), 0755);
  mkdir((dir + "/pkg").c_str(), 0755);
  // clouds
  std::vector<std::string> names;
  const int n = r.range(1, 4);
  for (int k = 0; k < n; ++k) {
    const std::string name = sub + "part_" + std::to_string(k) + ".pcd";
    names.push_back(name);
    if (r.chance(0.12)) continue;
    if (r.chance(0.08)) {
      std::ofstream(dir + "/" + name) << "not a cloud\n";
      Ev("broken").s("name", name);
      continue;
    }
    Cloud c;
    const int size = r.range(1, 24), reach = 1 << r.range(3, 14);
    for (int i = 0; i < size; ++i) {
      pcl::PointXYZI p;
      p.x = r.range(-reach, reach) / 8.f;
      p.y = r.range(-reach, reach) / 8.f;
      p.z = r.range(-400, 400) / 8.f;
      p.intensity = r.range(0, 2040) / 8.f;
      c.push_back(p);
    }
    if (size > 2 && r.chance(0.3)) c.points[1] = c.points[0];
    if (r.chance(0.5)) pcl::io::savePCDFileBinaryCompressed(dir + "/" + name, c);
    else if (r.chance(0.5)) pcl::io::savePCDFileBinary(dir + "/" + name, c);
    else pcl::io::savePCDFileASCII(dir + "/" + name, c);
    Ev("cloud").s("name", name).raw("pts", Json(c));
  }
  for (int step = r.range(2, 3); step > 0; --step) {
    const int tool = r.upto(4);
    const std::string file = names[r.upto(names.size())];
    const std::string before = Bytes(dir + "/" + file);
    const std::string given = r.chance(0.3) ? dir + "/" + file : file;
    if (tool <= 1) {
      const std::string pkg = sub + "map.xml";
      const int kind = r.upto(12);  // 0: no file, 1: no description, 2: another root
      std::vector<std::string> rows;
      std::ostringstream xml;
      xml << "<?xml version=\"1.0\"?>\n" << (kind == 2 ? "<Other>\n" : "<MapPackage border_offset=\"3\">\n");
      const int pieces = r.range(0, 5);
      for (int k = 0; k < pieces; ++k) {
        const int w = r.upto(names.size()), reach = 1 << r.range(2, 16);
        const int x = r.chance(0.1) ? 0 : r.range(-reach, reach), y = r.chance(0.1) ? 0 : r.range(-reach, reach);
        if (r.chance(0.1)) xml << "<Note file=\"" << names[w].substr(sub.size()) << "\" x=\"1\"/>\n";
        xml.precision(15);
        xml << "<Piece " << "x=\"" << x / 8. << "\" y=\"" << y / 8. << "\" file=\"" << names[w].substr(sub.size()) << "\"/>\n";
        rows.push_back("{\"f\":\"" + names[w] + "\",\"x\":" + std::to_string(x) + ",\"y\":" + std::to_string(y) + "}");
      }
      xml << (kind == 2 ? "</Other>\n" : "</MapPackage>\n");
      remove((dir + "/" + pkg).c_str());
      if (kind) std::ofstream(dir + "/" + pkg) << (kind == 1 ? "<MapPackage" : xml.str());
      const std::string text = Bytes(dir + "/" + pkg), out = dir + "/whole_static_map.pcd";
      const int st = Exec(dir, {g_tool[0], "-pkg", r.chance(0.3) ? dir + "/" + pkg : pkg});
      Cloud c;
      const bool made = Exists(out), read = made && pcl::io::loadPCDFile(out, c) == 0;
      Ev("join").b("good", kind > 2).raw("pieces", Ev::ArrRaw(rows)).i("st", st).b("made", made).b("read", read)
          .raw("pts", Json(c)).b("kept", before == Bytes(dir + "/" + file) && text == Bytes(dir + "/" + pkg));
      remove(out.c_str());
    } else if (tool == 2) {
      const int ratio = r.range(1, 10);  // eighths
      std::vector<std::string> args = {g_tool[1], "-pc", given, "-r", std::to_string(ratio / 8.)};
      if (r.chance(0.3)) args = {g_tool[1], "-r", std::to_string(ratio / 8.), "-pc", given};
      const std::string out = dir + "/sampled.pcd";
      const int st = Exec(dir, args);
      Cloud c;
      const bool made = Exists(out), read = made && pcl::io::loadPCDFile(out, c) == 0;
      Ev("sample").s("name", file).i("ratio", ratio).i("st", st).b("made", made).b("read", read).raw("pts", Json(c))
          .b("kept", before == Bytes(dir + "/" + file));
      remove(out.c_str());
    } else {
      const std::string out = dir + "/path.csv";
      const int st = Exec(dir, {g_tool[2], "-pc", given});
      std::vector<std::string> rows;
      std::ifstream in(out);
      std::string line;
      while (std::getline(in, line)) {
        std::vector<int64_t> v;
        std::istringstream cells(line);
        std::string cell;
        while (std::getline(cells, cell, ',')) v.push_back(Eighths(atof(cell.c_str())));
        rows.push_back(Ev::Arr(v));
      }
      Ev("path").s("name", file).i("st", st).b("made", Exists(out)).raw("pts", Ev::ArrRaw(rows))
          .b("kept", before == Bytes(dir + "/" + file));
      remove(out.c_str());
    }
  }
  for (const auto& f : names) remove((dir + "/" + f).c_str());
  remove((dir + "/" + sub + "map.xml").c_str());
  rmdir((dir + "/pkg").c_str());
  rmdir(dir.c_str());
}
}  // namespace

int main(int, char** argv) {
  for (int k = 0; k < 3; ++k) g_tool[k] = argv[4 + k];
  g_dir = argv[7];
  mkdir(g_dir.c_str(), 0755);
  return vlog::Main(argv, Run, 120);
}
