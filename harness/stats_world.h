// Reading listings and figures of timers and statistics.
#ifndef VERIF_STATS_WORLD_H_
#define VERIF_STATS_WORLD_H_
#include <time.h>
#include <unistd.h>

#include <cmath>
#include <cstdio>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include <yaml-cpp/yaml.h>

#include "aslam/common/statistics/statistics.h"
#include "aslam/common/timer.h"

namespace sw {
typedef timing::Timing T;
typedef statistics::Statistics S;

// The clock under control: nanoseconds since a fixed moment.
extern long long now;

struct Row { std::string g; long long n, min, max; bool mm; };
inline std::string json(const std::vector<Row>& rows) {
  std::string s = "[";
  for (const Row& r : rows) {
    s += (s.size() > 1 ? ",{" : "{") + std::string("\"g\":\"") + r.g + "\",\"n\":" + std::to_string(r.n);
    if (r.mm) s += ",\"min\":" + std::to_string(r.min) + ",\"max\":" + std::to_string(r.max);
    s += "}";
  }
  return s + "]";
}
inline std::vector<Row> parseListing(const std::string& text) {
  std::vector<Row> rows;
  std::istringstream in(text);
  for (std::string line; std::getline(in, line);) {
    if (line == "SM Timing" || line == "Statistics" || line.compare(0, 5, "-----") == 0 || line.empty()) continue;
    Row r{"", -1, 0, 0, false};
    std::istringstream ls(line);
    ls >> r.g >> r.n;
    double a, b;
    const size_t br = line.rfind('[');
    if (br != std::string::npos && line.find(':', br) == std::string::npos && sscanf(line.c_str() + br, "[%lf,%lf]", &a, &b) == 2) {
      r.min = llround(a);
      r.max = llround(b);
      r.mm = true;
    }
    rows.push_back(r);
  }
  return rows;
}
inline std::string listing(int r) { return r == 0 ? T::Print() : S::Print(); }
inline std::string yamlPath() { return "/tmp/verif_stats." + std::to_string(getpid()) + "." + std::to_string(reinterpret_cast<size_t>(&errno) % 100003) + ".yaml"; }
// Tags are told from their labels in the file, in which some characters are replaced.
inline std::vector<Row> parseYaml(int r, const std::string& path, const std::vector<std::string>& tags) {
  std::vector<Row> rows;
  std::ifstream in(path);
  if (!in) return rows;
  const double unit = r == 0 ? 1e9 : 1;
  const YAML::Node doc = YAML::Load(in);
  if (doc.IsMap()) {
    for (const auto& kv : doc) {
      std::string g = kv.first.as<std::string>();
      for (std::string t : tags) {
        std::string label = t;
        for (char& c : label) if (c == ':' || c == '#') c = '_';
        if (label == g) { g = t; break; }
      }
      rows.push_back(Row{g, kv.second[r == 0 ? "num_samples" : "samples"].as<long long>(),
                         llround(kv.second["min"].as<double>() * unit), llround(kv.second["max"].as<double>() * unit), true});
    }
  }
  unlink(path.c_str());
  return rows;
}
}  // namespace sw
#endif
