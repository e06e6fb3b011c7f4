// Drives channel groups concurrently.  Program: a setup script and one script per thread, tokens separated by
// commas: a<g><n> add the vector channel named n, h<g><n> has, r<g> remove TRACK_IDS, A<g> add TRACK_IDS,
// c<g> clone into a private group and show it, e<g><h> equal, p<g> print.
#include <fstream>
#include <iostream>
#include <thread>

#include "channel_world.h"
#include "detsched/explore.h"

namespace {
struct World { cw::ch::ChannelGroup g[3]; };

std::string me() { return "\"t\":" + std::to_string(ds::self()); }
void call(const std::string& o, int g, int h, const std::string& n) {
  ds::NoPreempt np;
  ds::log("{\"e\":\"c\"," + me() + ",\"o\":\"" + o + "\",\"g\":" + std::to_string(g) + ",\"h\":" + std::to_string(h) + ",\"n\":\"" + n + "\"}");
}
void ret(const std::string& res) { ds::NoPreempt np; ds::log("{\"e\":\"r\"," + me() + ",\"res\":" + res + "}"); }

void step(World* w, const std::string& t) {
  const int g = t[1] - '0';
  const std::string n = t.size() > 2 ? t.substr(2) : "";
  const char* T = "TRACK_IDS";
  switch (t[0]) {
    case 'a': call("add", g, 0, n); cw::ch::addChannel<Eigen::VectorXd>(n, &w->g[g]); ret("[]"); break;
    case 'A': call("addt", g, 0, T); cw::ch::add_TRACK_IDS_Channel(&w->g[g]); ret("[]"); break;
    case 'h': { call("has", g, 0, n); const bool r = cw::ch::hasChannel(n, w->g[g]); ret(r ? "[1]" : "[0]"); break; }
    case 'H': { call("has", g, 0, T); const bool r = cw::ch::has_TRACK_IDS_Channel(w->g[g]); ret(r ? "[1]" : "[0]"); break; }
    case 'r': call("remove", g, 0, T); cw::ch::remove_TRACK_IDS_Channel(&w->g[g]); ret("[]"); break;
    case 'c': {
      call("clone", g, 0, "");
      cw::ch::ChannelGroup c;
      c = cw::ch::cloneChannelGroup(w->g[g]);
      ret(cw::contents(c));
      break;
    }
    case 'e': {
      const int h = t[2] - '0';
      call("equal", g, h, "");
      const bool r = cw::ch::isChannelGroupEqual(w->g[g], w->g[h]);
      ret(r ? "[1]" : "[0]");
      break;
    }
    case 'p': { call("print", g, 0, ""); const auto p = cw::printed(w->g[g]); ret(cw::jnames(p)); break; }
  }
}
void script(World* w, const std::string& s) {
  std::stringstream ss(s);
  for (std::string t; std::getline(ss, t, ',');) if (t != "-") step(w, t);
}
ex::Program make(const std::string& line) {
  ex::Program p;
  p.desc = line;
  p.body = [line] {
    World w;
    std::istringstream in(line);
    std::string s;
    in >> s;
    script(&w, s);
    std::vector<std::thread> th;
    while (in >> s) th.emplace_back([&w, s] { script(&w, s); });
    for (std::thread& t : th) t.join();
    for (int g = 0; g < 3; ++g) { call("clone", g, 0, ""); ret(cw::contents(w.g[g])); }
  };
  return p;
}
}  // namespace
#include "detsched/driver_main.h"
