// Drives timers and statistics concurrently.  Program: a setup script and one script per thread, tokens separated by
// commas: a<tag><x> sample, t<tag> timer, h<r><tag> handle, n<r><tag> number of samples, s<tag> total, p<r> print,
// y<r> yaml, r<r> reset.
#include <iostream>
#include <thread>

#include "detsched/explore.h"
#include "stats_world.h"

namespace {
using sw::S;
using sw::T;

std::string me() { return "\"t\":" + std::to_string(ds::self()); }
void call(const std::string& o, int r, const std::string& g, int x = 0) {
  ds::NoPreempt np;
  ds::log("{\"e\":\"c\"," + me() + ",\"o\":\"" + o + "\",\"r\":" + std::to_string(r) + ",\"g\":\"" + g + "\",\"x\":" + std::to_string(x) + "}");
}
void ret(const std::string& res) { ds::NoPreempt np; ds::log("{\"e\":\"r\"," + me() + ",\"res\":" + res + "}"); }

void step(const std::string& t) {
  switch (t[0]) {
    case 'a': { const std::string g = t.substr(1, 1); const int x = std::stoi(t.substr(2)); call("add", 1, g, x); { statistics::StatsCollectorImpl c(g); c.AddSample(x); } ret("0"); break; }
    case 't': { const std::string g = t.substr(1, 1); call("time", 0, g); { timing::TimerImpl c(g); } ret("0"); break; }
    case 'h': { const int r = t[1] - '0'; const std::string g = t.substr(2); call("handle", r, g); const size_t h = r ? S::GetHandle(g) : T::GetHandle(g); ret(std::to_string(h)); break; }
    case 'n': { const int r = t[1] - '0'; const std::string g = t.substr(2); call("num", r, g); const size_t n = r ? S::GetNumSamples(g) : T::GetNumSamples(g); ret(std::to_string(n)); break; }
    case 's': { const std::string g = t.substr(1); call("total", 1, g); const double s = S::GetTotal(g); ret(std::to_string(llround(s))); break; }
    case 'p': { const int r = t[1] - '0'; call("print", r, ""); std::string s = sw::listing(r); ds::NoPreempt np; ret(sw::json(sw::parseListing(s))); break; }
    case 'y': {
      const int r = t[1] - '0';
      const std::string p = sw::yamlPath();
      unlink(p.c_str());
      call("yaml", r, "");
      r ? S::WriteToYamlFile(p) : T::WriteToYamlFile(p);
      ds::NoPreempt np;
      ret(sw::json(sw::parseYaml(r, p, {})));
      break;
    }
    case 'r': { const int r = t[1] - '0'; call("reset", r, ""); r ? S::Reset() : T::Reset(); ret("0"); break; }
  }
}
void script(const std::string& s) {
  std::stringstream ss(s);
  for (std::string t; std::getline(ss, t, ',');) if (t != "-") step(t);
}
ex::Program make(const std::string& line) {
  ex::Program p;
  p.desc = line;
  p.body = [line] {
    S::Reset();
    T::Reset();
    std::istringstream in(line);
    std::string s;
    in >> s;
    script(s);
    std::vector<std::thread> th;
    while (in >> s) th.emplace_back([s] { script(s); });
    for (std::thread& t : th) t.join();
    script("p0,p1,n0a,n1a,n1b,sa,sb,h1a,h1b,h0a,h0b");
  };
  return p;
}
}  // namespace
#include "detsched/driver_main.h"
