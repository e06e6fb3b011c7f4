// Several threads generate identifiers.  Program: one script per thread, g generateId, c createRandomId,
// R HashId::random, n another identifier type.  The clock does not advance during a run.
#include <time.h>

#include <fstream>
#include <iostream>
#include <sstream>
#include <thread>

#include <aslam/common/unique-id.h>

#include "detsched/explore.h"

extern "C" int clock_gettime(clockid_t, struct timespec* ts) __attribute__((visibility("default")));
extern "C" int clock_gettime(clockid_t, struct timespec* ts) {
  ts->tv_sec = 1700000000;
  ts->tv_nsec = 1000;
  return 0;
}

namespace {
void gen(char c) {
  uint64_t w[2] = {0, 0};
  aslam::HashId h;
  if (c == 'g') { aslam::FrameId id; aslam::generateId(&id); id.toHashId(&h); }
  else if (c == 'n') { aslam::SensorId id; aslam::generateId(&id); id.toHashId(&h); }
  else if (c == 'c') aslam::createRandomId<aslam::NFramesId>().toHashId(&h);
  else h = aslam::HashId::random();
  ds::NoPreempt np;
  h.toUint64(w);
  std::string b;
  for (int k = 0; k < 2; ++k) for (int i = 0; i < 8; ++i) b += (b.empty() ? "" : ",") + std::to_string((w[k] >> (8 * i)) & 255);
  ds::log("{\"e\":\"new\",\"t\":" + std::to_string(ds::self()) + ",\"v\":[" + b + "]}");
}
ex::Program make(const std::string& line) {
  ex::Program p;
  p.desc = line;
  p.body = [line] {
    std::istringstream in(line);
    std::string s;
    std::vector<std::thread> th;
    while (in >> s) th.emplace_back([s] { for (char c : s) gen(c); });
    for (std::thread& t : th) t.join();
  };
  return p;
}
}  // namespace
#include "detsched/driver_main.h"
