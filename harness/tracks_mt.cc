// Threads apply matches to their own frames; identifiers come from one counter.  Program: one script per
// thread: a digit n applies matches between all keypoints of two new frames of n keypoints; p takes an
// identifier from a provider that the threads share.
#include "tracks_world.h"

#include <fstream>
#include <iostream>
#include <sstream>
#include <thread>

#include "detsched/explore.h"

using namespace tracks;
namespace {
void body(const std::string& line) {
  aslam::TrackManager::resetIdProvider();
  ds::log(J().s("e", "reset").b("ok", true).objs("frames", {}).str());
  aslam::ThreadSafeIdProvider<size_t> shared(0);
  ds::log(J().s("e", "provider").i("k", 0).i("v", 0).b("ok", true).objs("frames", {}).str());
  std::istringstream in(line);
  std::string s;
  std::vector<std::thread> th;
  for (int k = 0; in >> s; k += 2) th.emplace_back([s, k, &shared] {
    aslam::SimpleTrackManager manager;
    for (char c : s) {
      if (c == 'p') {
        const size_t id = shared.getNewId();
        ds::NoPreempt np;
        ds::log(J().s("e", "any").i("k", 0).i("v", id).b("ok", true).objs("frames", {}).str());
        continue;
      }
      std::unique_ptr<VisualFrame> f[2];
      aslam::FrameToFrameMatches list;
      std::vector<std::string> m;
      {
        ds::NoPreempt np;
        Ints codes;
        std::string text;
        for (int i = 0; i < c - '0'; ++i) { codes.push_back(i); text += std::to_string(i) + "-" + std::to_string(c - '0' - 1 - i) + ","; }
        list = matches(text, &m);
        for (int i = 0; i < 2; ++i) {
          f[i] = makeFrame(codes, false, {});
          ds::log(J().s("e", "frame").i("f", k + i).list("kp", codes).b("has", false).list("track", Ints()).b("ok", true).objs("frames", {shown(k + i, *f[i])}).str());
        }
      }
      manager.applyMatchesToFrames(list, f[0].get(), f[1].get());
      ds::NoPreempt np;
      ds::log(J().s("e", "apply").i("f", k).i("g", k + 1).objs("m", m).b("ok", true).objs("frames", {shown(k, *f[0]), shown(k + 1, *f[1])}).str());
    }
  });
  for (std::thread& t : th) t.join();
}
ex::Program make(const std::string& line) {
  ex::Program p;
  p.desc = line;
  p.body = [line] { body(line); };
  return p;
}
}  // namespace
#include "detsched/driver_main.h"
