// Drives aslam::ReaderWriterMutex / ReaderFirstReaderWriterMutex and the scoped locks.
//   rwlock <out_dir> <programs file> <seed> <scale> | rwlock replay "<program>" "<how>"
// A program line: "<b|f> <script> <script> ...": variant and one script per thread:
//   r/R acquire/release read, w/W write, u upgrade (then: U release write if it succeeded, nothing otherwise),
//   i in-use query, s/S scoped read lock, t/T scoped write lock, m move the scoped lock, q wait for quiescence,
//   y yield.
#include <aslam/common/reader-first-reader-writer-lock.h>
#include <aslam/common/reader-writer-lock.h>

#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <thread>

#include "detsched/explore.h"

namespace {

std::string ev(const char* e, const std::string& rest) { return std::string("{\"e\":\"") + e + "\"" + rest + "}"; }
std::string top(const char* o) { return ",\"t\":" + std::to_string(ds::self()) + ",\"o\":\"" + o + "\""; }

void call(const char* o) {
  ds::NoPreempt np;
  ds::log(ev("c", top(o)));
  ds::beginOp(ev("p", ",\"t\":" + std::to_string(ds::self())));
}
void ret(const char* o, int v = -1) {
  ds::NoPreempt np;
  ds::endOp();
  ds::log(ev("r", top(o) + (v < 0 ? "" : v ? ",\"v\":true" : ",\"v\":false")));
}

void script(aslam::ReaderWriterMutex* m, const std::string& s) {
  std::unique_ptr<aslam::ScopedReadLock> srl;
  std::unique_ptr<aslam::ScopedWriteLock> swl;
  bool upgraded = false;
  for (char c : s) {
    switch (c) {
      case 'r': call("rl"); m->acquireReadLock(); ret("rl"); break;
      case 'R': call("ru"); m->releaseReadLock(); ret("ru"); break;
      case 'w': call("wl"); m->acquireWriteLock(); ret("wl"); break;
      case 'W': call("wu"); m->releaseWriteLock(); ret("wu"); break;
      case 'u': call("up"); upgraded = m->upgradeToWriteLock(); ret("up", upgraded); break;
      case 'U': if (upgraded) { call("wu"); m->releaseWriteLock(); ret("wu"); } upgraded = false; break;
      case 'i': { call("iu"); const bool b = m->isInUse(); ret("iu", b); break; }
      case 's': call("rl"); srl.reset(new aslam::ScopedReadLock(m)); ret("rl"); break;
      case 'S': call("ru"); srl.reset(); ret("ru"); break;
      case 't': call("wl"); swl.reset(new aslam::ScopedWriteLock(m)); ret("wl"); break;
      case 'T': call("wu"); swl.reset(); ret("wu"); break;
      case 'm':
        if (srl) { std::unique_ptr<aslam::ScopedReadLock> o(new aslam::ScopedReadLock(std::move(*srl))); srl.swap(o); }
        if (swl) { std::unique_ptr<aslam::ScopedWriteLock> o(new aslam::ScopedWriteLock(std::move(*swl))); swl.swap(o); }
        break;
      case 'q': ds::waitQuiescent(); ds::log(ev("q", "")); break;
      case 'y': ds::yield(); break;
    }
  }
}

void body(const std::string& line) {
  std::istringstream in(line);
  std::string variant, s;
  in >> variant;
  std::unique_ptr<aslam::ReaderWriterMutex> m;
  if (variant == "f") m.reset(new aslam::ReaderFirstReaderWriterMutex); else m.reset(new aslam::ReaderWriterMutex);
  std::vector<std::thread> th;
  while (in >> s) th.emplace_back([&m, s] { script(m.get(), s); });
  for (std::thread& t : th) t.join();
  call("iu");
  const bool b = m->isInUse();
  ret("iu", b);
  ds::log(ev("q", ""));
}

ex::Program make(const std::string& line) {
  ex::Program p;
  p.desc = line;
  p.extra = std::string("\"rf\":") + (line[0] == 'f' ? "true" : "false");
  p.body = [line] { body(line); };
  return p;
}

}  // namespace

#include "detsched/driver_main.h"
