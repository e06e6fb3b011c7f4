// Drives aslam::ThreadPool.
//   threadpool <out_dir> <programs file> <seed> <scale> | threadpool replay "<program>" "<how>"
// A program: "<workers> <main script> [<client script>...]"; a script is a list of tokens:
//   E<g><kind> enqueue a task in group g (0: none); kinds: p plain, y yields, x throws, q holds its worker until
//              nothing else can move, n enqueues another task, s stops the pool, a queries the active count
//   w wait for empty queue, s stop, a active count, q wait for quiescence, f look at own futures, g get own
//   futures, y yield
#include <aslam/common/thread-pool.h>

#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <thread>

#include "detsched/explore.h"

namespace {

std::string num(long v) { return std::to_string(v); }
std::string me() { return "\"t\":" + num(ds::self()); }

void call(const std::string& o, const std::string& rest = "") {
  ds::NoPreempt np;
  ds::log("{\"e\":\"c\"," + me() + ",\"o\":\"" + o + "\"" + rest + "}");
  ds::beginOp("{\"e\":\"p\"," + me() + "}");
}
void ret(const std::string& o, const std::string& rest = "") {
  ds::NoPreempt np;
  ds::endOp();
  ds::log("{\"e\":\"r\"," + me() + ",\"o\":\"" + o + "\"" + rest + "}");
}

struct World {
  std::unique_ptr<aslam::ThreadPool> pool;
  aslam::ThreadPool* raw = nullptr;
  int next = 1;
};

struct Client {
  World* w;
  std::vector<std::pair<int, std::future<int>>> futures;

  void enqueue(int g, char kind);

  void look(bool block) {
    for (auto& f : futures) {
      if (!f.second.valid()) continue;
      int v = -2;
      if (block || f.second.wait_for(std::chrono::seconds(0)) == std::future_status::ready) {
        try { v = f.second.get(); }
        catch (const std::future_error&) { v = -3; }
        catch (const std::runtime_error&) { v = -1; }
        catch (...) { v = -4; }
      }
      ds::NoPreempt np;
      ds::log("{\"e\":\"u\"," + me() + ",\"k\":" + num(f.first) + ",\"v\":" + num(v) + "}");
    }
  }

  void step(const std::string& tok) {
    switch (tok[0]) {
      case 'E': enqueue(tok[1] - '0', tok[2]); break;
      case 'w': call("wait"); w->raw->waitForEmptyQueue(); ret("wait"); break;
      case 's': call("stop"); w->raw->stop(); ret("stop"); break;
      case 'a': { call("act"); const size_t n = w->raw->numActiveThreads(); ret("act", ",\"v\":" + num(n)); break; }
      case 'q': ds::waitQuiescent(); ds::log("{\"e\":\"q\"}"); break;
      case 'f': look(false); break;
      case 'g': look(true); break;
      case 'y': ds::yield(); break;
    }
  }
};

int task(World* w, int k, char kind, int a) {
  {
    ds::NoPreempt np;
    ds::endOp();
    ds::log("{\"e\":\"s\"," + me() + ",\"k\":" + num(k) + ",\"a\":" + num(a) + "}");
  }
  Client c{w, {}};
  switch (kind) {
    case 'y': ds::yield(); ds::yield(); break;
    case 'q': c.step("q"); break;
    case 'n': c.step("E0p"); break;
    case 'm': c.step("E1p"); break;
    case 's': c.step("s"); break;
    case 'a': c.step("a"); break;
    default: break;
  }
  {
    ds::NoPreempt np;
    ds::log("{\"e\":\"f\"," + me() + ",\"k\":" + num(k) + "}");
  }
  if (kind == 'x') throw std::runtime_error("task");
  return 2 * a + 1;
}

void Client::enqueue(int g, char kind) {
  int k, a;
  {
    ds::NoPreempt np;
    k = w->next++;
    a = 10 * k + 3;
  }
  World* world = w;
  auto fn = [world, k, kind](int x) { return task(world, k, kind, x); };
  call("enq", ",\"k\":" + num(k) + ",\"g\":" + num(g) + ",\"a\":" + num(a) + ",\"x\":" + (kind == 'x' ? "true" : "false"));
  std::future<int> f = g == 0 ? w->raw->enqueue(fn, a) : w->raw->enqueueOrdered(static_cast<size_t>(g - 1), fn, a);
  ret("enq", std::string(",\"k\":") + num(k) + ",\"v\":" + (f.valid() ? "true" : "false"));
  a = -77;  // the pool must have copied its argument
  futures.emplace_back(k, std::move(f));
}

std::vector<std::string> tokens(const std::string& s) {
  std::vector<std::string> r;
  for (size_t i = 0; i < s.size();) {
    const size_t n = s[i] == 'E' ? 3 : 1;
    r.push_back(s.substr(i, n));
    i += n;
  }
  return r;
}

void body(const std::string& line) {
  std::istringstream in(line);
  size_t workers;
  std::string main_script, s;
  in >> workers >> main_script;
  World w;
  w.pool.reset(new aslam::ThreadPool(workers));
  w.raw = w.pool.get();
  std::vector<std::unique_ptr<Client>> clients;
  std::vector<std::thread> th;
  while (in >> s) {
    clients.emplace_back(new Client{&w, {}});
    Client* c = clients.back().get();
    th.emplace_back([c, s] { for (const std::string& t : tokens(s)) c->step(t); });
  }
  Client c{&w, {}};
  for (const std::string& t : tokens(main_script)) c.step(t);
  for (std::thread& t : th) t.join();
  call("dtor");
  w.pool.reset();
  ret("dtor");
  c.look(false);
  for (auto& x : clients) x->look(false);
}

ex::Program make(const std::string& line) {
  ex::Program p;
  p.desc = line;
  p.extra = "\"n\":" + line.substr(0, line.find(' '));
  p.body = [line] { body(line); };
  return p;
}

}  // namespace

#include "detsched/driver_main.h"
