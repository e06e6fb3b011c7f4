#include "explore.h"

#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <unordered_map>

namespace ex {
namespace {

int g_fd = -1;
std::string g_head;     // JSON members identifying the program

std::string joinEvents(const std::vector<std::string>& ev) {
  std::string s = "[";
  for (size_t i = 0; i < ev.size(); ++i) { if (i) s += ","; s += ev[i]; }
  return s + "]";
}

void writeAll(const std::string& s) {
  size_t o = 0;
  while (o < s.size()) {
    const ssize_t k = ::write(g_fd, s.data() + o, s.size() - o);
    if (k <= 0) break;
    o += static_cast<size_t>(k);
  }
}

std::string choicesString(const std::vector<ds::Choice>& c) {
  std::string s = "dfs:";
  for (size_t i = 0; i < c.size(); ++i) { if (i) s += ","; s += std::to_string(c[i].chosen); }
  return s;
}

ds::Mirror* g_mirror = nullptr;

// The parent completes the record of a run that dies (see reportDeath).
void onFatal(int sig) { _exit(sig == SIGALRM ? 98 : 99); }

struct Found { std::string how; std::string end; int count; std::vector<std::string> ev; };

const char* endName(ds::End e) {
  return e == ds::End::kOk ? "ok" : e == ds::End::kDeadlock ? "deadlock" : "livelock";
}

std::vector<std::string> finish(ds::Result* r) {
  if (r->end == ds::End::kDeadlock) r->events.push_back("{\"e\":\"q\"}");
  if (r->end == ds::End::kLivelock) r->events.push_back("{\"e\":\"livelock\"}");
  return r->events;
}

std::string head(int index, const Program& p) {
  return "\"prog\":" + std::to_string(index) + ",\"desc\":\"" + p.desc + "\"" + (p.extra.empty() ? "" : "," + p.extra);
}

void work(int index, const Program& p, const Budget& b) {
  signal(SIGABRT, onFatal);
  signal(SIGSEGV, onFatal);
  signal(SIGBUS, onFatal);
  signal(SIGFPE, onFatal);
  signal(SIGILL, onFatal);
  signal(SIGALRM, onFatal);
  g_head = head(index, p);
  std::unordered_map<std::string, size_t> seen;
  std::vector<Found> found;
  int execs = 0, bad = 0;
  long steps = 0;
  // Every phase has its own share of the executions that are kept; failing ones always are.
  int limit = 0;
  auto phase = [&](double share) { limit = static_cast<int>(found.size() + std::max(1.0, share * b.max_traces)); };
  auto once = [&](const ds::Config& c, const std::string& how) {
    strncpy(g_mirror->how, how.c_str(), sizeof(g_mirror->how) - 1);
    g_mirror->ev_len = g_mirror->n_choices = 0;
    g_mirror->used = true;
    alarm(b.hang_seconds);
    ds::Result r = ds::run(c, p.body);
    alarm(0);
    g_mirror->used = false;
    ++execs;
    steps += r.steps;
    if (r.end != ds::End::kOk) ++bad;
    std::vector<std::string> ev = finish(&r);
    const std::string key = joinEvents(ev);
    auto it = seen.find(key);
    if (it == seen.end()) {
      if (static_cast<int>(found.size()) < limit || r.end != ds::End::kOk) {
        seen[key] = found.size();
        found.push_back(Found{how == "dfs" ? choicesString(r.choices) : how, endName(r.end), 1, ev});
      }
    } else {
      ++found[it->second].count;
    }
    return r;
  };
  const int kMaxBad = 12;
  // Systematic: depth first with a bound on preemptions, smallest bounds first.
  phase(0.4);
  bool dfs_complete = false;
  int dfs_execs = 0;
  for (int bound = 0; bound <= b.dfs_bound && bad < kMaxBad && dfs_execs < b.dfs_execs; ++bound) {
    std::vector<int> prefix;
    while (dfs_execs < b.dfs_execs && bad < kMaxBad) {
      ds::Config c;
      c.strategy = ds::Strategy::kDfs;
      c.prefix = prefix;
      const ds::Result r = once(c, "dfs");
      ++dfs_execs;
      int i = static_cast<int>(r.choices.size()) - 1;
      std::vector<int> pre(r.choices.size() + 1, 0);
      for (size_t k = 0; k < r.choices.size(); ++k)
        pre[k + 1] = pre[k] + ((r.choices[k].cont && r.choices[k].chosen > 0) ? 1 : 0);
      for (; i >= 0; --i) {
        const ds::Choice& ch = r.choices[i];
        if (ch.chosen + 1 >= ch.n) continue;
        if (ch.cont && pre[i] + 1 > bound) continue;
        break;
      }
      if (i < 0) { if (bound == b.dfs_bound) dfs_complete = true; break; }
      prefix.clear();
      for (int k = 0; k < i; ++k) prefix.push_back(r.choices[k].chosen);
      prefix.push_back(r.choices[i].chosen + 1);
    }
  }
  auto rnd = [&](int k, int sw, int mem, int sp) {
    ds::Config c;
    c.strategy = ds::Strategy::kRandom;
    c.seed = b.seed * 1000003 + index * 7919 + k;
    c.switch_permille = sw;
    c.mem_permille = mem;
    c.spurious_permille = sp;
    once(c, "rnd:" + std::to_string(c.seed) + ":" + std::to_string(sw) + ":" + std::to_string(mem) + ":" +
                std::to_string(sp));
  };
  phase(0.15);
  const int sws[] = {100, 300, 500, 800};
  for (int k = 0; k < b.random_execs && bad < kMaxBad; ++k) rnd(k, sws[k % 4], 0, 0);
  phase(0.3);
  const int mems[] = {10, 40, 120, 300};
  for (int k = 0; k < b.mem_execs && bad < kMaxBad; ++k) rnd(100000 + k, sws[(k / 4) % 4], mems[k % 4], 0);
  phase(0.05);
  for (int k = 0; k < b.spurious_execs && bad < kMaxBad; ++k) rnd(200000 + k, sws[k % 4], 0, 300);
  phase(0.1);
  for (int k = 0; k < b.pct_execs && bad < kMaxBad; ++k) {
    ds::Config c;
    c.strategy = ds::Strategy::kPct;
    c.seed = b.seed * 1000003 + index * 7919 + 300000 + k;
    c.pct_depth = 1 + k % 4;
    c.pct_length = 150;
    once(c, "pct:" + std::to_string(c.seed) + ":" + std::to_string(c.pct_depth));
  }
  std::string out;
  for (const Found& f : found) {
    out += "{" + g_head + ",\"how\":\"" + f.how + "\",\"end\":\"" + f.end + "\",\"count\":" +
           std::to_string(f.count) + ",\"ev\":" + joinEvents(f.ev) + "}\n";
  }
  out += "{\"prog\":" + std::to_string(index) + ",\"stats\":{\"execs\":" + std::to_string(execs) + ",\"steps\":" +
         std::to_string(steps) + ",\"distinct\":" + std::to_string(found.size()) + ",\"dfs_complete\":" +
         (dfs_complete ? "true" : "false") + ",\"bad\":" + std::to_string(bad) + "}}\n";
  writeAll(out);
  _exit(0);
}

// Writes the record of a run during which the process died or made no step for a long time.
bool reportDeath(int index, const Program& p, const ds::Mirror& m, bool hang, const std::string& out_dir) {
  std::string how = m.how;
  if (how == "dfs") {
    how = "dfs:";
    for (unsigned i = 0; i < m.n_choices; ++i) how += (i ? "," : "") + std::to_string(m.choices[i]);
  }
  const char* end = hang ? "hang" : "crash";
  std::string s = "{" + head(index, p) + ",\"how\":\"" + how + "\",\"end\":\"" + end + "\",\"count\":1,\"ev\":[" +
                  std::string(m.ev, m.ev_len) + (m.ev_len ? "," : "") + "{\"e\":\"" + end + "\"}]}\n";
  g_fd = open((out_dir + "/part." + std::to_string(index)).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  if (g_fd < 0) return false;
  writeAll(s);
  close(g_fd);
  return true;
}

}  // namespace

int exploreAll(int n, const std::function<Program(int)>& make, const Budget& budget,
               const std::string& out_dir, int jobs) {
  std::map<pid_t, int> running;
  int next = 0, failed = 0;
  std::vector<ds::Mirror*> slots, all;
  std::map<pid_t, ds::Mirror*> mirror;
  for (int i = 0; i < jobs; ++i) {
    void* m = mmap(nullptr, sizeof(ds::Mirror), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    slots.push_back(static_cast<ds::Mirror*>(m));
  }
  while (next < n || !running.empty()) {
    while (next < n && static_cast<int>(running.size()) < jobs) {
      fflush(nullptr);
      ds::Mirror* m = slots.back();
      slots.pop_back();
      m->used = false;
      const pid_t pid = fork();
      if (pid == 0) {
        g_mirror = m;
        ds::setMirror(m);
        struct rlimit rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        g_fd = open((out_dir + "/part." + std::to_string(next)).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        int null_fd = open("/dev/null", O_WRONLY);
        dup2(null_fd, 2);
        work(next, make(next), budget);
      }
      mirror[pid] = m;
      running[pid] = next++;
    }
    int status = 0;
    const pid_t done = waitpid(-1, &status, 0);
    if (done > 0 && running.count(done)) {
      ds::Mirror* m = mirror[done];
      mirror.erase(done);
      slots.push_back(m);
      if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0)) {
        const bool killed = WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL;
        if (!m->used || killed || !reportDeath(running[done], make(running[done]), *m,
                                              WIFEXITED(status) && WEXITSTATUS(status) == 98, out_dir)) {
          ++failed;
          fprintf(stderr, "worker %d ended abnormally (status %d)\n", running[done], status);
        }
      }
      running.erase(done);
    }
  }
  return failed;
}

std::vector<std::string> replay(const Program& p, const std::string& how) {
  ds::Config c;
  std::vector<std::string> parts;
  std::stringstream ss(how);
  std::string item;
  while (std::getline(ss, item, ':')) parts.push_back(item);
  if (parts[0] == "rnd") {
    c.strategy = ds::Strategy::kRandom;
    c.seed = std::stoull(parts[1]);
    c.switch_permille = std::stoi(parts[2]);
    c.mem_permille = std::stoi(parts[3]);
    c.spurious_permille = std::stoi(parts[4]);
  } else if (parts[0] == "pct") {
    c.strategy = ds::Strategy::kPct;
    c.seed = std::stoull(parts[1]);
    c.pct_depth = std::stoi(parts[2]);
    c.pct_length = 150;
  } else {
    c.strategy = ds::Strategy::kReplay;
    if (parts.size() > 1) {
      std::stringstream cs(parts[1]);
      while (std::getline(cs, item, ',')) c.prefix.push_back(std::stoi(item));
    }
  }
  ds::Result r = ds::run(c, p.body);
  return finish(&r);
}

}  // namespace ex
