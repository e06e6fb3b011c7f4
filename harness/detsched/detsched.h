// Deterministic scheduler.  Interposes the pthread primitives of the process it is linked into; while a
// run is active every thread created (directly or indirectly) by the run's body is serialised, and every
// scheduling decision is taken by a strategy.  Quiescence (no thread can move) is observed exactly.
#ifndef VERIF_DETSCHED_H_
#define VERIF_DETSCHED_H_
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace ds {

enum class Strategy { kRandom, kPct, kDfs, kReplay };

struct Config {
  Strategy strategy = Strategy::kRandom;
  uint64_t seed = 1;
  // kRandom: probability (in 1/1000) of switching away from the running thread at a sync point,
  // and at an instrumented memory access.
  int switch_permille = 500;
  int mem_permille = 0;
  int spurious_permille = 0;  // spurious condition variable wake-ups
  int pct_depth = 3;          // kPct: number of priority change points
  int pct_length = 300;       // kPct: assumed number of steps
  int max_steps = 20000;      // afterwards: fair round robin for as many steps, then livelock
  // kDfs/kReplay: decisions to take; beyond its end DFS continues the running thread (or the first).
  std::vector<int> prefix;
};

enum class End { kOk, kDeadlock, kLivelock };

struct Choice {
  int n;        // number of options
  int chosen;   // index taken; options are ordered with the running thread first
  bool cont;    // option 0 is "continue the running thread"
};

struct Result {
  End end = End::kOk;
  std::vector<std::string> events;
  std::vector<Choice> choices;
  int steps = 0;
};

// Runs body in a fresh controlled thread.  If the run does not end with kOk the threads involved stay
// parked for ever and everything they reference is leaked.
Result run(const Config& config, const std::function<void()>& body);

// --- to be called from controlled threads ---
int self();                       // id of the calling controlled thread (0 = body), -1 if uncontrolled
void log(const std::string& ev);  // appends one event
void yield();                     // scheduling point
// Blocks until no other thread can move (or until only threads blocked in waitQuiescent remain), then
// resumes.  Several threads may wait: they are resumed one per quiescent state, lowest id first.
void waitQuiescent();
// Tags the calling thread as being inside API call `op`; a Park event (json given here) is logged the
// first time it blocks on a condition variable inside it.
void beginOp(const std::string& park_event);
void endOp();
// Ids of all controlled threads currently blocked.
struct NoPreempt {  // suppresses scheduling points in its scope
  NoPreempt();
  ~NoPreempt();
};
int numOpsParked();
bool active();
// Record of the run in progress, readable by the parent process even if this one dies.
struct Mirror {
  bool used;            // a run is in progress
  char how[128];
  unsigned ev_len;      // comma separated events
  char ev[1 << 20];
  unsigned n_choices;
  unsigned short choices[1 << 16];
};
void setMirror(Mirror* m);

}  // namespace ds
#endif
