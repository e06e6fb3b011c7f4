// Explores the schedules of one client program and emits the distinct executions as JSON lines.
#ifndef VERIF_EXPLORE_H_
#define VERIF_EXPLORE_H_
#include <functional>
#include <string>
#include <vector>
#include <unistd.h>
#include "detsched.h"

namespace ex {

struct Budget {
  int dfs_bound = 2;        // preemption bound
  int dfs_execs = 300;      // maximum executions of the systematic part
  int random_execs = 100;   // sync-point random walks
  int mem_execs = 60;       // random walks with preemption at memory accesses
  int pct_execs = 40;
  int spurious_execs = 20;
  uint64_t seed = 1;
  int max_traces = 100000;  // distinct traces emitted per program
  int hang_seconds = 60;
};

struct Program {
  std::string desc;   // JSON string literal body (no quotes inside)
  std::string extra;  // extra JSON members, e.g. "\"n\":3" (may be empty)
  std::function<void()> body;
};

// Runs `make(i)` for i in [0,n) in forked workers (jobs at a time), writing out_dir/part.<i>.
// Each line: {"prog":i,"desc":"..","how":"..",<extra>,"count":k,"ev":[..]}.
// A final line {"prog":i,"stats":{...}} gives the number of executions.
int exploreAll(int n, const std::function<Program(int)>& make, const Budget& budget,
               const std::string& out_dir, int jobs);

// Re-executes one schedule: how = "rnd:seed:switch:mem:spurious" | "pct:seed" | "dfs:c,c,c".
std::vector<std::string> replay(const Program& p, const std::string& how);

}  // namespace ex
#endif
