#include "probe.h"

#include <setjmp.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/wait.h>
#include <unistd.h>

#include <exception>

#include <glog/logging.h>

namespace seq {
namespace {
void refuse() { _exit(42); }
sigjmp_buf g_back;
void refuseHere() { siglongjmp(g_back, 1); }
void onAbortHere(int) { siglongjmp(g_back, 1); }
void onAbort(int) { _exit(42); }  // failed eigen_assert, cv::error escaping, std::terminate
}
bool accepted(const std::function<void()>& f) {
  const pid_t pid = fork();
  if (pid == 0) {
    google::InstallFailureFunction(reinterpret_cast<void (*)()>(&refuse));
    signal(SIGABRT, onAbort);
    alarm(20);
    try { f(); } catch (...) { _exit(42); }
    _exit(0);
  }
  int status = 0;
  waitpid(pid, &status, 0);
  if (WIFEXITED(status) && WEXITSTATUS(status) == 0) return true;
  if (WIFEXITED(status) && WEXITSTATUS(status) == 42) return false;
  if (getenv("SEQ_VERBOSE")) fprintf(stderr, "probe died: status %d\n", status);
  if (WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM) _exit(98);
  _exit(95);  // memory error or signal: recorded as a crash of this program
}
bool acceptedHere(const std::function<void()>& f) {
  google::InstallFailureFunction(reinterpret_cast<void (*)()>(&refuseHere));
  void (*old)(int) = signal(SIGABRT, onAbortHere);
  volatile bool ok = false;
  if (sigsetjmp(g_back, 1) == 0) {
    try { f(); ok = true; } catch (...) {}
  }
  signal(SIGABRT, old);
  google::InstallFailureFunction(reinterpret_cast<void (*)()>(&abort));
  return ok;
}
}  // namespace seq
