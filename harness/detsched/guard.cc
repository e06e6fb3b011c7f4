// Function-local static initialisation under the deterministic scheduler: the library's version blocks in
// a futex the scheduler would not know about.
#include <sched.h>
namespace ds { bool active(); void yieldHard(); }
extern "C" {
int __cxa_guard_acquire(long* g) {
  volatile char* b = reinterpret_cast<volatile char*>(g);
  if (b[0]) return 0;
  while (b[1]) { if (ds::active()) ds::yieldHard(); else sched_yield(); }
  if (b[0]) return 0;
  b[1] = 1;
  return 1;
}
void __cxa_guard_release(long* g) {
  volatile char* b = reinterpret_cast<volatile char*>(g);
  __atomic_store_n(reinterpret_cast<char*>(g), 1, __ATOMIC_RELEASE);
  b[1] = 0;
}
void __cxa_guard_abort(long* g) { reinterpret_cast<volatile char*>(g)[1] = 0; }
}
