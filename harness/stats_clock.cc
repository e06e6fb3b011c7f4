#include "stats_world.h"
namespace sw { long long now = 0; }
extern "C" int clock_gettime(clockid_t, struct timespec* ts) __attribute__((visibility("default")));
extern "C" int clock_gettime(clockid_t, struct timespec* ts) {
  ts->tv_sec = 1700000000 + sw::now / 1000000000;
  ts->tv_nsec = sw::now % 1000000000;
  return 0;
}
