#include "detsched.h"

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <deque>
#include <map>
#include <memory>
#include <random>
#include <set>

// Real functions.
#define REAL(ret, name, args)          \
  typedef ret(*real_##name##_t) args;       \
  static real_##name##_t real_##name() {      \
    static real_##name##_t f = nullptr;       \
    if (!f) f = reinterpret_cast<real_##name##_t>(dlsym(RTLD_NEXT, #name)); \
    return f;                          \
  }
REAL(int, pthread_mutex_lock, (pthread_mutex_t*))
REAL(int, pthread_mutex_trylock, (pthread_mutex_t*))
REAL(int, pthread_mutex_unlock, (pthread_mutex_t*))
REAL(int, pthread_mutex_timedlock, (pthread_mutex_t*, const struct timespec*))
REAL(int, pthread_cond_wait, (pthread_cond_t*, pthread_mutex_t*))
REAL(int, pthread_cond_timedwait, (pthread_cond_t*, pthread_mutex_t*, const struct timespec*))
REAL(int, pthread_cond_clockwait, (pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*))
REAL(int, pthread_cond_signal, (pthread_cond_t*))
REAL(int, pthread_cond_broadcast, (pthread_cond_t*))
REAL(int, pthread_cond_destroy, (pthread_cond_t*))
REAL(int, pthread_create, (pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))
REAL(int, pthread_join, (pthread_t, void**))
REAL(int, pthread_rwlock_rdlock, (pthread_rwlock_t*))
REAL(int, pthread_rwlock_wrlock, (pthread_rwlock_t*))
REAL(int, pthread_rwlock_tryrdlock, (pthread_rwlock_t*))
REAL(int, pthread_rwlock_trywrlock, (pthread_rwlock_t*))
REAL(int, pthread_rwlock_unlock, (pthread_rwlock_t*))
REAL(int, nanosleep, (const struct timespec*, struct timespec*))
REAL(int, clock_nanosleep, (clockid_t, int, const struct timespec*, struct timespec*))
REAL(int, usleep, (useconds_t))
REAL(int, pthread_once, (pthread_once_t*, void (*)(void)))
REAL(int, sched_yield, (void))

namespace ds {
namespace {

enum class St { kRunnable, kMutex, kCond, kTimedCond, kJoin, kQuiet, kRw, kFutex, kTimedFutex, kDone };

long rawFutex(int* addr, int op, int val) {
  register long r10 asm("r10") = 0;
  long ret;
  asm volatile("syscall" : "=a"(ret)
               : "a"(SYS_futex), "D"(addr), "S"(static_cast<long>(op)), "d"(static_cast<long>(val)), "r"(r10)
               : "rcx", "r11", "memory");
  return ret;
}

struct Baton {  // binary semaphore on a futex
  std::atomic<int> v{0};
  void post() {
    v.store(1);
    rawFutex(reinterpret_cast<int*>(&v), FUTEX_WAKE_PRIVATE, 1);
  }
  void wait() {
    while (v.exchange(0) != 1) {
      rawFutex(reinterpret_cast<int*>(&v), FUTEX_WAIT_PRIVATE, 0);
    }
  }
};

struct Run;

struct Thr {
  int id;
  Run* run;
  St st = St::kRunnable;
  void* obj = nullptr;        // what it is blocked on
  bool want_write = false;    // rwlock
  bool timed_out = false;
  int join_target = -1;
  pthread_t handle{};
  bool detached = false;
  Baton baton;
  int nopreempt = 0;
  std::string park_event;     // non-empty: inside an op, Park not logged yet
  bool in_op = false;
  double prio = 0;
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
};

struct RwState { int readers = 0; bool writer = false; };

struct Run {
  Config cfg;
  Result res;
  std::vector<std::unique_ptr<Thr>> thr;
  std::map<void*, std::pair<int, int>> mutex_owner;  // mutex -> owner id, recursion count
  std::map<void*, RwState> rw;
  std::mt19937_64 rng;
  std::vector<int> pct_points;
  double pct_low = 0;
  bool over = false;
  Baton finished;
  int spurious_left = 8;
};

thread_local Thr* t_self = nullptr;
// Inside the scheduler: template code shared with instrumented objects must not become a preemption point.
thread_local int t_in = 0;
struct In { In() { ++t_in; } ~In() { --t_in; } };
Run* g_run = nullptr;
Mirror* g_mirror = nullptr;

void addEvent(Run* r, const std::string& ev) {
  r->res.events.push_back(ev);
  Mirror* m = g_mirror;
  if (m && m->ev_len + ev.size() + 2 < sizeof(m->ev)) {
    if (m->ev_len) m->ev[m->ev_len++] = ',';
    memcpy(m->ev + m->ev_len, ev.data(), ev.size());
    m->ev_len += ev.size();
  }
}
void addChoice(Run* r, const Choice& c) {
  r->res.choices.push_back(c);
  Mirror* m = g_mirror;
  if (m && m->n_choices < sizeof(m->choices) / sizeof(m->choices[0])) m->choices[m->n_choices++] = c.chosen;
}

bool isMoveable(Run* r, Thr* t) {
  switch (t->st) {
    case St::kRunnable: return true;
    case St::kMutex: return r->mutex_owner.find(t->obj) == r->mutex_owner.end();
    case St::kRw: {
      RwState& s = r->rw[t->obj];
      return t->want_write ? (!s.writer && s.readers == 0) : !s.writer;
    }
    case St::kJoin: return r->thr[t->join_target]->st == St::kDone;
    default: return false;
  }
}

void endRun(Run* r, End e) {
  r->res.end = e;
  r->over = true;
  r->finished.post();
}

[[noreturn]] void parkForever() {
  Baton b;
  while (true) b.wait();
}

// Picks the next thread to run.  `cur` is the calling thread (it may be blocked or done).
// `want_switch`: <0 sync point, >=0: permille for this point.
Thr* pick(Run* r, Thr* cur, bool mem_point) {
  std::vector<Thr*> opts;
  if (cur && isMoveable(r, cur)) opts.push_back(cur);
  const bool cont = !opts.empty();
  for (auto& t : r->thr) if (t.get() != cur && isMoveable(r, t.get())) opts.push_back(t.get());
  if (opts.empty()) {
    // Timed waits fire only when nothing else can move.
    for (auto& t : r->thr) {
      if (t->st == St::kTimedCond || t->st == St::kTimedFutex) {
        t->timed_out = true;
        t->st = St::kRunnable;
        return t.get();
      }
    }
    for (auto& t : r->thr) if (t->st == St::kQuiet) { t->st = St::kRunnable; return t.get(); }
    return nullptr;
  }
  ++r->res.steps;
  if (opts.size() == 1) return opts[0];
  if (r->res.steps > r->cfg.max_steps) {
    if (r->res.steps > 2 * r->cfg.max_steps) return nullptr;
    // fair round robin
    int cid = cur ? cur->id : 0;
    Thr* best = nullptr;
    for (Thr* o : opts) if (o->id > cid && (!best || o->id < best->id)) best = o;
    if (!best) for (Thr* o : opts) if (!best || o->id < best->id) best = o;
    return best;
  }
  size_t k = 0;
  switch (r->cfg.strategy) {
    case Strategy::kRandom: {
      if (cont) {
        const int pm = mem_point ? r->cfg.mem_permille : r->cfg.switch_permille;
        if (static_cast<int>(r->rng() % 1000) < pm) k = 1 + r->rng() % (opts.size() - 1);
      } else {
        k = r->rng() % opts.size();
      }
      break;
    }
    case Strategy::kPct: {
      if (cur) for (int p : r->pct_points) if (p == r->res.steps) cur->prio = (r->pct_low -= 1.0);
      for (size_t i = 1; i < opts.size(); ++i) if (opts[i]->prio > opts[k]->prio) k = i;
      break;
    }
    case Strategy::kDfs:
    case Strategy::kReplay: {
      const size_t i = r->res.choices.size();
      if (i < r->cfg.prefix.size()) k = std::min<size_t>(r->cfg.prefix[i], opts.size() - 1);
      break;
    }
  }
  addChoice(r, Choice{static_cast<int>(opts.size()), static_cast<int>(k), cont});
  return opts[k];
}

// Gives up the baton; returns when the calling thread is scheduled again.
void reschedule(Thr* me, bool mem_point = false) {
  Run* r = me->run;
  if (r->over) parkForever();
  Thr* next = pick(r, me, mem_point);
  if (next == me) return;
  if (next == nullptr) {
    endRun(r, r->res.steps > 2 * r->cfg.max_steps ? End::kLivelock : End::kDeadlock);
    if (me->st == St::kDone) return;
    parkForever();
  }
  const bool done = me->st == St::kDone;  // once the baton is passed *me may vanish
  next->baton.post();
  if (done) return;
  me->baton.wait();
}

void syncPoint() {
  Thr* me = t_self;
  if (me->nopreempt == 0) reschedule(me);
}

// Waits until somebody else has had the chance to move (used where the object waited for is not modelled).
}  // namespace
void yieldHard() {
  In in;
  Thr* me = t_self;
  Run* r = me->run;
  std::vector<Thr*> o;
  for (auto& t : r->thr) if (t.get() != me && isMoveable(r, t.get())) o.push_back(t.get());
  if (o.empty()) { endRun(r, End::kDeadlock); parkForever(); }
  if (++r->res.steps > 2 * r->cfg.max_steps) { endRun(r, End::kLivelock); parkForever(); }
  o[r->rng() % o.size()]->baton.post();
  me->baton.wait();
}

namespace {
void blockOn(Thr* me, St st, void* obj) {
  me->st = st;
  me->obj = obj;
  reschedule(me);
  me->st = St::kRunnable;
  me->obj = nullptr;
}

void lockVirtual(Thr* me, void* m, bool recursive_ok) {
  Run* r = me->run;
  auto it = r->mutex_owner.find(m);
  if (it != r->mutex_owner.end() && it->second.first == me->id && recursive_ok) { ++it->second.second; return; }
  while (r->mutex_owner.find(m) != r->mutex_owner.end()) blockOn(me, St::kMutex, m);
  r->mutex_owner[m] = {me->id, 1};
}

void unlockVirtual(Thr* me, void* m) {
  auto it = me->run->mutex_owner.find(m);
  if (it == me->run->mutex_owner.end()) return;
  if (--it->second.second == 0) me->run->mutex_owner.erase(it);
}

bool isRecursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }

void logPark(Thr* me) {
  if (me->in_op && !me->park_event.empty()) {
    addEvent(me->run, me->park_event);
    me->park_event.clear();
  }
}

void maybeSpurious(Thr* me) {
  Run* r = me->run;
  if (r->cfg.spurious_permille > 0 && r->spurious_left > 0 &&
      static_cast<int>(r->rng() % 1000) < r->cfg.spurious_permille) {
    std::vector<Thr*> w;
    for (auto& t : r->thr) if (t->st == St::kCond || t->st == St::kTimedCond) w.push_back(t.get());
    if (!w.empty()) { --r->spurious_left; w[r->rng() % w.size()]->st = St::kRunnable; }
  }
}

int condWait(Thr* me, void* c, pthread_mutex_t* m, bool timed) {
  logPark(me);
  unlockVirtual(me, m);
  me->timed_out = false;
  me->st = timed ? St::kTimedCond : St::kCond;
  me->obj = c;
  const int np = me->nopreempt; me->nopreempt = 0;
  reschedule(me);
  me->nopreempt = np;
  me->st = St::kRunnable;
  me->obj = nullptr;
  lockVirtual(me, m, false);
  return timed && me->timed_out ? ETIMEDOUT : 0;
}

void wake(Thr* me, void* c, bool all) {
  Run* r = me->run;
  std::vector<Thr*> w;
  for (auto& t : r->thr) if ((t->st == St::kCond || t->st == St::kTimedCond) && t->obj == c) w.push_back(t.get());
  if (w.empty()) return;
  if (all) { for (Thr* t : w) t->st = St::kRunnable; return; }
  size_t k = 0;
  if (w.size() > 1) {
    if (r->cfg.strategy == Strategy::kRandom || r->cfg.strategy == Strategy::kPct) {
      k = r->rng() % w.size();
    } else {
      const size_t i = r->res.choices.size();
      if (i < r->cfg.prefix.size()) k = std::min<size_t>(r->cfg.prefix[i], w.size() - 1);
    }
    addChoice(r, Choice{static_cast<int>(w.size()), static_cast<int>(k), false});
  }
  w[k]->st = St::kRunnable;
}

void* trampoline(void* p) {
  Thr* me = static_cast<Thr*>(p);
  me->baton.wait();
  t_self = me;
  t_in = 0;
  void* ret = me->fn(me->arg);
  t_in = 1;
  t_self = nullptr;
  Run* r = me->run;
  me->st = St::kDone;
  if (me->id == 0) {  // body finished: the run is over once every thread is done
  }
  bool all_done = true;
  for (auto& t : r->thr) if (t->st != St::kDone) all_done = false;
  if (all_done) { endRun(r, End::kOk); return ret; }
  if (!r->over) reschedule(me);
  return ret;
}

Thr* newThread(Run* r, void* (*fn)(void*), void* arg) {
  std::unique_ptr<Thr> t(new Thr);
  t->id = static_cast<int>(r->thr.size());
  t->run = r;
  t->fn = fn;
  t->arg = arg;
  t->prio = 1.0 + static_cast<double>(r->rng() % 1000000) / 1e6;
  r->thr.push_back(std::move(t));
  return r->thr.back().get();
}

void* bodyThunk(void* p) { (*static_cast<std::function<void()>*>(p))(); return nullptr; }

}  // namespace

Result run(const Config& config, const std::function<void()>& body) {
  Run* r = new Run;
  r->cfg = config;
  r->rng.seed(config.seed * 0x9E3779B97F4A7C15ull + 12345);
  if (config.strategy == Strategy::kPct) {
    for (int i = 0; i < config.pct_depth; ++i) r->pct_points.push_back(1 + r->rng() % std::max(1, config.pct_length));
  }
  g_run = r;
  std::function<void()>* b = new std::function<void()>(body);
  Thr* t = newThread(r, bodyThunk, b);
  real_pthread_create()(&t->handle, nullptr, trampoline, t);
  t->baton.post();
  r->finished.wait();
  Result res = r->res;
  if (r->res.end == End::kOk) {
    real_pthread_join()(t->handle, nullptr);
    for (auto& x : r->thr) if (x->id != 0 && x->detached) { /* finished on its own */ }
    delete b;
    g_run = nullptr;
    static std::deque<Run*> graveyard;  // threads may still be leaving the trampoline
    graveyard.push_back(r);
    if (graveyard.size() > 64) { delete graveyard.front(); graveyard.pop_front(); }
  } else {
    g_run = nullptr;
  }
  return res;
}

int self() { return t_self ? t_self->id : -1; }
bool active() { return t_self != nullptr; }
void log(const std::string& ev) { In in; if (t_self) addEvent(t_self->run, ev); }
void setMirror(Mirror* m) { g_mirror = m; }
void yield() { In in; if (t_self) syncPoint(); }
void waitQuiescent() {
  Thr* me = t_self;
  if (!me) return;
  In in;
  me->st = St::kQuiet;
  reschedule(me);
  me->st = St::kRunnable;
}
void beginOp(const std::string& p) { In in; if (t_self) { t_self->in_op = true; t_self->park_event = p; } }
void endOp() { In in; if (t_self) { t_self->in_op = false; t_self->park_event.clear(); } }
NoPreempt::NoPreempt() { if (t_self) ++t_self->nopreempt; }
NoPreempt::~NoPreempt() { if (t_self) --t_self->nopreempt; }


// Instrumented memory access.
void memPoint() {
  Thr* me = t_self;
  if (me == nullptr || t_in != 0 || me->nopreempt != 0) return;
  In in;
  Run* r = me->run;
  if (r->cfg.mem_permille == 0 || (r->cfg.strategy != Strategy::kRandom)) return;
  if (r->over) return;
  if (static_cast<int>(r->rng() % 1000) >= r->cfg.mem_permille) return;
  const int saved = r->cfg.mem_permille;
  r->cfg.mem_permille = 1000;  // the decision to switch has been taken
  Run* rr = r;
  // pick() consults mem_permille; restore before anyone else runs.
  Thr* next = pick(rr, me, true);
  rr->cfg.mem_permille = saved;
  if (next == me) return;
  if (next == nullptr) { endRun(rr, End::kLivelock); parkForever(); }
  next->baton.post();
  me->baton.wait();
}

}  // namespace ds

// ------------------------------------------------------------------------------------------------
using ds::t_self;
extern "C" {

int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!t_self) return real_pthread_mutex_lock()(m);
  ds::In in;
  ds::syncPoint();
  ds::lockVirtual(t_self, m, ds::isRecursive(m));
  return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) {
  if (!t_self) return real_pthread_mutex_timedlock()(m, ts);
  ds::In in;
  return pthread_mutex_lock(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!t_self) return real_pthread_mutex_trylock()(m);
  ds::In in;
  ds::syncPoint();
  auto it = t_self->run->mutex_owner.find(m);
  if (it != t_self->run->mutex_owner.end()) {
    if (it->second.first == t_self->id && ds::isRecursive(m)) { ++it->second.second; return 0; }
    return EBUSY;
  }
  t_self->run->mutex_owner[m] = {t_self->id, 1};
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!t_self) return real_pthread_mutex_unlock()(m);
  ds::In in;
  ds::unlockVirtual(t_self, m);
  ds::syncPoint();
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!t_self) return real_pthread_cond_wait()(c, m);
  ds::In in;
  return ds::condWait(t_self, c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  if (!t_self) return real_pthread_cond_timedwait()(c, m, ts);
  ds::In in;
  return ds::condWait(t_self, c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) {
  if (!t_self) return real_pthread_cond_clockwait()(c, m, k, ts);
  ds::In in;
  return ds::condWait(t_self, c, m, true);
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (!t_self) return real_pthread_cond_signal()(c);
  ds::In in;
  ds::syncPoint();
  ds::wake(t_self, c, false);
  ds::maybeSpurious(t_self);
  ds::syncPoint();
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!t_self) return real_pthread_cond_broadcast()(c);
  ds::In in;
  ds::syncPoint();
  ds::wake(t_self, c, true);
  ds::maybeSpurious(t_self);
  ds::syncPoint();
  return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
  // glibc blocks here while waiters exist; virtual waiters are unknown to it.
  if (!t_self) return real_pthread_cond_destroy()(c);
  ds::In in;
  return 0;
}
int pthread_create(pthread_t* h, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  if (!t_self) return real_pthread_create()(h, a, fn, arg);
  ds::In in;
  ds::Thr* t = ds::newThread(t_self->run, fn, arg);
  const int rc = real_pthread_create()(&t->handle, a, ds::trampoline, t);
  *h = t->handle;
  ds::syncPoint();
  return rc;
}
int pthread_join(pthread_t h, void** ret) {
  if (!t_self) return real_pthread_join()(h, ret);
  ds::In in;
  ds::Run* r = t_self->run;
  for (auto& t : r->thr) {
    if (t->id != t_self->id && !t->detached && t->handle == h) {
      ds::logPark(t_self);
      while (t->st != ds::St::kDone) {
        t_self->join_target = t->id;
        ds::blockOn(t_self, ds::St::kJoin, t.get());
      }
      t->detached = true;
      return real_pthread_join()(h, ret);
    }
  }
  return real_pthread_join()(h, ret);
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  if (!t_self) return real_pthread_rwlock_rdlock()(l);
  ds::In in;
  ds::syncPoint();
  while (t_self->run->rw[l].writer) { t_self->want_write = false; ds::blockOn(t_self, ds::St::kRw, l); }
  ++t_self->run->rw[l].readers;
  return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
  if (!t_self) return real_pthread_rwlock_tryrdlock()(l);
  ds::In in;
  ds::syncPoint();
  if (t_self->run->rw[l].writer) return EBUSY;
  ++t_self->run->rw[l].readers;
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  if (!t_self) return real_pthread_rwlock_wrlock()(l);
  ds::In in;
  ds::syncPoint();
  while (t_self->run->rw[l].writer || t_self->run->rw[l].readers > 0) {
    t_self->want_write = true;
    ds::blockOn(t_self, ds::St::kRw, l);
  }
  t_self->run->rw[l].writer = true;
  return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
  if (!t_self) return real_pthread_rwlock_trywrlock()(l);
  ds::In in;
  ds::syncPoint();
  if (t_self->run->rw[l].writer || t_self->run->rw[l].readers > 0) return EBUSY;
  t_self->run->rw[l].writer = true;
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  if (!t_self) return real_pthread_rwlock_unlock()(l);
  ds::In in;
  ds::RwState& s = t_self->run->rw[l];
  if (s.writer) s.writer = false; else if (s.readers > 0) --s.readers;
  ds::syncPoint();
  return 0;
}
// Futexes used directly by libstdc++ (std::future, atomic wait).
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a[6];
  for (int i = 0; i < 6; ++i) a[i] = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && t_self) {
    ds::In in;
    int* addr = reinterpret_cast<int*>(a[0]);
    const int op = static_cast<int>(a[1]) & FUTEX_CMD_MASK;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      ds::syncPoint();
      if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != static_cast<int>(a[2])) { errno = EAGAIN; return -1; }
      ds::logPark(t_self);
      t_self->timed_out = false;
      ds::blockOn(t_self, a[3] ? ds::St::kTimedFutex : ds::St::kFutex, addr);
      if (t_self->timed_out) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      long woken = 0;
      for (auto& t : t_self->run->thr)
        if ((t->st == ds::St::kFutex || t->st == ds::St::kTimedFutex) && t->obj == addr && woken < a[2]) {
          t->st = ds::St::kRunnable;
          ++woken;
        }
      ds::syncPoint();
      return woken;
    }
  }
  register long r10 asm("r10") = a[3];
  register long r8 asm("r8") = a[4];
  register long r9 asm("r9") = a[5];
  long ret;
  asm volatile("syscall" : "=a"(ret) : "a"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9)
               : "rcx", "r11", "memory");
  if (ret < 0 && ret > -4096) { errno = static_cast<int>(-ret); return -1; }
  return ret;
}
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  if (!t_self) return real_pthread_once()(o, fn);
  ds::In in;
  volatile int* v = reinterpret_cast<volatile int*>(o);
  static std::set<void*> busy;
  while (*v != 2 && busy.count(o)) ds::yieldHard();
  if (*v == 2) return 0;
  busy.insert(o);
  const int depth = ds::t_in;
  ds::t_in = 0;
  try { fn(); } catch (...) { ds::t_in = depth; busy.erase(o); throw; }
  ds::t_in = depth;
  *v = 2;
  busy.erase(o);
  return 0;
}
int nanosleep(const struct timespec* a, struct timespec* b) {
  if (!t_self) return real_nanosleep()(a, b);
  ds::In in;
  ds::syncPoint();
  return 0;
}
int clock_nanosleep(clockid_t k, int f, const struct timespec* a, struct timespec* b) {
  if (!t_self) return real_clock_nanosleep()(k, f, a, b);
  ds::In in;
  ds::syncPoint();
  return 0;
}
int usleep(useconds_t u) {
  if (!t_self) return real_usleep()(u);
  ds::In in;
  ds::syncPoint();
  return 0;
}
int sched_yield(void) __THROW {
  if (!t_self) return real_sched_yield()();
  ds::In in;
  ds::syncPoint();
  return 0;
}

}  // extern "C"
