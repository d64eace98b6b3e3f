// see vpthread.h. Compiled without instrumentation. Outside coroutines everything succeeds without effect.
#include "vpthread.h"
#include <cerrno>
#include <ctime>
#include <map>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>

namespace vpt {
unsigned spurious_pct = 0;
uint64_t spurious = 0, late = 0;
std::string bad;
static vh::Rng *rng;
struct T { int co, creator; bool done = false, detached = false, joined = false; void *ret = nullptr; int64_t at = 0; uint64_t step = 0; };
struct M { bool init = false; int owner = -1; int kind = PTHREAD_MUTEX_DEFAULT; int depth = 0; };
struct C { bool init = false; clockid_t clock = CLOCK_REALTIME; uint64_t seq = 0; std::vector<uint64_t *> waiters; };
static std::vector<T *> ts;
static std::map<const void *, M> ms;
static std::map<const void *, C> cs;
static std::map<const void *, clockid_t> attrs;
void reset(vh::Rng *r) { rng = r; for (T *t : ts) delete t; ts.clear(); ms.clear(); cs.clear(); attrs.clear(); bad.clear(); spurious = late = 0; }
int created() { return (int)ts.size(); }
int last_created() { return ts.empty() ? -1 : ts.back()->co; }
Ended ended(int n) { return n < (int)ts.size() ? Ended{ts[n]->done, ts[n]->at, ts[n]->step} : Ended{false, 0, 0}; }
int of_creator(int co) { for (size_t i = 0; i < ts.size(); i++) if (ts[i]->creator == co) return (int)i; return -1; }
static void misuse(const std::string &s) { if (bad.empty()) bad = s; }
void sleep_until(int64_t t) {
  int64_t w = sched::wake_delay_max; sched::wake_delay_max = 0;
  sched::block(nullptr, t);
  sched::wake_delay_max = w;
}
static bool zero(const void *p, size_t n) { const uint8_t *b = (const uint8_t *)p; for (size_t i = 0; i < n; i++) if (b[i]) return false; return true; }
static M &mtx(pthread_mutex_t *m, const char *what) {
  M &x = ms[m];
  if (!x.init) { if (!zero(m, sizeof *m)) misuse(vh::sf("%s of a mutex that has not been initialised", what)); x.init = true; }
  return x;
}
static C &cnd(pthread_cond_t *c, const char *what) {
  C &x = cs[c];
  if (!x.init) { if (!zero(c, sizeof *c)) misuse(vh::sf("%s on a condition variable that has not been initialised", what)); x.init = true; }
  return x;
}
static void lock(pthread_mutex_t *m) {
  int me = sched::self();
  M *x = &mtx(m, "lock");
  if (x->owner == me) { if (x->kind == PTHREAD_MUTEX_RECURSIVE) { x->depth++; return; } }
  if (x->owner >= 0) sched::block([x] { return x->owner < 0; });
  x->owner = me; x->depth = 1;
}
static void unlock(pthread_mutex_t *m) {
  M &x = mtx(m, "unlock");
  if (x.owner != sched::self()) misuse("unlock of a mutex by a thread that does not hold it");
  if (--x.depth <= 0) x.owner = -1;
}
static int64_t of(const struct timespec *t) { return (int64_t)t->tv_sec * 1000000000 + t->tv_nsec; }
static bool valid(const struct timespec *t) { return t->tv_nsec >= 0 && t->tv_nsec < 1000000000; }
static int wait(pthread_cond_t *c, pthread_mutex_t *m, int64_t until) {     // until: realtime, or -1
  C *x = &cnd(c, "wait");
  M &y = mtx(m, "wait with");
  if (y.owner != sched::self()) misuse("wait with a mutex the thread does not hold");
  if (until >= 0 && until <= sched::now) {
    int d = y.depth; y.owner = -1; sched::point(); lock(m); ms[m].depth = d;
    return ETIMEDOUT;
  }
  uint64_t woken = 0;
  x->waiters.push_back(&woken);
  int d = y.depth; y.owner = -1;
  int64_t lim = until;
  bool sp = false;
  if (rng && rng->chance(spurious_pct)) {
    int64_t span = until < 0 ? 1000000 : until - sched::now;
    lim = sched::now + (rng->chance(30) ? 0 : (int64_t)rng->below((uint64_t)span + 1)); sp = true;
    if (lim >= until && until >= 0) { lim = until; sp = false; }
  }
  bool ok;
  if (sp) { int64_t w = sched::wake_delay_max; sched::wake_delay_max = 0; ok = sched::block([&woken] { return woken != 0; }, lim); sched::wake_delay_max = w; }
  else ok = sched::block([&woken] { return woken != 0; }, lim);
  for (size_t i = 0; i < x->waiters.size(); i++) if (x->waiters[i] == &woken) { x->waiters.erase(x->waiters.begin() + i); break; }
  lock(m); ms[m].depth = d;
  if (ok) return 0;
  if (sp) { spurious++; return 0; }
  return ETIMEDOUT;
}
static int64_t conv(clockid_t id, const struct timespec *t) {
  int64_t v = of(t);
  return id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? v : v + sched::mono_offset;
}
} // namespace vpt
using namespace vpt;

extern "C" {
int pthread_create(pthread_t *th, const pthread_attr_t *, void *(*f)(void *), void *arg) {
  T *t = new T();
  ts.push_back(t);
  *th = (pthread_t)ts.size();
  t->creator = sched::self();
  t->co = sched::spawn([t, f, arg] { t->ret = f(arg); sched::NoSched ns; t->done = true; t->at = sched::now; t->step = sched::steps(); });
  sched::point();
  return 0;
}
int pthread_join(pthread_t th, void **ret) {
  size_t i = (size_t)th - 1;
  if (i >= ts.size()) { misuse("join of a thread that was never created"); return ESRCH; }
  T *t = ts[i];
  if (t->joined || t->detached) { misuse("join of a thread that was joined or detached before"); return EINVAL; }
  t->joined = true;
  sched::point();
  if (!t->done) sched::block([t] { return t->done; });
  if (ret) *ret = t->ret;
  return 0;
}
int pthread_detach(pthread_t th) { size_t i = (size_t)th - 1; if (i < ts.size()) ts[i]->detached = true; return 0; }
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) { sched::point(); ms[m] = M(); ms[m].init = true; return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) { sched::point(); if (ms.count(m) && ms[m].owner >= 0) misuse("destruction of a locked mutex"); ms.erase(m); return 0; }
int pthread_mutex_lock(pthread_mutex_t *m) { if (!sched::in()) return 0; sched::point(); lock(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) { if (!sched::in()) return 0; sched::point(); M &x = mtx(m, "trylock"); if (x.owner >= 0) return EBUSY; x.owner = sched::self(); x.depth = 1; return 0; }
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) {
  if (!sched::in()) return 0;
  sched::point(); M *x = &mtx(m, "lock");
  if (x->owner >= 0 && !sched::block([x] { return x->owner < 0; }, of(t))) return ETIMEDOUT;
  x->owner = sched::self(); x->depth = 1; return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) { if (!sched::in()) return 0; unlock(m); sched::point(); return 0; }
int pthread_condattr_init(pthread_condattr_t *a) { attrs[a] = CLOCK_REALTIME; return 0; }
int pthread_condattr_destroy(pthread_condattr_t *a) { attrs.erase(a); return 0; }
int pthread_condattr_setclock(pthread_condattr_t *a, clockid_t c) { attrs[a] = c; return 0; }
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { sched::point(); cs[c] = C(); cs[c].init = true; if (a && attrs.count(a)) cs[c].clock = attrs[a]; return 0; }
int pthread_cond_destroy(pthread_cond_t *c) { sched::point(); cs.erase(c); return 0; }
int pthread_cond_signal(pthread_cond_t *c) { sched::point(); C &x = cnd(c, "signal"); for (auto *w : x.waiters) if (!*w) { *w = 1; break; } return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { sched::point(); C &x = cnd(c, "broadcast"); for (auto *w : x.waiters) *w = 1; return 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!sched::in()) return 0; sched::point(); return wait(c, m, -1); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) {
  if (!sched::in()) return 0;
  sched::point();
  if (!valid(t)) return EINVAL;
  int64_t u = conv(cnd(c, "wait").clock, t);
  return wait(c, m, u < 0 ? 0 : u);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t id, const struct timespec *t) {
  if (!sched::in()) return 0;
  sched::point();
  if (!valid(t)) return EINVAL;
  int64_t u = conv(id, t);
  return wait(c, m, u < 0 ? 0 : u);
}
int nanosleep(const struct timespec *t, struct timespec *) {
  if (!sched::in()) return 0;
  if (!valid(t) || t->tv_sec < 0) { errno = EINVAL; return -1; }
  sched::block(nullptr, sched::now + of(t));
  return 0;
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec *t, struct timespec *) {
  if (!sched::in()) return 0;
  if (!valid(t)) return EINVAL;
  int64_t u = flags & TIMER_ABSTIME ? conv(id, t) : sched::now + of(t);
  sched::block(nullptr, u < 0 ? 0 : u);
  return 0;
}
int usleep(useconds_t u) { if (!sched::in()) return 0; sched::block(nullptr, sched::now + (int64_t)u * 1000); return 0; }
unsigned sleep(unsigned s) { if (!sched::in()) return 0; sched::block(nullptr, sched::now + (int64_t)s * 1000000000); return 0; }
}
