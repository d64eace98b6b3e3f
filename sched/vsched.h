// A deterministic scheduler for the real code. The code under test is compiled with -fsanitize=thread, whose hooks
// (every load, store and atomic operation) are implemented in sched.cpp: an access to the shared arena is a point at
// which the running coroutine can be preempted. Interleavings are sequentially consistent.
#ifndef VERIF_SCHED_H
#define VERIF_SCHED_H
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
#include "h.h"

namespace sched {

// ---- arena of shared objects
void arena_reset(int fill);                          // all objects dead, memory filled with the byte (or junk if < 0)
void *arena_alloc(size_t n, size_t align = 64);      // with red zones
void arena_dead(void *p, size_t n);                  // later accesses are reported
template <typename T, typename... A> T *make(A &&... a) { return new (arena_alloc(sizeof(T))) T(static_cast<A &&>(a)...); }
template <typename T> void destroy(T *p) { p->~T(); arena_dead(p, sizeof(T)); }

// ---- schedules
enum Kind { RANDOM, PCT, LIST, STARVE };
struct Policy {
  Kind kind = RANDOM;
  unsigned switch_pct = 20;                          // RANDOM: chance of a preemption at a point
  int victim = 0; uint64_t own = 1, rest = 100;      // STARVE: the victim gets `own` points in turn with `rest` points of the others, even if these yield
  std::vector<uint64_t> changes;                     // PCT: points at which the running thread drops to the lowest priority
  std::vector<int> prio;
  struct Pre { uint64_t at; int to; };
  std::vector<Pre> pre;                              // LIST: at point number `at` preempt in favour of thread `to` (mod others)
  int first = 0;                                     // LIST: first thread
};
struct Result {
  bool finished = false;      // every thread returned
  bool livelock = false, deadlock = false;
  uint64_t points = 0, switches = 0;
  uint64_t trace = 0;         // hash of the schedule (which thread ran from which point)
  bool aba = false;           // a 64-bit compare-and-swap succeeded on a value that had changed and come back
  std::string bad;            // access outside a live object
};

extern uint64_t limit_free, limit_fair;              // points before the fair phase, and in it
extern bool points_in_globals;                       // accesses to static variables are points too
extern std::function<void()> on_point;               // called (with scheduling off) at every point, if set
int spawn(std::function<void()> f);
Result run(const Policy &p, vh::Rng &r);
int self();                                          // running thread, -1 outside
bool in();                                           // inside a coroutine
uint64_t steps();                                    // points so far: a clock for calls and returns
void point();                                        // an explicit scheduling point
// a suspended thread does not run again until it is resumed
void suspend(int t);
void resume(int t);
void yield_();                                       // let the others go first
// block until wake returns true (checked by the scheduler) or virtual time reaches `until` (< 0: no limit)
bool block(std::function<bool()> wake, int64_t until = -1);
struct NoSched { NoSched(); ~NoSched(); };           // no scheduling points in this scope

// ---- virtual time in ns, used by clock_gettime inside coroutines
extern int64_t now;
extern std::function<int64_t()> on_clock;            // the reading of the clock (default: now)
extern int64_t mono_offset;                          // CLOCK_MONOTONIC reads this much less
extern int64_t wake_delay_max;                       // a timed block ends this much late at most (0: exactly)

Policy random_policy(vh::Rng &r, int threads, uint64_t expected_points);
} // namespace sched
#endif
