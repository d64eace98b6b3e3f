// The interface of vsched.h on real threads: the library is compiled without instrumentation, optimised, and the
// processor interleaves the accesses. steps() is a shared counter, so that the order of calls and returns is recorded.
// There is no virtual time, no suspension and no blocking here.
#include "vsched.h"
#include <atomic>
#include <mutex>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>

namespace sched {
using vh::Rng;
static const size_t ASIZE = 1 << 20;
static uint8_t *arena;
static size_t used = ASIZE;
void arena_reset(int fill) {
  if (!arena) arena = (uint8_t *)mmap(nullptr, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  memset(arena, fill < 0 ? 0x5a : fill, used);
  used = 0;
}
void *arena_alloc(size_t n, size_t align) {
  size_t p = (used + 64 + align - 1) / align * align;
  if (p + n + 128 > ASIZE) { fprintf(stderr, "arena exhausted\n"); _exit(7); }
  used = p + n;
  return arena + p;
}
void arena_dead(void *p, size_t n) { memset(p, 0xEE, n); }

uint64_t limit_free, limit_fair;
bool points_in_globals;
std::function<void()> on_point;
int64_t now, mono_offset, wake_delay_max;
std::function<int64_t()> on_clock;

static std::atomic<uint64_t> counter;
uint64_t steps() { return counter.fetch_add(1); }
static thread_local int me = -1;
int self() { return me; }
bool in() { return me >= 0; }
static std::recursive_mutex mtx;
NoSched::NoSched() { mtx.lock(); }
NoSched::~NoSched() { mtx.unlock(); }

// a pool of threads that wait for work
static const int MAXT = 12;
struct Task { std::function<void()> f; unsigned wait; };
static std::vector<Task> tasks;
static std::atomic<uint64_t> round_;
static std::atomic<int> busy, wanted, started;
static void pause_(unsigned n) { for (unsigned i = 0; i < n; i++) __builtin_ia32_pause(); }
static uint64_t first_round[MAXT];
static void *body(void *a) {
  me = (int)(intptr_t)a;
  uint64_t seen = first_round[me];
  for (;;) {
    for (int i = 0; round_.load() == seen; i++) { if (i < 2000) __builtin_ia32_pause(); else sched_yield(); }
    seen = round_.load();
    if (me < wanted.load()) {
      started++;
      for (int i = 0; started.load() < wanted.load(); i++) { if (i < 2000) __builtin_ia32_pause(); else sched_yield(); }
      pause_(tasks[me].wait);
      tasks[me].f();
    }
    busy--;
  }
}
int spawn(std::function<void()> f) { tasks.push_back({f, 0}); return (int)tasks.size() - 1; }
void suspend(int) {}
void resume(int) {}
void yield_() { sched_yield(); }
void point() {}
bool block(std::function<bool()>, int64_t) { return true; }
Policy random_policy(Rng &, int, uint64_t) { return Policy(); }
Result run(const Policy &, Rng &r) {
  static int pool = 0;
  if ((int)tasks.size() > MAXT) { fprintf(stderr, "too many threads\n"); _exit(7); }
  while (pool < (int)tasks.size()) {
    pthread_t t;
    first_round[pool] = round_.load();
    if (pthread_create(&t, nullptr, body, (void *)(intptr_t)pool)) { fprintf(stderr, "no thread\n"); _exit(7); }
    pool++;
  }
  for (auto &t : tasks) t.wait = r.chance(50) ? 0 : (unsigned)r.below(60);
  uint64_t c0 = counter.load();
  started = 0; wanted = (int)tasks.size(); busy = pool;
  round_++;
  for (int i = 0; busy.load(); i++) { if (i < 2000) __builtin_ia32_pause(); else sched_yield(); }
  tasks.clear();
  Result res; res.finished = true; res.points = counter.load() - c0;
  vh::cov("native_rounds");
  return res;
}
} // namespace sched
