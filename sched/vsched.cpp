// see vsched.h. This file is compiled without instrumentation.
#include "vsched.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <ctime>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

extern "C" char __data_start, _end;
namespace sched {
using vh::Rng;

// ------------------------------------------------------------------ arena
static const size_t ASIZE = 1 << 20;
static uint8_t *arena, *shadow;
static size_t used;
static uint8_t *abase() {
  if (!arena) {
    arena = (uint8_t *)mmap(nullptr, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    shadow = (uint8_t *)mmap(nullptr, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    used = ASIZE;
  }
  return arena;
}
void arena_reset(int fill) {
  abase();
  static uint64_t junk = 88172645463325252ull;
  for (size_t i = 0; i < used; i += 8) {
    junk ^= junk << 13; junk ^= junk >> 7; junk ^= junk << 17;
    uint64_t v = fill < 0 ? junk : 0x0101010101010101ull * (uint8_t)fill;
    memcpy(arena + i, &v, 8);
  }
  memset(shadow, 0, used);
  used = 0;
}
void *arena_alloc(size_t n, size_t align) {
  abase();
  size_t p = (used + 64 + align - 1) / align * align;
  if (p + n + 128 > ASIZE) { fprintf(stderr, "arena exhausted\n"); _exit(7); }
  memset(shadow + p, 1, n);
  used = (p + n + 64 + 7) / 8 * 8;
  return arena + p;
}
void arena_dead(void *p, size_t n) {
  size_t o = (uint8_t *)p - arena;
  memset(shadow + o, 0, n);
  memset(p, 0xEE, n);
}

// ------------------------------------------------------------------ coroutines
extern "C" void verif_swap(void **save, void *to);
asm(".text\n.globl verif_swap\n.type verif_swap,@function\nverif_swap:\n"
    "push %rbp\npush %rbx\npush %r12\npush %r13\npush %r14\npush %r15\n"
    "mov %rsp,(%rdi)\nmov %rsi,%rsp\n"
    "pop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\npop %rbp\nret\n");

struct Th {
  std::function<void()> f;
  void *sp = nullptr;
  uint8_t *stack = nullptr;
  bool done = false, blocked = false, yielded = false, frozen = false;
  std::function<bool()> wake;
  int64_t until = -1;
  bool timed_out = false;
  int prio = 0;
};
static const size_t STK = 128 * 1024;
static std::vector<uint8_t *> free_stacks;
static std::vector<Th *> th;
static void *main_sp;
static int cur = -1;
static int off = 0;
static bool running = false;
static Policy pol;
static Rng *rng;
static Result res;
static uint64_t npoints;
static bool fair = false;
static uint64_t fair_quantum;
static int low_prio;
static uint64_t turn_used; static bool turn_of_victim;
static size_t pre_i;
static bool any_step_since_yield;
// versions of 64-bit atomics: how often they were written, and how often they had been when a thread last read them
struct Seen { const volatile void *a; uint64_t ver; std::vector<uint64_t> by; };
static std::vector<Seen> atomics;
uint64_t limit_free = 60000, limit_fair = 400000;
std::function<void()> on_point;
bool points_in_globals = false;
int64_t now = 0;
std::function<int64_t()> on_clock;
int64_t wake_delay_max = 0, mono_offset = 0;

int self() { return cur; }
bool in() { return cur >= 0; }
uint64_t steps() { return npoints; }
NoSched::NoSched() { off++; }
NoSched::~NoSched() { off--; }

static void entry() {
  Th *t = th[cur];
  t->f();
  t->done = true;
  void *dummy;
  verif_swap(&dummy, main_sp);
  abort();
}
int spawn(std::function<void()> f) {
  Th *t = new Th();
  t->f = std::move(f);
  if (free_stacks.empty()) {
    t->stack = (uint8_t *)mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(t->stack, 4096, PROT_NONE);
  } else { t->stack = free_stacks.back(); free_stacks.pop_back(); }
  uint64_t *s = (uint64_t *)(t->stack + STK - 64);
  *--s = 0;                       // alignment
  *--s = (uint64_t)entry;
  for (int i = 0; i < 6; i++) *--s = 0;
  t->sp = s;
  t->prio = pol.prio.size() > th.size() ? pol.prio[th.size()] : (int)(running && rng ? rng->below(1000) : th.size());
  th.push_back(t);
  return (int)th.size() - 1;
}
static void to_main() {
  Th *t = th[cur];
  verif_swap(&t->sp, main_sp);
}
static bool ready(Th *t) {
  if (t->done || t->frozen) return false;
  if (!t->blocked) return true;
  bool w = false;
  if (t->wake) { off++; w = t->wake(); off--; }
  if (w) { t->blocked = false; t->timed_out = false; return true; }
  if (t->until >= 0 && now >= t->until) { t->blocked = false; t->timed_out = true; return true; }
  return false;
}
// pick the next thread to run, or -1
static int pick(int prev, bool preempted) {
  std::vector<int> r;
  for (int k = 0; k < 2; k++) {
    for (size_t i = 0; i < th.size(); i++) if (ready(th[i])) r.push_back((int)i);
    if (!r.empty()) break;
    // nobody can run: time passes until the first deadline
    int64_t t = -1;
    for (Th *x : th) if (!x->done && !x->frozen && x->blocked && x->until >= 0 && (t < 0 || x->until < t)) t = x->until;
    if (t < 0) return -1;
    if (t > now) now = t;
  }
  if (r.empty()) return -1;
  if (r.size() == 1) return r[0];
  if (pol.kind == STARVE && !fair) {
    int v = pol.victim % (int)th.size();
    if (turn_of_victim) { for (int i : r) if (i == v) return v; }
    r.erase(std::remove(r.begin(), r.end(), v), r.end());
    for (int i : r) if (i == prev && !th[i]->yielded) return i;
    return r[rng->below(r.size())];
  }
  std::vector<int> c;
  for (int i : r) if (!th[i]->yielded) c.push_back(i);
  if (c.empty()) {                                // everybody yielded: start over
    for (int i : r) th[i]->yielded = false;
    c = r;
    if (c.size() > 1) c.erase(std::remove(c.begin(), c.end(), prev), c.end());
  }
  if (fair) {
    for (size_t k = 1; k <= th.size(); k++) { int i = (int)((prev + k) % th.size()); if (std::find(c.begin(), c.end(), i) != c.end()) return i; }
    return c[0];
  }
  switch (pol.kind) {
  case PCT: {
    int b = c[0];
    for (int i : c) if (th[i]->prio > th[b]->prio) b = i;
    return b;
  }
  case LIST: {
    if (!preempted && std::find(c.begin(), c.end(), prev) != c.end()) return prev;
    for (size_t k = 1; k <= th.size(); k++) { int i = (int)((prev + k) % th.size()); if (std::find(c.begin(), c.end(), i) != c.end()) return i; }
    return c[0];
  }
  default: return c[rng->below(c.size())];
  }
}
static void pt() {
  if (cur < 0 || off) return;
  npoints++;
  if (on_point) { off++; on_point(); off--; }
  if (th[cur]->frozen) { to_main(); return; }
  bool sw = false;
  if (npoints > limit_free) {
    fair = true;
    if (npoints > limit_free + limit_fair) { to_main(); return; }      // main gives up
    sw = ++fair_quantum % 16 == 0;
  } else switch (pol.kind) {
  case RANDOM: sw = rng->chance(pol.switch_pct); break;
  case PCT:
    for (uint64_t c : pol.changes) if (c == npoints) { th[cur]->prio = --low_prio; sw = true; }
    break;
  case STARVE: {
    bool v = cur == pol.victim % (int)th.size();
    if (v != turn_of_victim) { turn_of_victim = v; turn_used = 0; }      // the other side had nothing to run
    if (++turn_used >= (v ? pol.own : pol.rest)) { turn_used = 0; turn_of_victim = !v; sw = true; }
    break;
  }
  case LIST: sw = pre_i < pol.pre.size() && pol.pre[pre_i].at <= npoints; break;
  }
  if (sw) to_main();
  else for (Th *t : th) if (t->yielded && t != th[cur]) { t->yielded = false; }
}
void suspend(int t) { th[t]->frozen = true; }
void resume(int t) { th[t]->frozen = false; }
void point() { pt(); }
void yield_() {
  if (cur < 0 || off) return;
  th[cur]->yielded = true;
  if (pol.kind == PCT) th[cur]->prio = --low_prio;
  npoints++;
  if (npoints > limit_free) fair = true;
  if (pol.kind == STARVE && turn_of_victim == (cur == pol.victim % (int)th.size()) && ++turn_used >= (turn_of_victim ? pol.own : pol.rest)) { turn_used = 0; turn_of_victim = !turn_of_victim; }
  to_main();
}
bool block(std::function<bool()> wake, int64_t until) {
  if (cur < 0) return true;
  Th *t = th[cur];
  if (until >= 0 && wake_delay_max > 0) until += rng->chance(50) ? 0 : (int64_t)rng->below(wake_delay_max + 1);
  t->wake = std::move(wake);
  t->until = until;
  t->blocked = true;
  npoints++;
  to_main();
  return !t->timed_out;
}

Result run(const Policy &p, Rng &r) {
  pol = p;
  rng = &r;
  res = Result();
  npoints = 0;
  atomics.clear();
  fair = false;
  fair_quantum = 0;
  low_prio = 0;
  turn_used = 0; turn_of_victim = true;
  pre_i = 0;
  running = true;
  for (size_t i = 0; i < th.size(); i++) if (pol.prio.size() > i) th[i]->prio = pol.prio[i];
  vh::Hash h;
  int prev = pol.kind == LIST ? pol.first % (int)th.size() : 0;
  bool first = true, preempted = false;
  for (;;) {
    int n;
    if (first && pol.kind == LIST) n = prev;
    else if (preempted && pol.kind == LIST && !fair) {
      // the wanted target among the other runnable threads
      std::vector<int> c;
      for (size_t i = 0; i < th.size(); i++) if ((int)i != prev && ready(th[i])) c.push_back((int)i);
      n = c.empty() ? pick(prev, false) : c[pol.pre[pre_i - 1].to % c.size()];
    } else n = pick(prev, preempted);
    first = false;
    if (n < 0) break;
    if (npoints > limit_free + limit_fair) break;
    if (n != prev) { res.switches++; }
    h.add(npoints * 8 + n);
    for (Th *t : th) if (t != th[n] && t->yielded) t->yielded = !(th[n]->yielded == false);
    th[n]->yielded = false;
    cur = n;
    uint64_t before = npoints;
    verif_swap(&main_sp, th[n]->sp);
    cur = -1;
    prev = n;
    preempted = false;
    if (!res.bad.empty()) break;
    if (pol.kind == LIST && !fair && pre_i < pol.pre.size() && pol.pre[pre_i].at <= npoints && !th[n]->done && !th[n]->blocked && !th[n]->yielded) { pre_i++; preempted = true; }
    (void)before;
  }
  res.points = npoints;
  res.trace = h.h;
  res.finished = true;
  bool blocked = false;
  for (Th *t : th) if (!t->done) { res.finished = false; if (t->blocked) blocked = true; }
  if (!res.finished && res.bad.empty()) {
    if (npoints > limit_free + limit_fair) res.livelock = true;
    else res.deadlock = blocked;
  }
  for (Th *t : th) { free_stacks.push_back(t->stack); delete t; }    // abandoned coroutines are never resumed; what they own leaks
  th.clear();
  running = false;
  pol = Policy();
  return res;
}

Policy random_policy(Rng &r, int n, uint64_t expected) {
  Policy p;
  if (r.chance(10)) {
    p.kind = STARVE;
    p.victim = (int)r.below(n);
    p.own = r.range(1, r.chance(70) ? 8 : 40);
    p.rest = r.chance(30) ? r.range(1, 15) : r.chance(60) ? r.range(15, 80) : r.range(80, 1500);
  } else if (r.chance(45)) {
    p.kind = RANDOM;
    static const unsigned w[] = {60, 35, 20, 10, 5, 2};
    p.switch_pct = w[r.below(6)];
  } else {
    p.kind = PCT;
    int d = (int)r.range(1, 5);
    for (int i = 0; i < d; i++) p.changes.push_back(1 + r.below(expected));
    for (int i = 0; i < n; i++) p.prio.push_back(100 + i);
    for (int i = n - 1; i > 0; i--) std::swap(p.prio[i], p.prio[r.below(i + 1)]);
  }
  return p;
}

static inline void access(const void *a, size_t n, const char *what) {
  if (cur < 0) return;
  size_t o = (const uint8_t *)a - arena;
  if (points_in_globals && (const char *)a >= &__data_start && (const char *)a < &_end) { pt(); return; }
  if (!arena || o >= ASIZE) return;
  for (size_t i = 0; i < n; i++)
    if (!shadow[o + i]) {
      if (res.bad.empty()) res.bad = vh::sf("%s of %zu bytes at arena offset %zu outside every live object, by thread %d", what, n, o, cur);
      to_main();
    }
  pt();
}

static Seen *seen(const volatile void *a) {
  if (cur < 0 || off) return nullptr;
  for (Seen &s : atomics) if (s.a == a) return &s;
  atomics.push_back({a, 1, {}});
  return &atomics.back();
}
void did_read(const volatile void *a) { if (Seen *s = seen(a)) { if ((int)s->by.size() <= cur) s->by.resize(cur + 1); s->by[cur] = s->ver; } }
void did_write(const volatile void *a) { if (Seen *s = seen(a)) s->ver++; }
void did_swap(const volatile void *a) {
  if (Seen *s = seen(a)) { if ((int)s->by.size() > cur && s->by[cur] && s->by[cur] != s->ver) res.aba = true; s->ver++; }
}
} // namespace sched

// ------------------------------------------------------------------ instrumentation entry points
using sched::access;
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n)                                                                                                    \
  void __tsan_read##n(void *a) { access(a, n, "read"); }                                                         \
  void __tsan_write##n(void *a) { access(a, n, "write"); }                                                       \
  void __tsan_read_write##n(void *a) { access(a, n, "read-write"); }                                             \
  void __tsan_unaligned_read##n(void *a) { access(a, n, "read"); }                                               \
  void __tsan_unaligned_write##n(void *a) { access(a, n, "write"); }                                             \
  void __tsan_volatile_read##n(void *a) { access(a, n, "read"); }                                                \
  void __tsan_volatile_write##n(void *a) { access(a, n, "write"); }                                              \
  void __tsan_unaligned_volatile_read##n(void *a) { access(a, n, "read"); }                                      \
  void __tsan_unaligned_volatile_write##n(void *a) { access(a, n, "write"); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { access(a, n, "read"); }
void __tsan_write_range(void *a, size_t n) { access(a, n, "write"); }
void __tsan_vptr_update(void **a, void *) { access(a, 8, "write"); }
void __tsan_vptr_read(void **a) { access(a, 8, "read"); }
typedef __int128 i128;
#define NONE(a)
#define AT(n, T, RD, WR, SW)                                                                                                 \
  T __tsan_atomic##n##_load(const volatile T *a, int) { access((void *)a, n / 8, "atomic load"); RD(a); return *a; }    \
  void __tsan_atomic##n##_store(volatile T *a, T v, int) { access((void *)a, n / 8, "atomic store"); WR(a); *a = v; }   \
  T __tsan_atomic##n##_exchange(volatile T *a, T v, int) { access((void *)a, n / 8, "atomic exchange"); WR(a); T o = *a; *a = v; return o; } \
  T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int) { access((void *)a, n / 8, "atomic add"); WR(a); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int) { access((void *)a, n / 8, "atomic sub"); WR(a); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int) { access((void *)a, n / 8, "atomic and"); WR(a); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int) { access((void *)a, n / 8, "atomic or"); WR(a); T o = *a; *a = o | v; return o; }   \
  T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int) { access((void *)a, n / 8, "atomic xor"); WR(a); T o = *a; *a = o ^ v; return o; } \
  T __tsan_atomic##n##_fetch_nand(volatile T *a, T v, int) { access((void *)a, n / 8, "atomic nand"); WR(a); T o = *a; *a = ~(o & v); return o; } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { access((void *)a, n / 8, "atomic cas"); T o = *a; if (o == *c) { SW(a); *a = v; return 1; } RD(a); *c = o; return 0; } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *c, T v, int x, int y) { return __tsan_atomic##n##_compare_exchange_strong(a, c, v, x, y); } \
  T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T c, T v, int, int) { access((void *)a, n / 8, "atomic cas"); T o = *a; if (o == c) { SW(a); *a = v; } else RD(a); return o; }
AT(8, uint8_t, NONE, NONE, NONE) AT(16, uint16_t, NONE, NONE, NONE) AT(32, uint32_t, NONE, NONE, NONE)
AT(64, uint64_t, sched::did_read, sched::did_write, sched::did_swap) AT(128, i128, NONE, NONE, NONE)
void __tsan_atomic_thread_fence(int) { sched::point(); }
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ yields and the clock
int sched_yield() {
  if (!sched::in()) return (int)syscall(SYS_sched_yield);
  sched::yield_();
  return 0;
}
int pthread_yield() { return sched_yield(); }
int clock_gettime(clockid_t id, struct timespec *ts) {
  if (!sched::in() && !sched::on_clock) return (int)syscall(SYS_clock_gettime, id, ts);
  sched::point();
  int64_t v = sched::on_clock ? sched::on_clock() : sched::now;
  if (id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW || id == CLOCK_MONOTONIC_COARSE || id == CLOCK_BOOTTIME) v -= sched::mono_offset;
  ts->tv_sec = v / 1000000000;
  ts->tv_nsec = v % 1000000000;
  return 0;
}
int timespec_get(struct timespec *ts, int base) { return base == TIME_UTC && clock_gettime(CLOCK_REALTIME, ts) == 0 ? base : 0; }
}
