// C20: timespec macros against 128-bit integers; clockgettime() with an interposed clock
#include "common_rtm.h"
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>
using namespace vh;
typedef __int128 I;
static struct timespec fake;
static bool faked;
static int calls, bad_clock;
extern "C" int clock_gettime(clockid_t id, struct timespec *ts) noexcept {
  if (!faked) return (int)syscall(SYS_clock_gettime, id, ts);
  calls++;
  if (id != CLOCK_REALTIME && id != CLOCK_MONOTONIC) bad_clock++;
  *ts = fake;
  return 0;
}
extern "C" int timespec_get(struct timespec *ts, int base) noexcept { return base == TIME_UTC && clock_gettime(CLOCK_REALTIME, ts) == 0 ? base : 0; }
static const I G = 1000000000;
static I num(const struct timespec &t) { return (I)t.tv_sec * G + t.tv_nsec; }
static bool norm(const struct timespec &t) { return t.tv_nsec >= 0 && t.tv_nsec < 1000000000L; }
static std::string str(const struct timespec &t) { return sf("%lld.%09ld", (long long)t.tv_sec, t.tv_nsec); }
static struct timespec rnd(Rng &r, const struct timespec *o) {
  struct timespec t;
  if (o && r.chance(15)) return *o;
  switch (r.below(5)) {
  case 0: t.tv_sec = r.range(0, 3); break;
  case 1: t.tv_sec = r.range(0, 2000000000); break;
  case 2: t.tv_sec = r.range(0, 1ll << 61); break;
  case 3: t.tv_sec = (r.range(0, 8) << 31) + r.range(0, 2); break;
  default: t.tv_sec = o ? o->tv_sec + r.range(0, 1) : r.range(0, 100); break;
  }
  switch (r.below(5)) {
  case 0: t.tv_nsec = r.range(0, 2); break;
  case 1: t.tv_nsec = 999999999 - r.range(0, 2); break;
  case 2: t.tv_nsec = o ? o->tv_nsec : 500000000; break;
  case 3: t.tv_nsec = o ? 999999999 - o->tv_nsec + r.range(0, 1) : r.range(0, 999999999); if (t.tv_nsec > 999999999) t.tv_nsec = 999999999; break;
  default: t.tv_nsec = r.range(0, 999999999);
  }
  return t;
}
#define CK(key, cond, det) do { cov("checks"); if (!(cond)) viol(key, sf("%s | ", #cond) + det); } while (0)
int main(int argc, char **argv) {
  init(argc, argv);
  return run_cases([](uint64_t, uint64_t s) {
    Rng r(s);
    struct timespec a = rnd(r, nullptr), b = rnd(r, &a);
    const struct timespec a0 = a, b0 = b;
    I x = num(a), y = num(b);
    std::string ab = str(a) + " and " + str(b);
    Hash h; h.add(a.tv_sec); h.add(a.tv_nsec); h.add(b.tv_sec); h.add(b.tv_nsec);
    // addition: separate result, and result in either operand, and both operands the same
    struct timespec v = {-7, -7};
    timespecadd(&a, &b, &v);
    CK("add", num(v) == x + y && norm(v), ab + " = " + str(v));
    CK("add-operands", num(a) == x && num(b) == y, ab);
    if ((I)a.tv_nsec + b.tv_nsec >= G) cov("carries");
    a = a0; b = b0; timespecadd(&a, &b, &a); CK("add-first", num(a) == x + y && norm(a) && num(b) == y, ab + " = " + str(a));
    a = a0; b = b0; timespecadd(&a, &b, &b); CK("add-second", num(b) == x + y && norm(b) && num(a) == x, ab + " = " + str(b));
    a = a0; if (a.tv_sec < (1ll << 61)) { timespecadd(&a, &a, &a); CK("add-all", num(a) == 2 * x && norm(a), ab + " = " + str(a)); }
    a = a0; b = b0;
    // subtraction
    timespecsub(&a, &b, &v);
    CK("sub", num(v) == x - y && norm(v), ab + " = " + str(v));
    CK("sub-operands", num(a) == x && num(b) == y, ab);
    if (a.tv_nsec < b.tv_nsec) cov("borrows");
    if (x < y) cov("negative");
    a = a0; b = b0; timespecsub(&a, &b, &a); CK("sub-first", num(a) == x - y && norm(a) && num(b) == y, ab + " = " + str(a));
    a = a0; b = b0; timespecsub(&a, &b, &b); CK("sub-second", num(b) == x - y && norm(b) && num(a) == x, ab + " = " + str(b));
    a = a0; timespecsub(&a, &a, &a); CK("sub-all", num(a) == 0 && norm(a), ab);
    a = a0; b = b0;
    // inverse
    timespecadd(&a, &b, &v); timespecsub(&v, &b, &v); CK("inverse", num(v) == x, ab);
    timespecsub(&a, &b, &v); timespecadd(&v, &b, &v); CK("inverse", num(v) == x, ab);
    // comparisons (also of results below zero)
    struct timespec c = a0, d = b0;
    if (r.chance(30)) { timespecsub(&c, &d, &c); timespecsub(&d, &a0, &d); }
    I p = num(c), q = num(d);
    CK("cmp-lt", !!timespeccmp(&c, &d, <) == (p < q), str(c) + " " + str(d));
    CK("cmp-le", !!timespeccmp(&c, &d, <=) == (p <= q), str(c) + " " + str(d));
    CK("cmp-gt", !!timespeccmp(&c, &d, >) == (p > q), str(c) + " " + str(d));
    CK("cmp-ge", !!timespeccmp(&c, &d, >=) == (p >= q), str(c) + " " + str(d));
    CK("cmp-eq", !!timespeccmp(&c, &d, ==) == (p == q), str(c) + " " + str(d));
    CK("cmp-ne", !!timespeccmp(&c, &d, !=) == (p != q), str(c) + " " + str(d));
    // expressions as operands, statement context
    struct timespec arr[3] = {a0, b0, {1, 1}};
    const struct timespec *pa = arr;
    int k = 1;
    if (r.chance(50)) timespecadd(&arr[0], &arr[k], &arr[k + 1]); else timespecadd(pa, pa + k, &arr[2]);
    CK("add-expr", num(arr[2]) == x + y, ab);
    CK("cmp-expr", !!(timespeccmp(pa, pa + k, <)) == (x < y), ab);
    // is-set, clear
    struct timespec z = r.chance(30) ? timespec{0, 0} : r.chance(50) ? timespec{0, a0.tv_nsec} : timespec{a0.tv_sec, 0};
    CK("isset", !!timespecisset(&z) == (num(z) != 0), str(z));
    cov(num(z) ? "set" : "unset");
    timespecclear(&z);
    CK("clear", num(z) == 0 && !timespecisset(&z) && z.tv_sec == 0 && z.tv_nsec == 0, str(z));
    // microseconds
    useconds_t us = r.chance(40) ? r.range(0, 3000000) : r.chance(50) ? (useconds_t)r.next() : (useconds_t)(r.range(0, 4294) * 1000000 + r.range(-1, 1));
    useconds_t us0 = us;
    struct timespec u = {-1, -1};
    useconds_t2timespec(&us, &u);
    CK("microseconds", num(u) == (I)us0 * 1000 && norm(u) && us == us0, sf("%u us = ", us0) + str(u));
    // the clock
    faked = true;
    fake = a0;
    fake.tv_sec = r.chance(50) ? r.range(0, 9200000000ll) : r.range(0, 2) << 31;
    calls = bad_clock = 0;
    const struct timespec f0 = fake;
    timespan now = clockgettime();
    faked = false;
    CK("clock", (I)now == num(f0), sf("clock %s read as %lld", str(f0).c_str(), (long long)now));
    CK("clock", calls >= 1 && !bad_clock, "the system clock was not read");
    if (want_sample()) sample(ab + " clock " + str(f0));
    distinct(h.h);
  });
}
