// C05, C06: a push that is held up for long: while it reads the clock, another writer pushes very many times.
// No instrumentation and no log, so that numbers of pushes can be reached after which wide counters come back.
#include "common_rtm.h"
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <setjmp.h>
#include <signal.h>
using namespace vh;
static void (*meanwhile)();
static timespan ticks;     // every reading of the clock is one later
static bool fake;
extern "C" int clock_gettime(clockid_t id, struct timespec *ts) noexcept {
  if (fake) {
    if (meanwhile) { auto f = meanwhile; meanwhile = 0; f(); }
    ticks++;
    ts->tv_sec = ticks / 1000000000; ts->tv_nsec = ticks % 1000000000;
    return 0;
  }
  return (int)syscall(SYS_clock_gettime, id, ts);
}
extern "C" int timespec_get(struct timespec *ts, int base) noexcept { return base == TIME_UTC && clock_gettime(CLOCK_REALTIME, ts) == 0 ? base : 0; }
// The others may wait for the suspended push (C25 allows it) if it reads its clock half-way; then there is nothing to see here.
static sigjmp_buf away;
static volatile bool pushing;
static bool waits;
static volatile uint64_t progress, seen_progress;
static void tick(int) {
  if (pushing && progress == seen_progress) { pushing = false; siglongjmp(away, 1); }
  static uint64_t idle;
  idle = progress == seen_progress ? idle + 1 : 0;
  seen_progress = progress;
  if (idle > 30) on_prof(SIGPROF);
}
typedef Event<uint64_t> Ev;
static const uint64_t MARK = ~0ull;

template <size_t N> struct Far {
  typedef RTML_buffer<Ev, N> B;
  static B *b; static RTML_writer<B> *w1, *w2; static uint64_t K, done, wrong, stamps; static unsigned writers; static bool mixed;
  static void others() {
    Ev e(0, 1000);
    pushing = true;
    for (uint64_t k = 0; k < K; k++) {
      e.setData(done);
      RTML_writer<B> *w = writers > 1 && (k & 1) ? w2 : w1;
      timespan before = ticks;
      { timespan th = 1000; e.setTime(th); }
      typename B::error_t r = mixed && (k & 2) ? w->push(e) : w->push_all(e);
      if (mixed && (k & 2) ? e.getTime() <= before || e.getTime() > ticks : e.getTime() != 1000) stamps++;
      // the suspended push may or may not have taken effect already
      bool must = done >= N, may = done + 1 >= N;
      if (r == b->BUFFER_OVERFLOW ? !may : must) wrong++;
      done++;
      progress = progress + 1;
    }
    pushing = false;
  }
  static void go(Rng &r, uint64_t k, size_t init) {
    K = k; done = 0; wrong = 0; stamps = 0; mixed = !has("exact") || r.chance(50); writers = has("exact") ? 1 : (unsigned)r.range(1, 2);
    b = new B; RTML_writer<B> *w0 = new RTML_writer<B>(*b); w1 = new RTML_writer<B>(*b); w2 = new RTML_writer<B>(*b);
    // who holds the current state when the push starts
    for (size_t i = 0; i < init; i++) { Ev e(done, 1000); (i + 1 == init && !has("exact") && r.chance(30) ? w0 : w1)->push_all(e); done++; }
    std::string how = sf("N=%zu: a push while %s pushed %llu times, after %zu pushes: ", N, writers > 1 ? "two others" : "another", (unsigned long long)k, init);
    Ev e(MARK, 0);
    ticks = r.range(0, 3) * 1000000000ll + 2000; timespan t0 = ticks;
    fake = true; meanwhile = others;
    if (sigsetjmp(away, 1)) { waits = true; fake = false; meanwhile = 0; cov("others_wait"); return; }
    typename B::error_t ra = w0->push(e);
    bool called = !meanwhile; meanwhile = 0; fake = false;
    if (stamps) viol("stamp", how + sf("%llu times of the others are wrong", (unsigned long long)stamps));
    if (e.getTime() <= t0 || e.getTime() > ticks) viol("stamp", how + sf("stamped %lld, the clock went from %lld to %lld", (long long)e.getTime(), (long long)t0 + 1, (long long)ticks));
    cov(called ? "held_up" : "no_clock"); cov("pushes", done);
    if (!called) K = 0;
    if (wrong) viol("overflow", how + sf("%llu overflow results of the other are wrong", (unsigned long long)wrong));
    uint64_t total = done + 1;
    // it takes effect at some point of time between the pushes of the others
    if (ra == b->BUFFER_OVERFLOW ? done < N : init >= N) viol("overflow", how + "overflow result of the push is wrong");
    for (int more = 0; more < 3; more++) {
      size_t want = (size_t)std::min<uint64_t>(total, N), have = b->length();
      if (have != want) { viol("length", how + sf("length %zu instead of %zu", have, want)); break; }
      B *c = new B; *c = *b;
      std::vector<uint64_t> got;
      for (size_t i = 0; i < have; i++) { Ev x(0, 0); c->pull(x); got.push_back(x.getData()); }
      delete c;
      // newest first: done-1, done-2, ... with the mark at most once
      uint64_t next = done; bool seen = false, ok = true;
      for (size_t i = got.size(); i-- > 0;) { if (got[i] == MARK) { if (seen) ok = false; seen = true; } else if (got[i] != --next) ok = false; }
      if (ok && !seen && total <= N) ok = false;
      if (!ok) { std::string s; for (auto v : got) s += v == MARK ? " P" : sf(" %llu", (unsigned long long)v); viol("content", how + "content" + s); break; }
      Ev x(done, 1000); w1->push_all(x); done++; total++;
    }
    if (want_sample()) sample(how + "fine");
    distinct(mix2(mix2(N, k), mix2(init, writers)));
    delete w0; delete w1; delete w2; delete b;
  }
};
template <size_t N> typename Far<N>::B *Far<N>::b; template <size_t N> RTML_writer<typename Far<N>::B> *Far<N>::w1; template <size_t N> RTML_writer<typename Far<N>::B> *Far<N>::w2;
template <size_t N> uint64_t Far<N>::K; template <size_t N> uint64_t Far<N>::done; template <size_t N> uint64_t Far<N>::wrong; template <size_t N> unsigned Far<N>::writers; template <size_t N> bool Far<N>::mixed; template <size_t N> uint64_t Far<N>::stamps;

int main(int argc, char **argv) {
  init(argc, argv);
  int bits = (int)opti("bits", 20);
  signal(SIGPROF, tick);
  return run_cases([&](uint64_t idx, uint64_t seed) {
    if (waits) return;
    struct itimerval it = {{1, 0}, {1, 0}};      // instead of the limit of a case
    setitimer(ITIMER_PROF, &it, 0);
    Rng r(seed);
    uint64_t k;
    if (has("exact")) k = (1ull << bits) - 2 + idx % 5;
    else if (r.chance(30)) k = r.range(0, 40);
    else { k = (1ull << r.range(5, bits)) + r.range(0, 6); if (k >= 3) k -= 3; }
    size_t init = has("exact") ? 1 + idx % 7 : r.range(0, 9);
    switch (idx % 3) { case 0: Far<2>::go(r, k, init); break; case 1: Far<4>::go(r, k, init); break; default: Far<6>::go(r, k, init); }
  });
}
