// C11: the trace cursor. The window is a list (indices of pushed events), the cursor an index into it.
#include "common_rtm.h"
#include <rmtld3/reader.h>
using namespace vh;

template <typename T, size_t N> struct Case {
  typedef Event<T> E;
  typedef RTML_buffer<E, N> B;
  typedef RTML_writer<B> W;
  typedef RTML_reader<B> R;
  typedef RMTLD3_reader<R> X;
  std::unique_ptr<B> b;
  std::unique_ptr<W> w;
  std::unique_ptr<X> x;
  size_t lmem = 5;
  std::vector<E> ev;
  size_t lo = 0, hi = 0, c = 0;    // window [lo, hi) of pushed events, cursor lo..hi
  bool valid = true;               // cursor known: a new reader is at the first event, until its window moves on
  std::map<size_t, size_t> saved;  // event index -> ring cursor seen there
  std::string log;
  const char *tag;
  Hash hs;
  bool bad = false;
  timespan clk = 0;

  Case(const char *t, Rng &r, bool direct) : b(new B()), tag(t) {
    if (!direct) w.reset(new W(*b));
    if (r.chance(50)) x.reset(new X(*b)); else x.reset(new X(*b, lmem));
  }
  void note(const std::string &s) { if (log.size() < 3000) log += s + ";"; }
  std::string pos() { return sf("(window [%zu,%zu) of %zu pushed, cursor %zu)", lo, hi, ev.size(), c); }
  void fail(const char *key, const std::string &d) {
    if (bad) return;
    bad = true;
    viol(key, sf("[%s N=%zu] %s %s | history: ", tag, N, d.c_str(), pos().c_str()) + log);
  }
  void push(const E &e0) {
    E e = e0;
    if (log.size() < 3000) note("push" + show(e));
    if (w) w->push_all(e); else b->push(e);
    ev.push_back(e0);
    if (ev.size() > N && lo < ev.size() - N) valid = false;   // the window lost events; a synchronisation has to follow
  }
  bool lost() { return ev.size() > N && lo < ev.size() - N; }
  void sync() {
    note("sync");
    bool l = lost();
    x->synchronize();
    if (l) { lo = ev.size() - N; valid = false; }
    hi = ev.size();
    if (c > hi) valid = false;
  }
  void reset() {
    note("reset");
    if (x->reset() != X::AVAILABLE) fail("reset", "reset refused");
    if (!lost()) { c = lo; valid = true; }
  }
  void consume() {       // through the plain reader: moves the start of the window
    E e;
    note("R::pull");
    if (x->R::pull(e) == X::AVAILABLE) { lo++; if (c < lo) valid = false; cov("consumed_events"); }
  }
  void check() {
    if (bad || !valid) return;
    if (x->length() != hi - c) fail("length", sf("length() = %zu", x->length()));
    if (x->consumed() != c - lo) fail("consumed", sf("consumed() = %zu", x->consumed()));
    E e;
    if (c < hi) {
      if (x->read(e) != X::AVAILABLE) fail("read-status", "read refused inside the window");
      else if (!same(e, ev[c])) fail("read-value", "read gave " + show(e) + ", expected " + show(ev[c]));
    }
    saved[c] = x->get_cursor();
    typename X::error_t s = x->read_next(e);
    if (s != (c + 1 < hi ? X::AVAILABLE : X::UNAVAILABLE)) fail("next-status", sf("read_next = %d", s));
    else if (c + 1 < hi && !same(e, ev[c + 1])) fail("next-value", "read_next gave " + show(e) + ", expected " + show(ev[c + 1]));
    s = x->read_previous(e);
    if (s != (c > lo ? X::AVAILABLE : X::UNAVAILABLE)) fail("previous-status", sf("read_previous = %d", s));
    else if (c > lo && !same(e, ev[c - 1])) fail("previous-value", "read_previous gave " + show(e) + ", expected " + show(ev[c - 1]));
    hs.add((hi - lo) * 64 + (c - lo) + 4096 * (lo % (N + 1)));
    cov("positions");
  }
  void step(bool fwd) {
    note(fwd ? "inc" : "dec");
    typename X::error_t s = fwd ? x->increment_cursor() : x->decrement_cursor();
    bool can = fwd ? c < hi : c > lo;
    if (s != (can ? X::AVAILABLE : X::UNAVAILABLE)) fail("step-status", sf("%s = %d", fwd ? "increment" : "decrement", s));
    if (can) { if (fwd) c++; else c--; } else cov("refused_steps");
  }
  void pull() {
    note("pull");
    E e(Mk<T>::mk(0xAB), 777), e0 = e;
    typename X::error_t s = x->pull(e);
    if (c < hi) {
      if (!same(e, ev[c])) fail("pull-value", "pull gave " + show(e) + ", expected " + show(ev[c]));
      c++;
    } else if (!same(e, e0)) fail("pull-touched", "pull at the end changed the event");
    if (s != (c < hi ? X::AVAILABLE : X::UNAVAILABLE)) fail("pull-status", sf("pull = %d", s));
  }
  void seek(timespan t) {
    note(sf("set(%lld)", (long long)t));
    size_t want = hi;
    for (size_t i = lo; i + 1 < hi; i++) if (ev[i].getTime() <= t && t < ev[i + 1].getTime()) want = i;
    timespan t0 = t;
    typename X::error_t s = x->set(t);
    if (t != t0) fail("set-arg", "set changed the time");
    if (want < hi) {
      if (s != X::AVAILABLE) fail("set-status", sf("set(%lld) = %d, the event is %zu", (long long)t, s, want));
      cov(want < c ? "seek_back" : want > c ? "seek_forward" : "seek_here");
      if (c == hi) cov("seek_from_end");
      c = want;
    } else {
      if (s != X::UNAVAILABLE) fail("set-status", sf("set(%lld) = %d although no event of the window is followed by a later one", (long long)t, s));
      cov("seek_none");
      // the position after a refused seek is not specified
      x->reset();
      c = lo;
    }
  }
  void jump(Rng &r) {
    if (r.chance(30)) {
      size_t i = N + 1 + (r.chance(50) ? r.below(4) : r.next() >> 2), i0 = i;
      note(sf("set_cursor(%zu)", i));
      size_t before = x->get_cursor();
      if (x->set_cursor(i) != X::UNAVAILABLE) fail("cursor-range", sf("set_cursor(%zu) is not refused", i0));
      if (x->get_cursor() != before) fail("cursor-range", "a refused set_cursor moved the cursor");
      cov("refused_cursor");
      return;
    }
    std::vector<size_t> ok;
    for (auto &p : saved) if (p.first >= lo && p.first <= hi) ok.push_back(p.first);
    if (ok.empty()) return;
    size_t k = ok[r.below(ok.size())], i = saved[k];
    note(sf("set_cursor(%zu)", i));
    if (x->set_cursor(i) != X::AVAILABLE) fail("cursor-set", sf("set_cursor(%zu) refused", i));
    c = k;
    if (x->get_cursor() != i) fail("cursor-get", "get_cursor differs from set_cursor");
    cov("jumps");
  }
};

template <typename T, size_t N> void rnd(Rng &r, const char *tag, size_t life = 0) {
  Case<T, N> c(tag, r, r.chance(50));
  typedef Event<T> E;
  size_t len = r.range(3, N > 1000 ? 25 : 80);
  uint64_t uid = 1;
  unsigned maxgap = r.chance(50) ? 1 : 10;
  auto pushes = [&](int n) { while (n-- > 0) c.push(E(Mk<T>::mk(r.chance(50) ? uid++ : r.below(2)), c.clk += r.range(1, maxgap))); };
  pushes(r.below(3 * N + 3));
  c.sync();
  if (!c.valid || r.chance(50)) c.reset(); else cov("starts_without_reset");
  c.check();
  std::vector<unsigned> w = {1, 1, (unsigned)r.range(0, 1), (unsigned)r.range(1, 5), (unsigned)r.range(1, 5), (unsigned)r.range(1, 4), (unsigned)r.range(1, 6), (unsigned)r.range(0, 3)};
  if (life) { len = life; w[6] = 12; cov("long_lives"); }
  for (size_t k = 0; k < len && !c.bad; k++) {
    while (!c.saved.empty() && c.saved.begin()->first < c.lo) c.saved.erase(c.saved.begin());
    size_t op = r.pick(w);
    switch (op) {
    case 0: pushes(r.chance(70) ? 1 : r.below(N + 2)); if (!c.valid) { c.sync(); c.reset(); } break;
    case 1: c.sync(); if (!c.valid || r.chance(30)) c.reset(); break;
    case 2: c.consume(); if (!c.valid) c.reset(); break;
    case 3: c.step(true); break;
    case 4: c.step(false); break;
    case 5: c.pull(); break;
    case 6: {
      timespan t;
      if (c.hi > c.lo && r.chance(80)) {
        t = c.ev[r.range(c.lo, c.hi - 1)].getTime() + r.range(-1, 1) * (r.chance(50) ? 1 : r.range(0, 5));
      } else t = r.range(0, c.clk + 5);
      if (t < 0) t = 0;
      c.seek(t);
      break;
    }
    case 7: c.jump(r); break;
    }
    c.hs.add(op);
    c.check();
    cov("ops");
  }
  if (want_sample()) sample(sf("%s N=%zu: ", tag, N) + c.log);
  distinct(c.hs.h);
}

// every window size n <= N at every ring offset, with and without further pushes after the synchronisation;
// from every cursor seek to every time
template <size_t N> void enumerate(uint64_t idx) {
  Rng r(idx);
  for (size_t extra = 0; extra <= 2; extra++)
  for (size_t n = 0; n + extra <= N; n++)
    for (size_t from = 0; from <= n; from++)
      for (timespan dt = -3; dt <= (timespan)(2 * n) + 3; dt++) {
        Case<int, N> c("enum", r, idx & 1);
        size_t off = idx >> 1;
        for (size_t k = 0; k < off; k++) c.push(Event<int>(k, c.clk += 2));
        c.sync();
        while (c.lo < c.hi - 1 && c.hi > 0) { size_t l = c.lo; c.consume(); if (c.lo == l) break; }   // one event stays behind
        timespan base = c.clk + 2;
        for (size_t k = 0; k < n; k++) c.push(Event<int>(100 + k, c.clk += 2));
        c.sync();
        c.reset();
        for (size_t k = 0; k < extra; k++) { c.push(Event<int>(200 + k, c.clk += 2)); }
        if (!c.valid) continue;
        for (size_t k = 0; k < from; k++) { c.check(); c.step(true); }
        c.check();
        timespan t = base + dt;
        if (t < 0) t = 0;
        c.seek(t);
        c.check();
        if (c.bad) return;
        cov("ops");
        distinct(mix2(mix2(idx, n * 100 + from), extra * 1000 + dt + N * 100000));
      }
}

int main(int argc, char **argv) {
  init(argc, argv);
  if (has("enum")) return run_cases([&](uint64_t i, uint64_t) {
    switch (i % 3) {
    case 0: enumerate<2>(i / 3); break;
    case 1: enumerate<4>(i / 3); break;
    default: enumerate<6>(i / 3); break;
    }
  });
  return run_cases([](uint64_t idx, uint64_t s) {
    Rng r(s);
    if (idx % 16384 == 33) return r.chance(50) ? rnd<int, 3>(r, "int", 900000) : rnd<uint8_t, 4>(r, "u8", 900000);
    if (idx % 256 == 77) return r.chance(50) ? rnd<int, 65535>(r, "int") : rnd<uint8_t, 70000>(r, "u8");
    if (idx % 16 == 5) return r.chance(50) ? rnd<int, 255>(r, "int") : rnd<uint8_t, 300>(r, "u8");
    switch (r.below(8)) {
    case 0: rnd<int, 1>(r, "int"); break;
    case 1: rnd<int, 2>(r, "int"); break;
    case 2: rnd<int, 3>(r, "int"); break;
    case 3: rnd<uint8_t, 4>(r, "u8"); break;
    case 4: rnd<long long, 5>(r, "ll"); break;
    case 5: rnd<Big, 8>(r, "big"); break;
    case 6: rnd<int, 16>(r, "int"); break;
    default: rnd<int, 40>(r, "int"); break;
    }
  });
}
