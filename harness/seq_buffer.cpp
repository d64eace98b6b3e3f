// C01: ring buffer against a deque model (single thread).
#include "common_rtm.h"
using namespace vh;

template <typename T, size_t N> struct Case {
  typedef Event<T> E;
  typedef RTML_buffer<E, N> B;
  std::unique_ptr<B> buf;
  std::vector<std::unique_ptr<RTML_writer<B>>> ws;
  std::deque<E> m;
  unsigned writers = 0;
  std::string log;
  const char *tag;
  Hash hs;
  bool bad = false;

  Case(const char *t) : buf(new B()), tag(t) {}
  ~Case() { ws.clear(); }
  void note(const std::string &s) { if (log.size() < 3000) log += s + ";"; }
  void fail(const char *key, const std::string &d) {
    if (bad) return;
    bad = true;
    viol(key, sf("[%s N=%zu writers=%u] %s | history: ", tag, N, writers, d.c_str()) + log);
  }
  const char *okname() { return writers > 1 ? "UNSAFE" : "OK"; }
  typename B::error_t okval() { return writers > 1 ? B::UNSAFE : B::OK; }

  void attach(Rng &r) {
    note("attach");
    writers++;
    if (r.chance(50)) buf->increment_writer();
    else ws.emplace_back(new RTML_writer<B>(*buf));
  }
  void push(const E &e) {
    if (log.size() < 3000) note("push" + show(e));
    bool full = m.size() == N;
    typename B::error_t r = buf->push(e);
    m.push_back(e);
    if (full) { m.pop_front(); cov("overflows"); }
    if (full && r != B::BUFFER_OVERFLOW) fail("push-status", sf("push into a full buffer returned %d", r));
    if (!full && r != okval()) fail("push-status", sf("push with %zu/%zu held returned %d, expected %s", m.size() - 1, N, r, okname()));
  }
  void take(bool back) {
    E e(Mk<T>::mk(0xAB), 77777), before = e;
    note(back ? "pop" : "pull");
    typename B::error_t r = back ? buf->pop(e) : buf->pull(e);
    if (m.empty()) {
      if (r != B::EMPTY) fail("empty-status", sf("%s on an empty buffer returned %d", back ? "pop" : "pull", r));
      if (!same(e, before)) fail("empty-touched", sf("%s on an empty buffer changed the event", back ? "pop" : "pull"));
      cov("empty_takes");
      return;
    }
    E want = back ? m.back() : m.front();
    if (back) m.pop_back(); else m.pop_front();
    if (r != okval()) fail("take-status", sf("%s returned %d, expected %s", back ? "pop" : "pull", r, okname()));
    if (!same(e, want)) fail("take-value", sf("%s returned %s, expected %s", back ? "pop" : "pull", show(e).c_str(), show(want).c_str()));
    cov(back ? "pops" : "pulls");
  }
  void check() {
    if (bad) return;
    size_t b = ~(size_t)0, t = ~(size_t)0;
    if (buf->state(b, t) != B::OK) fail("state-status", "state() is not OK");
    if (b > N || t > N) { fail("state-range", sf("state (%zu,%zu) outside the ring", b, t)); return; }
    size_t n = t >= b ? t - b : t + (N + 1) - b;
    if (n != m.size()) { fail("state-count", sf("bottom %zu top %zu enclose %zu events, expected %zu", b, t, n, m.size())); return; }
    if (buf->length() != m.size()) { fail("length", sf("length() = %zu, expected %zu", buf->length(), m.size())); return; }
    for (size_t k = 0; k < n; k++) {
      E e;
      size_t i = (b + k) % (N + 1);
      if (buf->read(e, i) != B::OK) { fail("read-status", sf("read(%zu) refused", i)); return; }
      if (!same(e, m[k])) { fail("content", sf("slot %zu (held event %zu) is %s, expected %s", i, k, show(e).c_str(), show(m[k]).c_str())); return; }
    }
    timespanw ts = 0, ts_t = 0;
    size_t b2 = 0, t2 = 0;
    if (buf->state(b2, t2, ts, ts_t) != B::OK || b2 != b || t2 != t) fail("state-timed", "state with timestamps disagrees with state");
    if (n && (timespanw)m.front().getTime() != ts) fail("state-timed", sf("oldest timestamp %lld, expected %lld", (long long)ts, (long long)m.front().getTime()));
    if (buf->size_util != N || buf->size != N + 1) fail("size", "capacity constants");
    hs.add((uint64_t)b << 32 | (uint64_t)t << 8 | (m.size() == N));
  }
  void rw(Rng &r) {
    size_t b = 0, t = 0;
    buf->state(b, t);
    size_t i;
    switch (r.below(5)) {
    case 0: i = N + 1; break;
    case 1: i = N + 1 + (size_t)r.next() % 5; break;
    case 2: i = (size_t)r.next() | ((size_t)1 << 40); break;
    case 3: i = (size_t)0 - 1 - r.below(3); break;
    default: i = r.below(N + 1);
    }
    bool inside = i <= N;
    E e(Mk<T>::mk(0xCD), 888), before = e;
    if (r.chance(40)) {
      note(sf("read(%zu)", i));
      typename B::error_t s = buf->read(e, i);
      if (s != (inside ? B::OK : B::OUT_OF_BOUND)) fail("read-status", sf("read(%zu) returned %d", i, s));
      if (!inside && !same(e, before)) fail("read-oob-touched", sf("refused read(%zu) changed the event", i));
      cov(inside ? "reads" : "oob_reads");
    } else {
      E w(Mk<T>::mk(r.next()), (timespan)r.range(0, 1000000)), w0 = w;
      // snapshot of all slots
      std::vector<E> sl(N + 1);
      for (size_t k = 0; k <= N; k++) buf->read(sl[k], k);
      note(sf("write(%zu,%s)", i, show(w).c_str()));
      typename B::error_t s = buf->write(w, i);
      if (s != (inside ? B::OK : B::OUT_OF_BOUND)) fail("write-status", sf("write(%zu) returned %d", i, s));
      if (!same(w, w0)) fail("write-arg", "write changed its argument");
      for (size_t k = 0; k <= N; k++) {
        E x;
        buf->read(x, k);
        const E &want = (inside && k == i) ? w0 : sl[k];
        if (!same(x, want)) { fail("write-slot", sf("after write(%zu) slot %zu is %s, expected %s", i, k, show(x).c_str(), show(want).c_str())); break; }
      }
      if (inside) {
        size_t k = (i + (N + 1) - b) % (N + 1);
        if (k < m.size()) m[k] = w0;
      }
      cov(inside ? "writes" : "oob_writes");
    }
  }
};

// large capacities: bulk operations, then only the ends and a sample of the slots are looked at
template <typename T, size_t N> void large(Rng &r, const char *tag) {
  Case<T, N> c(tag);
  typedef Event<T> E;
  timespan clk = 0;
  auto look = [&]() {
    if (c.bad) return;
    size_t b = ~(size_t)0, t = ~(size_t)0;
    c.buf->state(b, t);
    size_t n = c.m.size();
    if (b > N || t > N || (t >= b ? t - b : t + (N + 1) - b) != n) return c.fail("state-count", sf("bottom %zu top %zu, %zu events held", b, t, n));
    if (c.buf->length() != n) return c.fail("length", sf("length() = %zu, expected %zu", c.buf->length(), n));
    for (int j = 0; j < 40 && n; j++) {
      size_t k = j < 6 ? (size_t)j : j < 12 ? n - 1 - (size_t)(j - 6) : j < 20 ? N + 3 - b - (size_t)(j - 12) : r.below(n), i;
      if (k >= n) continue;
      i = (b + k) % (N + 1);
      E e;
      if (c.buf->read(e, i) != Case<T, N>::B::OK) return c.fail("read-status", sf("read(%zu) refused", i));
      if (!same(e, c.m[k])) return c.fail("content", sf("slot %zu (held event %zu of %zu) is %s, expected %s", i, k, n, show(e).c_str(), show(c.m[k]).c_str()));
    }
    cov("large_looks");
    c.hs.add(b); c.hs.add(t);
  };
  int len = (int)r.range(2, 8);
  for (int k = 0; k < len && !c.bad; k++) {
    size_t n = r.chance(50) ? r.below(12) : r.chance(50) ? r.below(N + 5) : N - 3 + r.below(8);
    int op = k == 0 ? 0 : (int)r.below(4);
    for (; n-- && !c.bad;) {
      if (op < 2) { clk += (timespan)r.range(1, 3); c.push(E(Mk<T>::mk(r.next()), clk)); }
      else c.take(op == 3);
      if (n < 3) look();
    }
    cov("ops");
  }
  distinct(c.hs.h);
}

template <typename T, size_t N> void rnd(Rng &r, const char *tag, size_t life = 0) {
  Case<T, N> c(tag);
  typedef Event<T> E;
  std::vector<unsigned> w = {(unsigned)r.range(1, 10), (unsigned)r.range(0, 6), (unsigned)r.range(0, 6), (unsigned)r.range(0, 3), (unsigned)r.chance(20), (unsigned)r.chance(20)};
  if (r.chance(30)) { unsigned k = r.range(1, 3); while (k--) c.attach(r); }
  if (r.chance(1)) {              // as many writers as make a narrow count wrap around
    size_t k = (size_t)(r.chance(80) ? 256 : 65536) - c.writers + (size_t)r.below(2);
    c.note(sf("attach %zu writers", k));
    while (k--) { c.buf->increment_writer(); c.writers++; }
    cov("many_writers");
  }
  size_t len = (size_t)r.range(1, (int64_t)(5 * N + 40 < 900 ? 5 * N + 40 : 900));
  if (life) { len = life; cov("long_lives"); }
  int burst = 0, bop = 0;
  for (size_t k = 0; k < len && !c.bad; k++) {
    size_t op = burst > 0 ? (burst--, (size_t)bop) : r.pick(w);
    if (burst == 0 && r.chance(5)) { bop = (int)r.below(3); burst = (int)r.below(2 * N + 3); }
    switch (op) {
    case 0: c.push(E(Mk<T>::mk(r.next()), (timespan)(r.chance(10) ? r.range(0, 1) * 0x3fffffffffffffffll : r.range(0, 1ll << 40)))); break;
    case 1: c.take(false); break;
    case 2: c.take(true); break;
    case 3: c.rw(r); break;
    case 4: c.note("debug"); c.buf->debug(); break;
    case 5: if (c.writers < 4) c.attach(r); break;
    }
    c.hs.add(op);
    c.check();
    cov("ops");
  }
  if (want_sample()) sample(sf("%s N=%zu: ", tag, N) + c.log);
  distinct(c.hs.h);
}

// every sequence of push/pull/pop of length L
template <size_t N> void enumerate(uint64_t idx, int L) {
  Case<int, N> c("enum");
  uint64_t x = idx;
  for (int k = 0; k < L && !c.bad; k++, x /= 3) {
    if (x % 3 == 0) c.push(Event<int>(k + 1, 10 * (k + 1)));
    else c.take(x % 3 == 2);
    c.check();
    cov("ops");
  }
  distinct(mix2(idx, N * 100 + L));
}

int main(int argc, char **argv) {
  init(argc, argv);
  int L = (int)opti("enum", 0);
  if (L) return run_cases([&](uint64_t i, uint64_t) {
    switch (i % 4) {
    case 0: enumerate<1>(i / 4, L); break;
    case 1: enumerate<2>(i / 4, L); break;
    case 2: enumerate<3>(i / 4, L); break;
    default: enumerate<4>(i / 4, L); break;
    }
  });
  return run_cases([](uint64_t idx, uint64_t s) {
    Rng r(s);
    if (idx % 4096 == 33) return r.chance(50) ? rnd<int, 3>(r, "int", 200000) : rnd<uint8_t, 4>(r, "u8", 200000);
    if (idx % 128 == 77) switch (r.below(4)) {
    case 0: return large<int, 65536>(r, "int");
    case 1: return large<uint8_t, 70000>(r, "u8");
    case 2: return large<int, 65535>(r, "int");
    default: return large<long long, 40000>(r, "ll");
    }
    switch (r.below(16)) {
    case 0: rnd<int, 1>(r, "int"); break;
    case 1: rnd<int, 2>(r, "int"); break;
    case 2: rnd<int, 3>(r, "int"); break;
    case 3: rnd<uint8_t, 4>(r, "u8"); break;
    case 4: rnd<uint8_t, 1>(r, "u8"); break;
    case 5: rnd<long long, 5>(r, "ll"); break;
    case 6: rnd<Big, 1>(r, "big"); break;
    case 7: rnd<Big, 3>(r, "big"); break;
    case 8: rnd<Big, 7>(r, "big"); break;
    case 9: rnd<int, 8>(r, "int"); break;
    case 10: rnd<unsigned, 16>(r, "u"); break;
    case 11: rnd<short, 31>(r, "short"); break;
    case 12: rnd<int, 100>(r, "int"); break;
    case 13: rnd<uint8_t, 255>(r, "u8"); break;
    case 14: rnd<int, 256>(r, "int"); break;
    default: rnd<long long, 2>(r, "ll"); break;
    }
  });
}
