// C04: writers used one at a time, created and destroyed at any point. Deque model.
#include "common_rtm.h"
using namespace vh;

template <typename T, size_t N> struct Case {
  typedef Event<T> E;
  typedef RTML_buffer<E, N> B;
  typedef RTML_writer<B> W;
  std::unique_ptr<B> b;
  std::vector<std::unique_ptr<W>> ws;
  std::deque<E> m;
  std::string log;
  const char *tag;
  Hash hs;
  bool bad = false;
  uint64_t uid = 1;
  timespan clk = 1, last = 0;

  Case(const char *t) : b(new B()), tag(t) {}
  ~Case() { ws.clear(); }
  void note(const std::string &s) { if (log.size() < 3000) log += s + ";"; }
  void fail(const char *key, const std::string &d) {
    if (bad) return;
    bad = true;
    viol(key, sf("[%s N=%zu] %s | history: ", tag, N, d.c_str()) + log);
  }
  void attach() { note("new w"); ws.emplace_back(new W(*b)); cov("writers"); }
  void detach(size_t w) {
    note(sf("delete w%zu", w));
    W *p = ws[w].release();
    p->~W();
    memset((void *)p, 0xEE, sizeof(W));
    ::operator delete((void *)p);
    ws.erase(ws.begin() + w);
    cov("writers_destroyed");
  }
  void push(Rng &r, size_t w) {
    bool stamp = r.chance(40);
    E e(Mk<T>::mk(r.chance(80) ? uid++ : r.below(3)), stamp ? (timespan)r.next() : (clk += r.range(0, 2)));
    E e0 = e;
    bool full = m.size() == N;
    note(sf("w%zu.%s", w, stamp ? "push" : "push_all") + show(e));
    typename B::error_t s = stamp ? ws[w]->push(e) : ws[w]->push_all(e);
    if (!(e.getData() == e0.getData())) fail("data-arg", "the data of the caller's event changed");
    if (!stamp && e.getTime() != e0.getTime()) fail("time-arg", "push_all changed the caller's timestamp");
    m.push_back(e);
    if (full) { m.pop_front(); cov("overflows"); }
    if (full ? s != B::BUFFER_OVERFLOW : (s != B::OK && s != B::UNSAFE)) fail("push-status", sf("push with %zu held of %zu returned %d", full ? N : m.size() - 1, N, s));
    cov(stamp ? "pushes" : "push_alls");
  }
  void direct(Rng &r) {           // a push without a writer
    E e(Mk<T>::mk(r.chance(80) ? uid++ : r.below(3)), clk += r.range(0, 2));
    bool full = m.size() == N;
    note("push" + show(e));
    typename B::error_t s = b->push(e);
    m.push_back(e);
    if (full) { m.pop_front(); cov("overflows"); }
    if (full ? s != B::BUFFER_OVERFLOW : (s != B::OK && s != B::UNSAFE)) fail("push-status", sf("direct push with %zu held of %zu returned %d", full ? N : m.size() - 1, N, s));
    cov("direct_pushes");
  }
  void overwrite(Rng &r) {        // change a held event in place
    if (m.empty()) return;
    size_t bo, to; b->state(bo, to);
    size_t k = r.chance(60) ? m.size() - 1 : r.below(m.size());
    E e(Mk<T>::mk(uid++), clk += r.range(0, 2));
    note(sf("write[%zu]", k) + show(e));
    if (b->write(e, (bo + k) % b->size) != B::OK) fail("write-status", "write refused");
    m[k] = e;
    cov("writes");
  }
  void take(bool back) {
    E e(Mk<T>::mk(0xAB), 77777), before = e;
    note(back ? "pop" : "pull");
    typename B::error_t s = back ? b->pop(e) : b->pull(e);
    if (m.empty()) {
      if (s != B::EMPTY || !same(e, before)) fail("empty", sf("take on an empty buffer returned %d %s", s, show(e).c_str()));
      cov("empty_takes");
      return;
    }
    E want = back ? m.back() : m.front();
    if (back) m.pop_back(); else m.pop_front();
    if (s != B::OK && s != B::UNSAFE) fail("take-status", sf("take returned %d", s));
    if (!same(e, want)) fail("take-value", sf("%s gave %s, expected %s", back ? "pop" : "pull", show(e).c_str(), show(want).c_str()));
    cov(back ? "pops" : "pulls");
  }
  void check() {
    if (bad) return;
    bool ok;
    auto v = contents(*b, ok);
    if (!ok) { fail("state", "state or contents not readable"); return; }
    if (v.size() != m.size() || b->length() != v.size()) { fail("count", sf("%zu events held (length %zu), expected %zu", v.size(), b->length(), m.size())); return; }
    for (size_t k = 0; k < v.size(); k++)
      if (!same(v[k], m[k])) { fail("content", sf("event %zu is %s, expected %s", k, show(v[k]).c_str(), show(m[k]).c_str())); return; }
    hs.add(m.size() * 8 + ws.size());
  }
};

template <typename T, size_t N> void rnd(Rng &r, const char *tag, size_t life = 0) {
  Case<T, N> c(tag);
  std::vector<unsigned> w = {(unsigned)r.range(3, 12), (unsigned)r.range(0, 5), (unsigned)r.range(0, 5), (unsigned)r.range(1, 3), (unsigned)r.range(0, 3), (unsigned)(r.chance(40) ? r.range(1, 6) : 0), (unsigned)(r.chance(30) ? r.range(1, 3) : 0)};
  size_t maxw = r.range(1, r.chance(10) ? 300 : 6);
  size_t len = r.range(3, 4 * N + 60 < 500 ? 4 * N + 60 : 500);
  if (life) { len = life; cov("long_lives"); }
  for (size_t k = 0; k < len && !c.bad; k++) {
    size_t op = r.pick(w);
    switch (op) {
    case 0: {
      if (c.ws.empty()) c.attach();
      size_t i = r.below(c.ws.size());
      int n = r.chance(20) ? r.range(1, N + 3) : 1;
      bool one = r.chance(60);
      while (n-- > 0 && !c.bad) c.push(r, one ? i : r.below(c.ws.size()));
      c.hs.add(i);
      break;
    }
    case 1: c.take(false); break;
    case 2: c.take(true); break;
    case 3: { if (maxw > 6) { while (c.ws.size() < maxw) c.attach(); } else if (c.ws.size() < maxw) c.attach(); break; }
    case 5: c.direct(r); break;
    case 6: c.overwrite(r); break;
    case 4: if (!c.ws.empty()) c.detach(r.below(c.ws.size())); break;
    }
    c.hs.add(op);
    c.check();
    cov("ops");
  }
  if (want_sample()) sample(sf("%s N=%zu: ", tag, N) + c.log);
  distinct(c.hs.h);
}

// large capacities: phases of many operations, the contents compared after each
template <typename T, size_t N> void large(Rng &r, const char *tag) {
  Case<T, N> c(tag);
  for (int ph = (int)r.range(2, 5); ph > 0 && !c.bad; ph--) {
    while (c.ws.empty() || (c.ws.size() < 4 && r.chance(50))) c.attach();
    if (c.ws.size() > 1 && r.chance(50)) c.detach(r.below(c.ws.size()));
    size_t n = r.chance(70) ? N - r.below(20) + r.below(40) : r.below(N);
    bool one = r.chance(50); size_t w = r.below(c.ws.size());
    for (size_t k = 0; k < n && !c.bad; k++) c.push(r, one ? w : r.below(c.ws.size()));
    c.check();
    for (size_t k = r.chance(50) ? r.below(N) : r.below(50); k > 0 && !c.bad; k--) c.take(r.chance(20));
    c.check();
    c.hs.add(n);
    cov("large_phases");
  }
  distinct(c.hs.h);
}

// every sequence of length L over: push by w0/w1, pull, pop, replace w0, replace w1
template <size_t N> void enumerate(uint64_t idx, int L) {
  Case<int, N> c("enum");
  c.attach(); c.attach();
  uint64_t x = idx;
  Rng r(7);
  for (int k = 0; k < L && !c.bad; k++, x /= 6) {
    switch (x % 6) {
    case 0: case 1: c.push(r, x % 6); break;
    case 2: case 3: c.take(x % 6 == 3); break;
    case 4: c.detach(0); c.attach(); break;
    case 5: c.detach(1); c.attach(); break;
    }
    c.check();
    cov("ops");
  }
  distinct(mix2(idx, N * 100 + L));
}

int main(int argc, char **argv) {
  init(argc, argv);
  int L = (int)opti("enum", 0);
  if (L) return run_cases([&](uint64_t i, uint64_t) {
    switch (i % 3) {
    case 0: enumerate<1>(i / 3, L); break;
    case 1: enumerate<2>(i / 3, L); break;
    default: enumerate<3>(i / 3, L); break;
    }
  });
  return run_cases([](uint64_t idx, uint64_t s) {
    Rng r(s);
    if (idx % 4096 == 33) return r.chance(50) ? rnd<int, 3>(r, "int", 200000) : rnd<uint8_t, 4>(r, "u8", 200000);
    if (idx % 1024 == 77) return r.chance(50) ? large<int, 65535>(r, "int") : large<uint8_t, 70000>(r, "u8");
    switch (r.below(10)) {
    case 0: rnd<int, 1>(r, "int"); break;
    case 1: rnd<int, 2>(r, "int"); break;
    case 2: rnd<int, 3>(r, "int"); break;
    case 3: rnd<uint8_t, 4>(r, "u8"); break;
    case 4: rnd<long long, 5>(r, "ll"); break;
    case 5: rnd<Big, 1>(r, "big"); break;
    case 6: rnd<Big, 3>(r, "big"); break;
    case 7: rnd<Big, 8>(r, "big"); break;
    case 8: rnd<int, 100>(r, "int"); break;
    default: rnd<int, 6>(r, "int"); break;
    }
  });
}
