// C02: assignment makes independent, equal copies. Several heap buffers, each with a deque model.
#include "common_rtm.h"
using namespace vh;

enum Mode { NONE, DIRECT, WRITER };   // how the buffer was filled last
static const char *MODES[] = {"fresh", "direct", "writer"};

template <typename T, size_t N> struct Case {
  typedef Event<T> E;
  typedef RTML_buffer<E, N> B;
  struct Buf {
    std::unique_ptr<B> b;
    std::vector<std::unique_ptr<RTML_writer<B>>> ws;
    std::deque<E> m;
    Mode mode = NONE;
  };
  std::vector<Buf> bufs;
  std::string log;
  const char *tag;
  Hash hs;
  bool bad = false;
  timespan clk = 1;
  uint64_t uid = 1;

  bool mixed = false;             // both ways on the same buffer
  Case(const char *t, size_t n) : bufs(n), tag(t) { for (auto &x : bufs) x.b.reset(new B()); }
  ~Case() { for (auto &x : bufs) x.ws.clear(); }
  void note(const std::string &s) { if (log.size() < 3000) log += s + ";"; }
  void fail(const char *key, const std::string &d) {
    if (bad) return;
    bad = true;
    viol(key, sf("[%s N=%zu] %s | history: ", tag, N, d.c_str()) + log);
  }
  static bool okish(typename B::error_t r) { return r == B::OK || r == B::UNSAFE; }

  void push(size_t i, Rng &r) {
    Buf &x = bufs[i];
    E e(Mk<T>::mk(r.chance(70) ? uid++ : r.below(3)), (clk += r.range(0, 3)));
    bool full = x.m.size() == N;
    typename B::error_t s;
    if (mixed ? r.chance(50) : x.mode == WRITER || (x.mode == NONE && r.chance(60))) {
      if (x.ws.empty()) { attach(i); }
      size_t w = r.below(x.ws.size());
      note(sf("b%zu.w%zu.push_all", i, w) + show(e));
      x.mode = WRITER;
      s = x.ws[w]->push_all(e);
      cov("writer_pushes");
    } else {
      note(sf("b%zu.push", i) + show(e));
      x.mode = DIRECT;
      s = x.b->push(e);
      cov("direct_pushes");
    }
    x.m.push_back(e);
    if (full) x.m.pop_front();
    if (full ? s != B::BUFFER_OVERFLOW : !okish(s)) fail("push-status", sf("push on b%zu (%zu held of %zu) returned %d", i, x.m.size(), N, s));
  }
  void attach(size_t i) {
    note(sf("b%zu.attach", i));
    bufs[i].ws.emplace_back(new RTML_writer<B>(*bufs[i].b));
    cov("writers");
  }
  void detach(size_t i, Rng &r) {
    Buf &x = bufs[i];
    if (x.ws.empty()) return;
    size_t w = r.below(x.ws.size());
    note(sf("b%zu.destroy w%zu", i, w));
    x.ws.erase(x.ws.begin() + w);
    cov("writers_destroyed");
  }
  void take(size_t i, bool back) {
    Buf &x = bufs[i];
    E e(Mk<T>::mk(0xAB), 77777), before = e;
    note(sf("b%zu.%s", i, back ? "pop" : "pull"));
    typename B::error_t s = back ? x.b->pop(e) : x.b->pull(e);
    if (x.m.empty()) {
      if (s != B::EMPTY || !same(e, before)) fail("empty", sf("take on empty b%zu returned %d %s", i, s, show(e).c_str()));
      return;
    }
    E want = back ? x.m.back() : x.m.front();
    if (back) x.m.pop_back(); else x.m.pop_front();
    if (!okish(s)) fail("take-status", sf("take on b%zu returned %d", i, s));
    if (!same(e, want)) fail("take-value", sf("take on b%zu gave %s, expected %s", i, show(e).c_str(), show(want).c_str()));
  }
  void assign(size_t d, size_t s) {
    note(sf("b%zu=b%zu", d, s));
    Buf &x = bufs[d], &y = bufs[s];
    B &ret = (*x.b = *y.b);
    if (&ret != x.b.get()) fail("assign-result", "assignment does not return its target");
    x.m = y.m;
    x.mode = y.mode;
    cov("assignments");
    cov((std::string("assign_from_") + MODES[y.mode] + (y.m.size() == N ? "_full" : y.m.empty() ? "_empty" : "")).c_str());
    if (d == s) cov("self_assignments");
  }
  void replace(size_t i) {      // destroy the buffer and its writers, go on with a new one
    note(sf("b%zu destroyed, new", i));
    Buf &x = bufs[i];
    x.ws.clear();
    // fill the memory with junk before it is released, so that a stale reference does not look fine
    x.b->~B();
    memset((void *)x.b.get(), 0xEE, sizeof(B));
    ::operator delete((void *)x.b.release());
    x.b.reset(new B());
    x.m.clear();
    x.mode = NONE;
    cov("buffers_destroyed");
  }
  void check() {
    for (size_t i = 0; i < bufs.size() && !bad; i++) {
      Buf &x = bufs[i];
      bool ok;
      auto v = contents(*x.b, ok);
      if (!ok) { fail("state", sf("b%zu: state or contents not readable", i)); return; }
      if (v.size() != x.m.size() || x.b->length() != v.size()) { fail("count", sf("b%zu holds %zu events (length %zu), expected %zu", i, v.size(), x.b->length(), x.m.size())); return; }
      for (size_t k = 0; k < v.size(); k++)
        if (!same(v[k], x.m[k])) { fail("content", sf("b%zu event %zu is %s, expected %s", i, k, show(v[k]).c_str(), show(x.m[k]).c_str())); return; }
      if (x.b->size_util != N || x.b->size != N + 1) fail("size", "capacity constants");
      hs.add(x.m.size() * 8 + x.mode);
    }
  }
};

template <typename T, size_t N> void rnd(Rng &r, const char *tag, size_t life = 0) {
  size_t nb = r.range(2, 4);
  Case<T, N> c(tag, nb);
  c.mixed = r.chance(40);
  std::vector<unsigned> w = {(unsigned)r.range(2, 12), (unsigned)r.range(0, 4), (unsigned)r.range(0, 4), (unsigned)r.range(1, 4), (unsigned)r.range(0, 2), (unsigned)r.range(0, 2), (unsigned)r.range(0, 1)};
  size_t len = r.range(5, 4 * N + 60 < 400 ? 4 * N + 60 : 400);
  if (life) { len = life; cov("long_lives"); }
  for (size_t k = 0; k < len && !c.bad; k++) {
    size_t i = r.below(nb), op = r.pick(w);
    switch (op) {
    case 0: { int n = r.chance(15) ? r.range(1, N + 3) : 1; while (n-- > 0 && !c.bad) c.push(i, r); break; }
    case 1: c.take(i, false); break;
    case 2: c.take(i, true); break;
    case 3: c.assign(i, r.chance(10) ? i : r.below(nb)); break;
    case 4: if (c.bufs[i].ws.size() < 3) c.attach(i); break;
    case 5: c.detach(i, r); break;
    case 6: c.replace(i); break;
    }
    c.hs.add(op * 16 + i);
    c.check();
    cov("ops");
  }
  if (want_sample()) sample(sf("%s N=%zu: ", tag, N) + c.log);
  distinct(c.hs.h);
}

// large capacities: the contents compared after each assignment and at the end
template <typename T, size_t N> void large(Rng &r, const char *tag) {
  Case<T, N> c(tag, 2);
  c.mixed = r.chance(40);
  for (int ph = (int)r.range(2, 4); ph > 0 && !c.bad; ph--) {
    size_t i = r.below(2), n = r.chance(70) ? N - r.below(20) + r.below(40) : r.below(N);
    while (n-- && !c.bad) c.push(i, r);
    for (size_t k = r.chance(50) ? r.below(N) : r.below(50); k > 0 && !c.bad; k--) c.take(i, r.chance(20));
    size_t d = r.below(2);
    c.assign(d, r.chance(80) ? 1 - d : i);
    c.check();
    for (size_t k = r.below(50); k > 0 && !c.bad; k--) c.push(r.below(2), r);
    c.check();
    c.hs.add(n);
    cov("large_phases");
  }
  distinct(c.hs.h);
}

int main(int argc, char **argv) {
  init(argc, argv);
  return run_cases([](uint64_t idx, uint64_t s) {
    Rng r(s);
    if (idx % 4096 == 33) return r.chance(50) ? rnd<int, 3>(r, "int", 200000) : rnd<uint8_t, 4>(r, "u8", 200000);
    if (idx % 2048 == 77) return r.chance(50) ? large<int, 65535>(r, "int") : large<uint8_t, 70000>(r, "u8");
    switch (r.below(10)) {
    case 0: rnd<int, 1>(r, "int"); break;
    case 1: rnd<int, 2>(r, "int"); break;
    case 2: rnd<int, 3>(r, "int"); break;
    case 3: rnd<uint8_t, 4>(r, "u8"); break;
    case 4: rnd<long long, 5>(r, "ll"); break;
    case 5: rnd<Big, 1>(r, "big"); break;
    case 6: rnd<Big, 3>(r, "big"); break;
    case 7: rnd<Big, 8>(r, "big"); break;
    case 8: rnd<int, 64>(r, "int"); break;
    default: rnd<int, 6>(r, "int"); break;
    }
  });
}
