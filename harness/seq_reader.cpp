// C08: readers against a model of (next event, synchronised up to), push-only histories, one thread.
#include "common_rtm.h"
#include <rmtld3/reader.h>
using namespace vh;

template <typename T, size_t N> struct Case {
  typedef Event<T> E;
  typedef RTML_buffer<E, N> B;
  typedef RTML_writer<B> W;
  typedef RTML_reader<B> R;
  struct Rd { std::unique_ptr<R> r; size_t next = 0, sync = 0; };
  std::unique_ptr<B> b;
  std::vector<std::unique_ptr<W>> ws;
  std::vector<Rd> rs;
  std::vector<E> ev;      // every event pushed
  std::string log;
  const char *tag;
  Hash hs;
  bool bad = false;
  timespan clk = 0, step = 0;     // step: times that agree in their lower bits
  uint64_t uid = 1;

  Case(const char *t) : b(new B()), tag(t) {}
  ~Case() { rs.clear(); ws.clear(); }
  void note(const std::string &s) { if (log.size() < 3000) log += s + ";"; }
  void fail(const char *key, const std::string &d) {
    if (bad) return;
    bad = true;
    viol(key, sf("[%s N=%zu] %s | history: ", tag, N, d.c_str()) + log);
  }
  bool lost(const Rd &x) const { return ev.size() > N && x.next < ev.size() - N; }
  void attach() { ws.emplace_back(new W(*b)); }
  void push(const E &e0, int w) {
    E e = e0;
    if (log.size() < 3000) note("push" + show(e));
    if (w < 0) b->push(e); else ws[w]->push_all(e);
    ev.push_back(e0);
    cov("pushes");
  }
  void reader() { note("reader"); Rd x; x.r.reset(new R(*b)); rs.push_back(std::move(x)); }
  std::string pos(const Rd &x) { return sf("(next %zu, synchronised %zu, pushed %zu)", x.next, x.sync, ev.size()); }
  void gap(size_t i) {
    Rd &x = rs[i];
    note(sf("r%zu.gap", i));
    typename R::gap_error_t g = x.r->gap();
    if (g != (lost(x) ? R::GAP : R::NO_GAP)) fail("gap-query", sf("gap() = %d although %s %s", g, lost(x) ? "an unread event was dropped" : "nothing was lost", pos(x).c_str()));
    cov(lost(x) ? "gaps" : "nogaps");
  }
  void sync(size_t i) {
    Rd &x = rs[i];
    note(sf("r%zu.sync", i));
    typename R::gap_error_t g = x.r->synchronize();
    bool l = lost(x);
    if (g != (l ? R::GAP : R::NO_GAP)) fail("sync-gap", sf("synchronize() = %d although %s %s", g, l ? "an unread event was dropped" : "nothing was lost", pos(x).c_str()));
    if (l) x.next = ev.size() - N;
    x.sync = ev.size();
    cov(l ? "sync_gaps" : "syncs");
  }
  void length(size_t i) {
    Rd &x = rs[i];
    if (x.r->length() != x.sync - x.next) fail("length", sf("reader length %zu %s", x.r->length(), pos(x).c_str()));
  }
  void pull(size_t i) {
    Rd &x = rs[i];
    note(sf("r%zu.pull", i));
    E e(Mk<T>::mk(0xAB), 777), e0 = e;
    typename R::error_t s = x.r->pull(e);
    if (x.sync - x.next <= 1) {
      if (s != R::UNAVAILABLE && !(lost(x) && s == R::READER_OVERFLOW)) fail("pull-status", sf("pull = %d with %zu synchronised events %s", s, x.sync - x.next, pos(x).c_str()));
      if (s == R::UNAVAILABLE && !same(e, e0)) fail("pull-touched", "an unavailable pull changed the event");
      cov("pull_unavailable");
    } else if (lost(x)) {
      if (s != R::READER_OVERFLOW) fail("pull-status", sf("pull = %d although the event was dropped %s", s, pos(x).c_str()));
      cov("pull_overflow");
    } else {
      if (s != R::AVAILABLE) fail("pull-status", sf("pull = %d although the next event is held %s", s, pos(x).c_str()));
      else if (!same(e, ev[x.next])) fail("pull-value", sf("pull gave %s, expected %s %s", show(e).c_str(), show(ev[x.next]).c_str(), pos(x).c_str()));
      x.next++;
      cov("pull_available");
    }
  }
  void pop(size_t i) {
    Rd &x = rs[i];
    note(sf("r%zu.pop", i));
    E e(Mk<T>::mk(0xAB), 777), e0 = e;
    typename R::error_t s = x.r->pop(e);
    if (x.sync == x.next) {
      if (s != R::UNAVAILABLE) fail("pop-status", sf("pop = %d with no synchronised event %s", s, pos(x).c_str()));
      if (!same(e, e0)) fail("pop-touched", "an unavailable pop changed the event");
      cov("pop_unavailable");
      return;
    }
    bool l = lost(x);
    x.sync--;
    if (l) {
      if (s != R::READER_OVERFLOW) fail("pop-status", sf("pop = %d although an event was dropped %s", s, pos(x).c_str()));
      cov("pop_overflow");
    } else {
      if (s != R::AVAILABLE) fail("pop-status", sf("pop = %d %s", s, pos(x).c_str()));
      else if (!same(e, ev[x.sync])) fail("pop-value", sf("pop gave %s, expected %s %s", show(e).c_str(), show(ev[x.sync]).c_str(), pos(x).c_str()));
      cov("pop_available");
    }
  }
  void check() {
    for (size_t i = 0; i < rs.size() && !bad; i++) {
      length(i);
      hs.add((rs[i].sync - rs[i].next) * 4 + lost(rs[i]) + 2 * (rs[i].sync == ev.size()));
    }
  }
};

template <typename T, size_t N> void rnd(Rng &r, const char *tag, size_t life = 0) {
  Case<T, N> c(tag);
  typedef Event<T> E;
  if (r.chance(8)) c.step = 1ll << r.range(8, 40);
  bool direct = r.chance(40);
  if (!direct) { int k = r.range(1, 3); while (k--) c.attach(); }
  if (r.chance(70)) c.reader();
  std::vector<unsigned> w = {(unsigned)r.range(2, 14), (unsigned)r.range(1, 6), (unsigned)r.range(1, 12), (unsigned)r.range(0, 3), (unsigned)r.range(0, 2), (unsigned)r.chance(40)};
  size_t len = r.range(3, N > 1000 ? 14 : 6 * N + 60 < 600 ? 6 * N + 60 : 600);
  if (life) { len = life; c.step = 0; if (c.rs.empty()) c.reader(); cov("long_lives"); w[0] = w[1] = w[2] = 4; }
  for (size_t k = 0; k < len && !c.bad; k++) {
    size_t op = c.rs.empty() ? (r.chance(80) ? 0 : 5) : r.pick(w), i = c.rs.empty() ? 0 : r.below(c.rs.size());
    switch (op) {
    case 0: {
      int n = r.chance(25) ? r.range(1, 2 * N + 3) : 1;
      while (n--) c.push(E(Mk<T>::mk(r.chance(60) ? c.uid++ : r.below(2)), c.clk += c.step ? c.step : (r.chance(5) && !life ? r.range(1, 1ll << 40) : r.range(1, 4))), direct ? -1 : (int)r.below(c.ws.size()));
      break;
    }
    case 1: c.sync(i); break;
    case 2: { int n = r.chance(N > 1000 ? 60 : 25) ? r.range(N > 1000 ? N / 2 : 1, N + 2) : 1; while (n-- && !c.bad) { c.pull(i); c.check(); } break; }
    case 3: c.pop(i); break;
    case 4: c.gap(i); break;
    case 5: if (c.rs.size() < (life ? 1 : 4)) c.reader(); break;
    }
    c.hs.add(op * 8 + i);
    c.check();
    cov("ops");
  }
  if (want_sample()) sample(sf("%s N=%zu: ", tag, N) + c.log);
  distinct(c.hs.h);
}

template <size_t N> void enumerate(uint64_t idx, int L) {
  Case<int, N> c("enum");
  c.reader();
  bool direct = idx & 1;
  if (!direct) c.attach();
  uint64_t x = idx >> 1;
  for (int k = 0; k < L && !c.bad; k++, x /= 4) {
    switch (x % 4) {
    case 0: c.push(Event<int>(k + 1, 10 * (k + 1)), direct ? -1 : 0); break;
    case 1: c.sync(0); break;
    case 2: c.pull(0); break;
    case 3: c.pop(0); break;
    }
    c.gap(0);
    c.check();
    cov("ops");
  }
  distinct(mix2(idx, N * 100 + L));
}

int main(int argc, char **argv) {
  init(argc, argv);
  int L = (int)opti("enum", 0);
  if (L) return run_cases([&](uint64_t i, uint64_t) {
    switch (i % 3) {
    case 0: enumerate<1>(i / 3, L); break;
    case 1: enumerate<2>(i / 3, L); break;
    default: enumerate<3>(i / 3, L); break;
    }
  });
  return run_cases([](uint64_t idx, uint64_t s) {
    Rng r(s);
    if (idx % 4096 == 33) return r.chance(50) ? rnd<int, 3>(r, "int", 300000) : rnd<uint8_t, 4>(r, "u8", 300000);
    if (idx % 128 == 77) switch (r.below(3)) {
    case 0: return rnd<int, 65535>(r, "int");
    case 1: return rnd<uint8_t, 70000>(r, "u8");
    default: return rnd<int, 33000>(r, "int");
    }
    if (idx % 16 == 5) return r.chance(50) ? rnd<int, 255>(r, "int") : rnd<uint8_t, 300>(r, "u8");
    switch (r.below(10)) {
    case 0: rnd<int, 1>(r, "int"); break;
    case 1: rnd<int, 2>(r, "int"); break;
    case 2: rnd<int, 3>(r, "int"); break;
    case 3: rnd<uint8_t, 4>(r, "u8"); break;
    case 4: rnd<long long, 5>(r, "ll"); break;
    case 5: rnd<Big, 1>(r, "big"); break;
    case 6: rnd<Big, 3>(r, "big"); break;
    case 7: rnd<Big, 8>(r, "big"); break;
    case 8: rnd<int, 64>(r, "int"); break;
    default: rnd<int, 6>(r, "int"); break;
    }
  });
}
