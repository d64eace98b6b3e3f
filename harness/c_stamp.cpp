// C06: the timestamps of concurrent pushes against the readings of a virtual clock
#include "conc.h"
using vh::Rng;

struct Clock {
  Rng r; int64_t v; int step;      // step: how far the clock moves at a reading
  std::vector<int64_t> mine[16];    // readings given to each thread during its current push
  explicit Clock(uint64_t s) : r(s), v(0), step(0) {}
  int64_t read() {
    switch (step) {
    case 0: break;                                            // a clock that stands still
    case 1: v += r.below(2); break;                           // coarse: many equal readings
    case 2: v += 1 + r.below(1000); break;
    case 3: v += r.below(3) ? r.below(50) : 500000000 + r.below(3000000000ull); break;   // jumps across seconds
    default: v += r.chance(50) ? 1 : 1000000000 - v % 1000000000; break;                 // lands on full seconds
    }
    int s = sched::self();
    if (s >= 0) mine[s].push_back(v);
    return v;
  }
};

template <size_t N> static void scenario(Rng &r, vh::Hash &h, const sched::Policy *fixed, uint64_t *points, int kind) {
  typedef RTML_buffer<Ev, N> B;
  sched::arena_reset((int)r.below(3) == 0 ? -1 : (int)(r.below(2) * 255));
  int writers = kind < 0 ? (int)(r.chance(4) ? r.range(5, 10) : r.range(1, 4)) : 2 + (kind == 2);
  Clock clk(r.next());
  clk.step = kind < 0 ? (int)r.below(5) : 2;
  static const int64_t base[] = {0, 1, 999999999, 1000000000, 4294967295ll, 4294967296ll, 1700000000ll * 1000000000, 8589934592ll * 1000000000, 2147483648ll * 1000000000 - 1};
  clk.v = r.chance(50) ? base[r.below(9)] : (int64_t)r.below(9000000000000000000ull - 2000000000000ull);
  sched::on_clock = [&clk] { return clk.read(); };
  B *b = sched::make<B>();
  std::vector<RTML_writer<B> *> w;
  for (int i = 0; i < writers; i++) w.push_back(sched::make<RTML_writer<B>>(*b));
  uint32_t id = 1;
  int mixed = kind < 0 ? r.chance(40) : 0;         // some pushes keep the caller's time
  size_t init = kind < 0 ? r.below(2 * N + 2) : r.below(N + 1);
  struct P { Ev e; timespan before, after, given; bool stamped; std::vector<int64_t> reads; };
  std::vector<P> log;
  bool allst = !mixed;
  auto push = [&](int wi, uint32_t id, bool st, timespan given) {
    Ev e; P p;
    { sched::NoSched ns; Rec d(id); e.set(d, given); if (sched::self() >= 0) clk.mine[sched::self()].clear(); p.before = clk.v; p.given = given; p.stamped = st; }
    if (st) w[wi]->push(e); else w[wi]->push_all(e);
    sched::NoSched ns;
    p.after = clk.v; p.e = e;
    if (sched::self() >= 0) p.reads = clk.mine[sched::self()];
    log.push_back(p);
  };
  for (size_t i = 0; i < init; i++) {
    bool st = !mixed || r.chance(50);
    timespan g = st ? (timespan)r.next() : (timespan)r.below(1000000);
    push((int)r.below(writers), id++, st, g);
  }
  int tot = 0;
  for (int i = 0; i < writers; i++) {
    int n = kind < 0 ? (int)r.range(1, 4) : 1 + (kind == 1);
    tot += n;
    std::vector<char> st; std::vector<timespan> gv; uint32_t id0 = id; id += n;
    for (int k = 0; k < n; k++) { st.push_back(!mixed || r.chance(50)); gv.push_back((timespan)(r.next() >> 1)); }
    sched::spawn([&, i, n, st, gv, id0] { for (int k = 0; k < n; k++) push(i, id0 + k, st[k], gv[k]); });
  }
  sched::Policy p = fixed ? *fixed : sched::random_policy(r, writers, tot * 60);
  sched::Result res = sched::run(p, r);
  if (points) *points = res.points;
  h.add(res.trace); h.add(N); h.add(clk.step);
  vh::cov("schedules"); vh::cov("points", res.points); vh::cov("switches", res.switches);
  bool okc; std::vector<Ev> C = contents(*b, okc);
  auto ctx = [&] {
    std::string s = vh::sf("; N=%zu writers=%d after=%s pushes:", N, writers, show(C).c_str());
    for (auto &q : log) { s += vh::sf(" %s%s given %lld clock %lld..%lld readings", q.stamped ? "" : "keep", show(q.e).c_str(), (long long)q.given, (long long)q.before, (long long)q.after); for (auto v : q.reads) s += vh::sf(" %lld", (long long)v); }
    return s + "; schedule " + policy_text(p);
  };
  sched::on_clock = nullptr;
  if (!run_problem(res).empty()) { vh::viol(problem_key(res), run_problem(res) + ctx()); return; }
  if (vh::want_sample() && log.size() < 12) vh::sample(ctx());
  for (auto &q : log) {
    timespan t = q.e.getTime();
    if (!q.stamped) { vh::cov("kept"); if (t != q.given) { vh::viol("kept-time", "a non-stamping push changed the time of " + show(q.e) + ctx()); return; } }
    else {
      vh::cov("stamped"); if (q.reads.size() > 1) vh::cov("stamped_after_retry");
      if (t < q.before || t > q.after) { vh::viol("stamp-range", "the stamp of " + show(q.e) + " is not between the clock at the call and at the return" + ctx()); return; }
      if (!q.reads.empty() && std::find(q.reads.begin(), q.reads.end(), (int64_t)t) == q.reads.end()) { vh::viol("stamp-reading", "the stamp of " + show(q.e) + " is not a reading of the clock" + ctx()); return; }
    }
    for (auto &e : C) if (e.getData().id == q.e.getData().id && !same(e, q.e)) { vh::viol("stored", "stored " + show(e) + " but the caller has " + show(q.e) + ctx()); return; }
  }
  if (C.size() != std::min((size_t)N, log.size())) { vh::viol("count", vh::sf("%zu events held", C.size()) + ctx()); return; }
  for (auto &e : C) { bool f = false; for (auto &q : log) f |= q.e.getData().id == e.getData().id; if (!f) { vh::viol("unknown", "unknown event " + show(e) + ctx()); return; } }
  if (allst)
    for (size_t i = 1; i < C.size(); i++) {
      vh::cov("ordered_pairs");
      if (C[i].getTime() < C[i - 1].getTime()) { vh::viol("order", show(C[i - 1]) + " is before " + show(C[i]) + ctx()); return; }
    }
  for (auto *x : w) sched::destroy(x);
  sched::destroy(b);
}

int main(int argc, char **argv) {
  vh::init(argc, argv);
  bool sys = vh::has("systematic");
  return vh::run_cases([&](uint64_t idx, uint64_t seed) {
    if (sys) {                       // every schedule with up to two preemptions of small scenarios
      int kind = (int)(idx % 3), first = (int)(idx / 3 % 2); uint64_t i = idx / 6, L1 = 0, L2;
      auto one = [&](const sched::Policy &p, uint64_t *L) { Rng r(seed ^ 0); r.s = vh::mix2(vh::ctx().seed, kind); vh::Hash h; scenario<3>(r, h, &p, L, kind); vh::distinct(h.h); vh::cov("systematic_schedules"); };
      sched::Policy p; p.kind = sched::LIST; p.first = first;
      for (int t1 = 0; t1 < (kind == 2 ? 2 : 1); t1++) {
        p.pre.assign(1, {i + 1, t1});
        one(p, &L1);
        if (L1 <= i) return;
        if (kind == 2 && !vh::ctx().thorough) continue;
        for (uint64_t j = i + 2; j <= L1; j++) { p.pre.resize(1); p.pre.push_back({j, 0}); one(p, &L2); }
      }
      return;
    }
    Rng r(seed); vh::Hash h;
    switch (r.below(5)) {
    case 0: scenario<1>(r, h, nullptr, nullptr, -1); break;
    case 1: scenario<2>(r, h, nullptr, nullptr, -1); break;
    case 2: scenario<4>(r, h, nullptr, nullptr, -1); break;
    case 3: scenario<7>(r, h, nullptr, nullptr, -1); break;
    default: scenario<32>(r, h, nullptr, nullptr, -1); break;
    }
    vh::distinct(h.h);
  });
}
