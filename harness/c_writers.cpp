// C05: concurrent pushes against the total-order oracle; with readers=1 the same beside readers, whose results are
// not looked at here (C10: they must not disturb the pushes)
#include "conc.h"
#include <rmtld3/reader.h>
#include <rmtld3/formulas.h>
int count_until_iterations;
using vh::Rng;

struct Scenario { int writers; int per[8]; size_t init; int stamp_pct; };

template <typename B> struct World {
  B *b;
  std::vector<RTML_writer<B> *> w;
  std::vector<Ev> model;         // contents at the last quiescent point
  uint32_t next_id = 1;
  int64_t tick = 1000;
  std::vector<PushRec> log;
  bool aba = false;              // see sched::Result
};

template <typename B> bool check_phase(World<B> &W, const std::string &how) {
  const size_t N = W.b->size_util;
  std::vector<PushRec> &L = W.log;
  bool okc;
  std::vector<Ev> C = contents(*W.b, okc);
  auto ctx = [&] {
    std::string s = vh::sf("N=%zu before=%s after=%s pushes:", N, show(W.model).c_str(), show(C).c_str());
    for (auto &p : L) s += vh::sf(" w%d%s[%llu,%llu]%s", p.w, show(p.e).c_str(), (unsigned long long)p.call, (unsigned long long)p.ret, p.ovf ? "ovf" : "");
    return s + " schedule: " + how;
  };
#define BAD(k, ...) do { vh::viol(aba_key(W.aba) + k, vh::sf(__VA_ARGS__) + "; " + ctx()); return false; } while (0)
  if (!okc) BAD("state", "the buffer cannot be read");
  size_t total = W.model.size() + L.size(), want = std::min(N, total);
  if (C.size() != want) BAD("count", "%zu events are held, not %zu", C.size(), want);
  if (W.b->length() != want) BAD("length", "length is %zu, not %zu", W.b->length(), want);
  for (auto &p : L) if (p.err) BAD("result", "a push returned neither OK nor overflow");
  // the events before the pushes
  size_t keep0 = W.model.size() > total - want ? W.model.size() - (total - want) : 0;
  for (size_t i = 0; i < keep0; i++) if (!same(C[i], W.model[W.model.size() - keep0 + i])) BAD("old-events", "event %zu is %s", i, show(C[i]).c_str());
  // the kept pushes
  std::vector<int> K; std::vector<char> kept(L.size(), 0);
  for (size_t i = keep0; i < C.size(); i++) {
    int f = -1;
    for (size_t j = 0; j < L.size(); j++) if (same(L[j].e, C[i])) f = (int)j;
    if (f < 0) BAD("unknown-event", "event %zu %s was never pushed", i, show(C[i]).c_str());
    if (kept[f]) BAD("duplicate", "event %s is held twice", show(C[i]).c_str());
    kept[f] = 1; K.push_back(f);
  }
  for (size_t i = 0; i < K.size(); i++)
    for (size_t j = i + 1; j < K.size(); j++)
      if (L[K[j]].ret < L[K[i]].call) BAD("order", "%s is before %s", show(L[K[i]].e).c_str(), show(L[K[j]].e).c_str());
  for (size_t d = 0; d < L.size(); d++) if (!kept[d])
    for (int k : K) if (L[k].ret < L[d].call) BAD("lost", "%s is missing although it was pushed after %s", show(L[d].e).c_str(), show(L[k].e).c_str());
  // overflow results
  size_t novf = 0; for (auto &p : L) novf += p.ovf;
  if (novf != (total > N ? total - N : 0)) BAD("overflow-count", "%zu pushes reported overflow, not %zu", novf, total > N ? total - N : 0);
  for (size_t i = 0; i < K.size(); i++) {
    size_t idx = L.size() - K.size() + i;
    if (L[K[i]].ovf != (W.model.size() + idx + 1 > N)) BAD("overflow-which", "%s %s overflow", show(L[K[i]].e).c_str(), L[K[i]].ovf ? "reported" : "did not report");
  }
  const PushRec *ao = nullptr, *oo = nullptr;
  for (auto &p : L) { if (p.ovf && (!ao || p.ret < ao->ret)) ao = &p; if (!p.ovf && (!oo || p.call > oo->call)) oo = &p; }
  if (ao && oo && ao->ret < oo->call) { const PushRec &a = *ao, &o = *oo; BAD("overflow-order", "%s reported overflow before %s did not", show(a.e).c_str(), show(o.e).c_str()); }
#undef BAD
  vh::cov("pushes", L.size());
  uint64_t end = 0; for (auto &p : L) { if (p.call < end) vh::cov("overlapping_pushes"); end = std::max(end, p.ret); }
  vh::cov("overflows", novf);
  W.model = C;
  return true;
}

template <typename B> void spawn_writer(World<B> &W, int i, int n, Rng &r, int stamp_pct) {
  std::vector<char> st;
  for (int k = 0; k < n; k++) st.push_back(r.chance(stamp_pct));
  uint32_t id0 = W.next_id; W.next_id += n;
  int64_t t0 = W.tick; W.tick += n;
  RTML_writer<B> *w = W.w[i];
  sched::spawn([&W, i, n, st, id0, t0, w] {
    for (int k = 0; k < n; k++) {
      Ev e;
      { sched::NoSched ns; Rec d(id0 + k); timespan t = t0 + k; e.set(d, t); }
      PushRec p; p.w = i; p.k = k; p.stamped = st[k];
      p.call = sched::steps();
      auto rc = st[k] ? w->push(e) : w->push_all(e);
      sched::NoSched ns;
      p.ret = sched::steps(); p.e = e; p.ovf = rc == W.b->BUFFER_OVERFLOW; p.err = !p.ovf && rc != W.b->OK;
      W.log.push_back(p);
    }
  });
}

static bool with_readers = false;
static int burst = 0;             // pushes of a writer and phase (0: few)

// readers of both kinds, at work beside the writers
template <typename B> struct Crowd {
  typedef RTML_reader<B> P;
  typedef RMTLD3_reader<RTML_reader<B>> X;
  std::vector<P *> p; std::vector<X *> x;
  struct Sub { static three_valued_type eval_phi1(X &t, timespan &a) { Ev e, n; bool r = t.read(e) == X::AVAILABLE && t.read_next(n) == X::AVAILABLE; return !r ? T_UNKNOWN : e.getData().id % 3 ? T_TRUE : T_FALSE; }
               static three_valued_type eval_phi2(X &t, timespan &a) { Ev e; t.read(e); return e.getData().id % 5 ? T_FALSE : T_TRUE; } };
  void make(World<B> &W, Rng &r) { int k = (int)r.range(1, 2); while (k--) { if (r.chance(60)) p.push_back(sched::make<P>(*W.b)); else x.push_back(sched::make<X>(*W.b)); } }
  void start(Rng &r, int &threads, int &work) {
    for (P *q : p) {
      std::vector<int> ops; for (int k = (int)r.range(3, 16); k > 0; k--) ops.push_back(r.chance(30) ? 0 : r.chance(70) ? 1 : (int)r.range(2, 4));
      threads++; work += ops.size() * 20;
      sched::spawn([q, ops] { for (int o : ops) { Ev e; switch (o) { case 0: q->synchronize(); break; case 1: q->pull(e); break; case 2: q->gap(); break; case 3: q->pop(e); break; default: q->length(); } } vh::cov("reader_ops", ops.size()); });
    }
    for (X *q : x) {
      std::vector<int> ops; for (int k = (int)r.range(2, 6); k > 0; k--) ops.push_back((int)r.below(6));
      threads++; work += ops.size() * 60;
      sched::spawn([q, ops] {
        for (int o : ops) {
          Ev e; timespan t = 5;
          switch (o) {
          case 0: case 1: q->synchronize(); q->reset(); break;
          case 2: q->pull(e); q->read_next(e); break;
          case 3: q->increment_cursor(); q->read_previous(e); break;
          case 4: until_less<X, Sub, 1000000>(*q, t); break;
          default: eventually_less_unbounded<X, Sub>(*q, t);
          }
        }
        vh::cov("reader_ops", ops.size());
      });
    }
  }
  void end() { for (P *q : p) sched::destroy(q); for (X *q : x) sched::destroy(q); }
};

template <size_t N> struct Go {
  typedef RTML_buffer<Ev, N> B;
  static void init(World<B> &W, int writers, Rng &r, size_t init, size_t init2) {
    sched::arena_reset((int)r.below(3) == 0 ? -1 : (int)(r.below(2) * 255));
    sched::now = 1000000000ll * (1 + r.below(5000000000ull)) + r.below(1000000000);
    W.b = sched::make<B>();
    for (int i = 0; i < writers; i++) W.w.push_back(sched::make<RTML_writer<B>>(*W.b));
    for (size_t i = 0; i < init; i++) {          // sequential fill by the writers in turn
      Ev e; Rec d(W.next_id++); timespan t = W.tick++; e.set(d, t);
      PushRec p; p.w = -1; p.call = p.ret = 0;
      W.w[r.below(writers)]->push_all(e);
      W.model.push_back(e);
      if (W.model.size() > N) W.model.erase(W.model.begin());
    }
    for (size_t i = 0; i < init2 && !W.model.empty(); i++) { Ev e; W.b->pull(e); W.model.erase(W.model.begin()); }
  }
  static void finish_case(World<B> &W) { for (auto *w : W.w) sched::destroy(w); sched::destroy(W.b); }
  static uint64_t tick() { static int64_t last = 0; (void)last; return 0; }

  static void random_case(Rng &r, vh::Hash &h) {
    World<B> W;
    int writers = r.chance(4) ? (int)r.range(5, burst ? 8 : 16) : (int)r.range(2, 4);
    init(W, writers, r, r.below(2 * N + 3), r.below(N + 1));
    int phases = (int)r.range(1, 3);
    Crowd<B> crowd;
    if (with_readers) crowd.make(W, r);
    for (int ph = 0; ph < phases; ph++) {
      W.log.clear();
      int active = with_readers ? (int)r.range(1, writers) : (int)r.range(2, writers), tot = 0;
      std::vector<int> per;
      for (int i = 0; i < active; i++) { per.push_back((int)r.range(1, burst ? burst : r.chance(20) ? 6 : 3)); tot += per.back(); }
      int threads = active, work = tot * 60;
      int stamp = r.chance(30) ? 0 : r.chance(50) ? 100 : 50;
      for (int i = 0; i < active; i++) spawn_writer(W, i, per[i], r, stamp);
      if (with_readers) crowd.start(r, threads, work);
      sched::Policy p = sched::random_policy(r, threads, work);
      sched::Result res = sched::run(p, r);
      std::string how = policy_text(p);
      h.add(res.trace); h.add(N);
      vh::cov("schedules"); vh::cov("points", res.points); vh::cov("switches", res.switches);
      W.aba |= res.aba; if (res.aba) vh::cov("aba_schedules");
    std::string pr = run_problem(res);
      if (!pr.empty()) { vh::viol(problem_key(res), vh::sf("N=%zu writers=%d: ", N, active) + pr + "; schedule " + how); return; }
      if (vh::want_sample()) { std::string s; for (auto &x : W.log) s += vh::sf(" w%d%s[%llu,%llu]%s", x.w, show(x.e).c_str(), (unsigned long long)x.call, (unsigned long long)x.ret, x.ovf ? "ovf" : ""); vh::sample(vh::sf("N=%zu before=%s", N, show(W.model).c_str()) + s + " " + how); }
      if (!check_phase(W, how)) return;
      // quiescent operations
      for (int k = (int)r.below(4); k > 0; k--) {
        Ev e;
        switch (r.below(4)) {
        case 0: if (!W.model.empty()) { W.b->pull(e); if (!same(e, W.model.front())) vh::viol("pull", "pulled " + show(e) + " from " + show(W.model)); W.model.erase(W.model.begin()); } break;
        case 1: if (!W.model.empty()) { W.b->pop(e); if (!same(e, W.model.back())) vh::viol("pop", "popped " + show(e) + " from " + show(W.model)); W.model.pop_back();
                  // the slot of a popped event may be reused by a push of another event
                } break;
        default: { size_t i = r.below(W.w.size()); sched::destroy(W.w[i]); W.w[i] = sched::make<RTML_writer<B>>(*W.b); vh::cov("writers_recreated"); } break;
        }
      }
    }
    crowd.end();
    finish_case(W);
  }

  // every schedule of a small scenario with at most `depth` preemptions, given the first thread and the first preemption
  static bool one(const Scenario &s, uint64_t seed, const sched::Policy &p, uint64_t &points, vh::Hash &h) {
    World<B> W;
    Rng r(seed);
    init(W, s.writers, r, s.init, 0);
    for (int i = 0; i < s.writers; i++) spawn_writer(W, i, s.per[i], r, s.stamp_pct);
    sched::Result res = sched::run(p, r);
    points = res.points;
    h = vh::Hash(); h.add(res.trace); h.add(N * 64 + s.init);
    vh::cov("systematic_schedules"); vh::cov("points", res.points); vh::cov("switches", res.switches);
    W.aba |= res.aba; if (res.aba) vh::cov("aba_schedules");
    std::string pr = run_problem(res);
    if (!pr.empty()) { vh::viol(problem_key(res), vh::sf("N=%zu writers=%d: ", N, s.writers) + pr + "; schedule " + policy_text(p)); return false; }
    if (!check_phase(W, policy_text(p))) return false;
    finish_case(W);
    return true;
  }
  // a push suspended at its i-th point while another writer pushes `other` times
  static bool suspended(uint64_t i, int other, size_t init, uint64_t seed) {
    Scenario s = {2, {1, other}, init, 0};
    sched::Policy p; p.kind = sched::LIST; p.first = 0; p.pre.push_back({i + 1, 0});
    uint64_t L; vh::Hash h;
    sched::limit_free = 100000 + (uint64_t)other * 200;
    if (!one(s, seed, p, L, h)) return false;
    vh::distinct(h.h);
    vh::cov("pushes_during_suspension", other);
    return L > i;
  }
  // pushes that get a few points at a time while another writer pushes many times, or waits for them very long
  static void starved(Rng &r) {
    bool waits = r.chance(30);
    Scenario s = {2, {(int)r.range(1, 3), waits ? (int)r.range(1, 3) : (int)r.range(20, r.chance(20) ? 4000 : 400)}, r.below(2 * N + 3), r.chance(60) ? 0 : 50};
    sched::Policy p; p.kind = sched::STARVE; p.victim = 0;
    p.own = waits ? r.range(1, 70) : r.range(1, 40);
    p.rest = waits ? (uint64_t)r.range(20000, 250000) : r.chance(70) ? r.range(20, 100) : r.range(100, 3000);
    uint64_t L; vh::Hash h;
    sched::limit_free = 20000000;
    if (!one(s, r.next(), p, L, h)) return;
    vh::distinct(h.h);
    vh::cov(waits ? "long_waits" : "starved_pushes");
  }
  static void systematic(const Scenario &s, uint64_t seed, int first, uint64_t i, int depth, Rng &r) {
    // case i: the first preemption is at point i+1 (if the run is that long)
    uint64_t L0, L1, L2; vh::Hash h;
    sched::Policy p; p.kind = sched::LIST; p.first = first;
    if (i == 0) { if (!one(s, seed, p, L0, h)) return; vh::distinct(h.h); vh::cov("base_points", L0); }
    for (int t1 = 0; t1 < s.writers - 1; t1++) {
      p.pre.assign(1, {i + 1, t1});
      if (!one(s, seed, p, L1, h)) return;
      if (L1 <= i) { return; }
      vh::distinct(h.h);
      if (depth < 2) continue;
      for (uint64_t j = i + 2; j <= L1; j++)
        for (int t2 = 0; t2 < s.writers - 1; t2++) {
          p.pre.resize(1); p.pre.push_back({j, t2});
          if (!one(s, seed, p, L2, h)) return;
          vh::distinct(h.h);
          if (depth < 3) continue;
          // third preemption: all of them would be millions; a seeded sample
          for (int q = 0; q < 3 && L2 > j + 1; q++) {
            p.pre.resize(2); p.pre.push_back({j + 1 + r.below(L2 - j), (int)r.below(s.writers - 1)});
            uint64_t L3;
            if (!one(s, seed, p, L3, h)) return;
            vh::distinct(h.h);
          }
        }
    }
  }
};

static const uint64_t SPAN = 400;   // points of a scenario that are preempted
int main(int argc, char **argv) {
  vh::init(argc, argv);
  bool sys = vh::has("systematic");
  with_readers = vh::has("readers");
  int depth = (int)vh::opti("depth", 2);
  burst = (int)vh::opti("burst", 0);
  return vh::run_cases([&](uint64_t idx, uint64_t seed) {
    Rng r(seed);
    // the clock moves a little at every reading
    sched::on_clock = [&r] { sched::now += r.below(3) == 0 ? 0 : (int64_t)r.below(1000); return sched::now; };
    if (vh::has("long")) {
      // numbers of pushes after which narrow counters and ring positions come back
      static std::vector<int> P;
      if (P.empty()) { for (int k = 1; k <= 40; k++) P.push_back(k); for (int b = 6; b <= 13; b++) for (int d = -2; d <= 2; d++) P.push_back((1 << b) + d); for (int d = -2; d <= 2; d++) P.push_back(65536 + d); P.push_back(131072); }
      int k = P[idx % P.size()]; uint64_t i = idx / P.size();
      uint64_t base = vh::mix2(vh::ctx().seed, 78);
      if (r.chance(50)) Go<1>::suspended(i, k, r.below(3), base); else Go<3>::suspended(i, k, r.below(6), base);
      return;
    }
    if (vh::has("starve")) { switch (r.below(4)) { case 0: Go<1>::starved(r); break; case 1: Go<2>::starved(r); break; case 2: Go<3>::starved(r); break; default: Go<64>::starved(r); } return; }
    if (sys) {
      static const Scenario S[] = {
        {2, {1, 1}, 0, 0}, {2, {1, 1}, 3, 0}, {2, {2, 1}, 2, 50}, {2, {1, 2}, 1, 100}, {2, {2, 2}, 0, 0}, {3, {1, 1, 1}, 3, 0}, {2, {2, 2}, 5, 50},
      };
      const int NS = sizeof S / sizeof *S;
      uint64_t k = idx;
      const Scenario &s = S[k % NS]; k /= NS;
      int first = (int)(k % s.writers); k /= 3;
      uint64_t base = vh::mix2(vh::ctx().seed, 77);
      int d = s.writers > 2 ? std::min(depth, vh::ctx().thorough ? 2 : 1) : depth;
      if (idx % 2) Go<1>::systematic(s, base, first, k, d, r); else Go<3>::systematic(s, base, first, k, d, r);
      return;
    }
    vh::Hash h;
    switch (r.below(7)) {
    case 0: Go<1>::random_case(r, h); break;
    case 1: Go<2>::random_case(r, h); break;
    case 2: Go<3>::random_case(r, h); break;
    case 3: Go<4>::random_case(r, h); break;
    case 4: Go<5>::random_case(r, h); break;
    case 5: Go<8>::random_case(r, h); break;
    default: Go<64>::random_case(r, h); break;
    }
    vh::distinct(h.h);
  });
}
