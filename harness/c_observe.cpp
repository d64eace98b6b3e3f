// C07: states and lengths observed during concurrent pushes
#include "conc.h"
using vh::Rng;
static int observe = 0;          // the call it makes
static int during = 0;           // one writer with so many pushes and one observer
static int burst = 0;            // pushes of a writer, observations of an observer (0: few)

struct Obs { int who; int kind; size_t b, t, len; uint64_t call, ret; size_t k; };
struct P { uint64_t call, ret; };

template <size_t N> static bool scenario(Rng &r, vh::Hash &h, const sched::Policy *fixed, uint64_t *points, int kind) {
  typedef RTML_buffer<Ev, N> B;
  sched::on_clock = [] { return ++sched::now; };
  int writers = kind < 0 ? (int)(r.chance(4) ? r.range(4, 8) : r.range(1, 3)) : 1 + (kind & 1), observers = kind < 0 ? (int)r.range(1, 2) : 1;
  size_t init = kind < 0 ? r.below(2 * N + 3) : (kind >> 1 & 1) * (N + 1), taken = kind < 0 ? r.below(N + 1) : 0;
  if (during) { writers = observers = 1; init = (size_t)kind * (N + 1) / 2; taken = 0; }
  std::vector<int> per; size_t total = 0;
  for (int i = 0; i < writers; i++) { per.push_back(during ? during : kind < 0 ? (int)r.range(1, burst ? burst : 5) : 4 - writers); total += per.back(); }
  int fill = (int)r.below(3) == 0 ? -1 : (int)(r.below(2) * 255);
  uint64_t ws = r.next();

  // the states after 0, 1, 2, ... pushes
  std::vector<std::pair<size_t, size_t>> f; std::vector<size_t> g;
  B *b; std::vector<RTML_writer<B> *> w; uint32_t id;
  auto setup = [&] {
    Rng q(ws);
    sched::arena_reset(fill);
    b = sched::make<B>(); w.clear(); id = 1;
    for (int i = 0; i < writers; i++) w.push_back(sched::make<RTML_writer<B>>(*b));
    size_t held = 0;
    for (size_t i = 0; i < init; i++) { Ev e; Rec d(id); timespan t = id++; e.set(d, t); w[q.below(writers)]->push_all(e); held = std::min(held + 1, N); }
    for (size_t i = 0; i < taken && held; i++, held--) { Ev e; b->pull(e); }
    return held;
  };
  auto st = [&](size_t &x, size_t &y) { x = y = ~(size_t)0; b->state(x, y); };
  size_t held = setup();
  for (size_t i = 0; i <= total; i++) {
    size_t x, y; st(x, y); f.push_back({x, y}); g.push_back(std::min(held + i, N));
    Ev e; Rec d(100000 + i); timespan t = 1000 + i; e.set(d, t); w[0]->push_all(e);
  }
  setup();

  std::vector<Obs> obs; std::vector<P> pushes;
  bool stamp = r.chance(50);
  for (int i = 0; i < writers; i++) {
    uint32_t id0 = id; id += per[i];
    sched::spawn([&, i, id0] {
      for (int k = 0; k < per[i]; k++) {
        Ev e; { sched::NoSched ns; Rec d(id0 + k); timespan t = 1000 + id0 + k; e.set(d, t); }
        P p; p.call = sched::steps();
        size_t at; { sched::NoSched ns; at = pushes.size(); p.ret = ~0ull; pushes.push_back(p); }
        if (stamp) w[i]->push(e); else w[i]->push_all(e);
        sched::NoSched ns; pushes[at].ret = sched::steps();
      }
    });
  }
  int nobs = during ? 1 : kind < 0 ? (int)r.range(3, burst ? burst : 12) : 3;
  for (int i = 0; i < observers; i++) {
    std::vector<int> kinds; for (int k = 0; k < nobs; k++) kinds.push_back(during ? observe : kind < 0 ? (int)r.below(4) : (kind >> 2) == 0 ? 0 : (kind >> 2) == 1 ? 1 : 3);
    sched::spawn([&, i, kinds] {
      for (int k : kinds) {
        Obs o; o.who = i; o.kind = k; o.b = o.t = o.len = ~(size_t)0;
        o.call = sched::steps();
        sched::point();
        if (k == 0 || k == 2) b->state(o.b, o.t);
        else if (k == 1) o.len = b->length();
        else { timespanw x = 0, y = 0; b->state(o.b, o.t, x, y); }
        sched::NoSched ns;
        o.ret = sched::steps(); obs.push_back(o);
      }
    });
  }
  size_t base_b = ~(size_t)0;
  sched::Policy p = fixed ? *fixed : sched::random_policy(r, writers + observers, total * 60 + observers * nobs * 15);
  sched::Result res = sched::run(p, r);
  sched::on_clock = nullptr;
  if (points) *points = res.points;
  h.add(res.trace); h.add(N * 1024 + init);
  vh::cov("schedules"); vh::cov("points", res.points); vh::cov("switches", res.switches);
  auto ctx = [&] {
    std::string s = vh::sf("; N=%zu held=%zu states:", N, held);
    for (auto &x : f) s += vh::sf(" (%zu,%zu)", x.first, x.second);
    s += " pushes:"; for (auto &q : pushes) s += vh::sf(" [%llu,%llu]", (unsigned long long)q.call, (unsigned long long)q.ret);
    s += " observed:"; for (auto &o : obs) s += o.kind == 1 ? vh::sf(" o%d length=%zu [%llu,%llu]", o.who, o.len, (unsigned long long)o.call, (unsigned long long)o.ret) : vh::sf(" o%d (%zu,%zu) [%llu,%llu]", o.who, o.b, o.t, (unsigned long long)o.call, (unsigned long long)o.ret);
    return s + "; schedule " + policy_text(p);
  };
  (void)base_b;
  if (!run_problem(res).empty()) { vh::viol(problem_key(res), run_problem(res) + ctx()); return false; }
  if (vh::want_sample()) vh::sample(ctx());
  std::vector<Obs> byCall = obs;
  std::sort(byCall.begin(), byCall.end(), [](const Obs &a, const Obs &b) { return a.call < b.call; });
  for (size_t i = 0; i < byCall.size(); i++) {
    Obs &o = byCall[i];
    size_t lo = 0, hi = 0, k;
    for (auto &q : pushes) { lo += q.ret <= o.call; hi += q.call < o.ret; }
    size_t lo0 = lo;
    for (size_t j = 0; j < i; j++) if (byCall[j].ret <= o.call) lo = std::max(lo, byCall[j].k);
    for (k = lo; k <= hi; k++) if (o.kind == 1 ? o.len == g[k] : o.b == f[k].first && o.t == f[k].second) break;
    if (k > hi) {
      std::string what = o.kind == 1 ? vh::sf("length %zu", o.len) : vh::sf("state (%zu,%zu)", o.b, o.t);
      bool ever = false; for (size_t q = lo0; q <= hi; q++) ever |= o.kind == 1 ? o.len == g[q] : o.b == f[q].first && o.t == f[q].second;
      vh::viol(ever ? "backwards" : o.kind == 1 ? "length" : "torn", what + vh::sf(" seen in [%llu,%llu] was not in force then (after %zu to %zu pushes)", (unsigned long long)o.call, (unsigned long long)o.ret, lo, hi) + ctx());
      return false;
    }
    o.k = k;
    vh::cov("observations"); if (hi > lo0) vh::cov("observations_during_pushes");
    vh::distinct(vh::mix2(res.trace, i));
  }
  size_t x, y; st(x, y);
  if (f[total] != std::make_pair(x, y) || b->length() != g[total]) { vh::viol("final", vh::sf("final state (%zu,%zu) length %zu", x, y, b->length()) + ctx()); return false; }
  for (auto *q : w) sched::destroy(q);
  sched::destroy(b);
  return true;
}

int main(int argc, char **argv) {
  vh::init(argc, argv);
  bool sys = vh::has("systematic");
  burst = (int)vh::opti("burst", 0);
  return vh::run_cases([&](uint64_t idx, uint64_t seed) {
    if (vh::has("long")) {           // an observer suspended at its i-th point while a writer pushes many times
      static std::vector<int> P;
      if (P.empty()) { for (int k = 1; k <= 40; k++) P.push_back(k); for (int b = 6; b <= 13; b++) for (int d = -2; d <= 2; d++) P.push_back((1 << b) + d); P.push_back(65536); }
      during = P[idx % P.size()]; uint64_t i = idx / P.size();
      sched::Policy p; p.kind = sched::LIST; p.first = 1; p.pre.push_back({i + 1, 0});
      sched::limit_free = 100000 + (uint64_t)during * 200;
      for (int kind = 0; kind < 4; kind++)
        for (int n = 1; n <= 2; n++)
          for (int call = 0; call < 4; call++) {
            if (during > 1000 && (kind == 0 || (call == 1 && kind > 1))) continue;
            Rng r(seed); vh::Hash h; uint64_t L; observe = call;
            if (!(n == 2 ? scenario<2>(r, h, &p, &L, kind) : scenario<1>(r, h, &p, &L, kind))) return;
            vh::cov("suspended_observations");
          }
      vh::cov("pushes_during_suspension", during);
      return;
    }
    if (vh::has("starve")) {         // an observer that gets a few points at a time while a writer pushes many times
      Rng r(seed); vh::Hash h;
      during = (int)r.range(20, r.chance(15) ? 3000 : 300); observe = (int)r.below(4);
      sched::Policy p; p.kind = sched::STARVE; p.victim = 1;
      p.own = r.range(1, 16); p.rest = r.chance(70) ? r.range(15, 100) : r.range(100, 1000);
      sched::limit_free = 20000000;
      int kind = (int)r.below(4);
      if (!(r.chance(50) ? scenario<4>(r, h, &p, nullptr, kind) : scenario<16>(r, h, &p, nullptr, kind))) return;
      vh::cov("starved_observations");
      return;
    }
    if (sys) {                       // every schedule with up to two (thorough: sampled three) preemptions of small scenarios
      int kind = (int)(idx % 12), first = (int)(idx / 12 % 2); uint64_t i = idx / 24, L1 = 0, L2, L3; Rng r3(seed);
      int other = (kind & 1) + 1;    // threads besides the running one
      auto one = [&](const sched::Policy &p, uint64_t *L) { Rng r(vh::mix2(vh::ctx().seed, kind)); vh::Hash h; vh::cov("systematic_schedules"); return scenario<2>(r, h, &p, L, kind); };
      sched::Policy p; p.kind = sched::LIST; p.first = first ? other : 0;     // the observer or a writer first
      for (int t1 = 0; t1 < other; t1++) {
        p.pre.assign(1, {i + 1, t1});
        if (!one(p, &L1)) return;
        if (L1 <= i) return;
        for (uint64_t j = i + 2; j <= L1; j++)
          for (int t2 = 0; t2 < other; t2++) {
            if (other > 1 && !vh::ctx().thorough && (j + idx) % 4) continue;
            p.pre.resize(1); p.pre.push_back({j, t2});
            if (!one(p, &L2)) return;
            if (vh::ctx().thorough && L2 > j + 1) { p.pre.push_back({j + 1 + r3.below(L2 - j), (int)r3.below(other)}); if (!one(p, &L3)) return; }
          }
      }
      return;
    }
    Rng r(seed); vh::Hash h;
    switch (r.below(5)) {
    case 0: scenario<1>(r, h, nullptr, nullptr, -1); break;
    case 1: scenario<2>(r, h, nullptr, nullptr, -1); break;
    case 2: scenario<3>(r, h, nullptr, nullptr, -1); break;
    case 3: scenario<4>(r, h, nullptr, nullptr, -1); break;
    default: scenario<16>(r, h, nullptr, nullptr, -1); break;
    }
  });
}
