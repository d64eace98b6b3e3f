// C23: monitors that run concurrently with writers, against the evaluation of the recorded history
#include "conc.h"
#include "vpthread.h"
#include <periodicmonitor.h>
#include <set>
using vh::Rng; using vh::sf;

struct HEv { int d; timespan t; };
static bool is(int k, const char *o) { return !strcmp(NODES[k].op, o); }
static bool past(int k) { return is(k, "S") || is(k, "H") || is(k, "P=") || is(k, "H=") || (NODES[k].l >= 0 && past(NODES[k].l)) || (NODES[k].r >= 0 && past(NODES[k].r)); }
// proposition evaluations that a window of n events may take
static double cost(int k, double n) {
  const NodeInfo &i = NODES[k];
  double c = (i.l >= 0 ? cost(i.l, n) : 0) + (i.r >= 0 ? cost(i.r, n) : 0) + 1;
  if (is(k, "Eu")) return n * c;
  if (i.l < 0 || is(k, "!") || is(k, "&") || is(k, "|") || is(k, "<") || is(k, "+") || is(k, "*")) return c;
  return (i.b + 1 < n ? i.b + 1 : n) * c;
}
static std::string fstr(int i) {
  const NodeInfo &n = NODES[i];
  std::string s = n.op;
  if (is(i, "p")) return sf("p%d", n.p);
  if (is(i, "k")) return sf("%ld", n.b);
  if (n.l < 0) return s;
  if (!is(i, "!") && !is(i, "&") && !is(i, "|") && !is(i, "<") && !is(i, "Eu") && !is(i, "+") && !is(i, "*")) s += sf("[%ld]", n.b);
  s += "(" + fstr(n.l); if (n.r >= 0) s += "," + fstr(n.r); s += ")";
  return s.size() > 500 ? s.substr(0, 500) + "..." : s;
}
static const char *vname(int v) { return v == T_TRUE ? "true" : v == T_FALSE ? "false" : v == T_UNKNOWN ? "unknown" : v == 99 ? "no start" : "?"; }
static const int NOSTART = 99;

typedef Event<int> ME;
// the verdict over the first m events of the history
static int offline(int k, const std::vector<HEv> &h, size_t m, timespan t0) {
  typedef RTML_buffer<ME, 220> B; typedef RMTLD3_reader<RTML_reader<B> > X;
  B b;
  for (size_t i = 0; i < m; i++) b.push(ME(h[i].d, h[i].t));
  X x(b);
  x.synchronize();
  timespan t = t0;
  if (x.set(t) != 0) return NOSTART;
  return Table<X>::e(k, x, t);
}

struct Run { int64_t lo, hi, end; int sync, v; uint64_t s0, s1; int64_t at; };
static int evaluating;                                    // evaluations in progress
static uint64_t the_n; static int64_t the_done;           // pushes in force, pushes returned
static std::function<void()> poll_order;

template <typename X> struct Body {
  X *x; int k; timespan t0; std::vector<Run> runs; int out = T_UNKNOWN;
  void once() {
    Run r; { sched::NoSched ns; if (poll_order) poll_order(); r.lo = the_done; r.s0 = sched::steps(); r.at = sched::now; }
    r.sync = x->synchronize();
    { sched::NoSched ns; if (poll_order) poll_order(); r.hi = the_n; evaluating++; }
    if (x->set(t0) == 0) { out = Table<X>::e(k, *x, t0); r.v = out; } else r.v = NOSTART;
    sched::NoSched ns; if (poll_order) poll_order(); r.end = the_n; r.s1 = sched::steps(); runs.push_back(r); evaluating--;
  }
};
template <typename X> struct PMon : RTML_monitor<'t', 'e', 's', 't'> {
  Body<X> *b;
  PMon(useconds_t p, Body<X> *x) : RTML_monitor(p), b(x) {}
  void run() { b->once(); }
};

template <size_t N> struct Sc {
  typedef RTML_buffer<ME, N> B;
  typedef RMTLD3_reader<RTML_reader<B> > X;
  static bool run(Rng &r, vh::Hash &hs, const sched::Policy *fixed, uint64_t *points, int kind) {
    sched::arena_reset((int)r.below(3) == 0 ? -1 : (int)(r.below(2) * 255));
    int fi = kind >= 0 ? kind : (int)r.below(NNODES);
    for (;; fi = (fi + 1) % NNODES) if (!NODES[fi].dur && !NODES[fi].ib && !is(fi, "T") && !is(fi, "F") && (N >= 30 || !past(fi))) {
      double c = kind >= 0 ? 0 : cost(fi, 28);
      if (c < 2000 || r.below((uint64_t)c) < 2000) break;
      vh::cov("long_formulas_passed_over");
    }
    vpt::reset(&r); vpt::spurious_pct = 0; sched::wake_delay_max = 0;
    sched::now = 1000000000ll + r.below(1000000) * 1000;
    std::set<int> wco;
    timespan clk = 1 + r.below(30); int step = r.chance(40) ? 1 : r.chance(60) ? 5 : 15;
    sched::on_clock = [&]() -> int64_t { if (!sched::in() || wco.count(sched::self())) return clk += 1 + r.below(step); return sched::now; };
    int writers = kind >= 0 ? 1 + kind % 2 : (int)r.range(1, 3);
    int nm = kind >= 0 ? 1 : r.chance(75) ? 1 : 2;
    bool periodic = kind >= 0 ? false : r.chance(40);
    B *b = sched::make<B>();
    std::vector<RTML_writer<B> *> w;
    for (int i = 0; i < writers; i++) w.push_back(sched::make<RTML_writer<B> >(*b));
    std::vector<HEv> hist;
    int bias = r.below(5), lastd = r.below(4);
    int third = 3;        // propositions are any numbers
    for (int k = 0; k < NNODES; k++) if (is(k, "p") && (NODES[k].p < 0 || NODES[k].p > 3)) third = NODES[k].p;
    auto data = [&] { if ((int)r.below(5) >= bias) lastd = r.below(4); return lastd == 3 ? third : lastd; };
    size_t before = kind >= 0 ? kind % 3 : r.below(N >= 30 ? 10 : 2 * N + 2);
    for (size_t i = 0; i < before; i++) { ME e; int d = data(); timespan t = 0; e.set(d, t); w[r.below(writers)]->push(e); hist.push_back({d, e.getTime()}); }
    timespan lo_t = hist.empty() ? clk : hist[N >= 30 ? 0 : hist.size() - 1].t;
    std::vector<std::unique_ptr<Body<X> > > bodies;
    for (int i = 0; i < nm; i++) {
      bodies.emplace_back(new Body<X>()); Body<X> *p = bodies.back().get();
      p->x = sched::make<X>(*b); p->k = fi;
      // around the first events that stay in the buffer; sometimes before all, sometimes not yet recorded
      size_t f = N >= 30 ? r.below(hist.size() < 4 ? hist.size() + 1 : 4) : hist.size() < 3 ? hist.size() : hist.size() - 1 - r.below(2);
      timespan base = f < hist.size() ? hist[f].t : lo_t + step;
      p->t0 = r.chance(5) ? r.below(lo_t + 1) : base + (r.chance(50) ? r.below(2) : r.below(step + 1));
      if (kind >= 0) p->t0 = lo_t + (kind % 2) + (hist.empty() ? step : 0);
    }
    struct P { int d; timespan t; int64_t call, ret; int64_t nap; };
    std::vector<std::vector<P> > ps(writers);
    uint64_t nap = r.chance(30) ? 0 : 30 + r.below(71);
    int total = 0; bool much = kind < 0 && N < 30 && r.chance(8) && cost(fi, 170) < 20000; int limit = N >= 30 ? 28 - (int)before : much ? 150 : 14;
    for (int i = 0; i < writers; i++) {
      int c = kind >= 0 ? 3 - writers + 1 : (int)r.range(1, much ? 100 : 8);
      if (total + c > limit) c = limit - total;
      for (int q = 0; q < c; q++) ps[i].push_back({data(), 0, -1, -1, kind >= 0 || r.below(100) >= nap ? 0 : (int64_t)r.below(3) * 100000});
      total += c;
    }
    bool keep = writers == 1 && r.chance(40);
    static size_t lb, lt; static B *sb; sb = b; b->state(lb, lt); the_n = before; the_done = before;
    poll_order = [] { size_t u, v; sb->state(u, v); if (u != lb || v != lt) { the_n++; lb = u; lt = v; } };
    int live = writers;
    for (int i = 0; i < writers; i++) {
      int co = sched::spawn([&, i] {
        for (auto &p : ps[i]) {
          if (p.nap) vpt::sleep_until(sched::now + p.nap);
          ME e; { sched::NoSched ns; timespan t = keep ? (clk += 1 + r.below(step)) : 0; e.set(p.d, t); }
          if (keep) w[i]->push_all(e); else w[i]->push(e);
          sched::NoSched ns; p.t = e.getTime(); the_done++;
        }
        live--;
      });
      wco.insert(co);
    }
    int evals = kind >= 0 ? 3 : (int)r.range(2, 8);
    std::vector<PMon<X> *> ms;
    for (int i = 0; i < nm; i++) {
      Body<X> *p = bodies[i].get();
      int64_t per = 100 * r.range(1, 3);
      if (periodic) sched::spawn([&, p, per] {
        PMon<X> *m; { sched::NoSched ns; m = (PMon<X> *)sched::arena_alloc(sizeof(PMon<X>)); }
        new (m) PMon<X>((useconds_t)per, p);
        m->enable();
        if (live) sched::block([&] { return live == 0; });
        vpt::sleep_until(sched::now + 2 * per * 1000);
        m->disable(); m->join();
        sched::NoSched ns; m->~PMon<X>(); sched::arena_dead(m, sizeof *m);
      });
      else sched::spawn([&, p, evals] { for (int q = 0; q < evals; q++) { sched::point(); if (nap && q) vpt::sleep_until(sched::now + 100000); p->once(); } });
    }
    sched::on_point = [] { poll_order(); };
    sched::limit_free = 400000; sched::limit_fair = 4000000; evaluating = 0;
    sched::Policy p = fixed ? *fixed : sched::random_policy(r, writers + nm, 200 + r.below(1500));
    sched::Result res = sched::run(p, r);
    sched::on_point = nullptr;
    if (points) *points = res.points;
    vh::cov("schedules"); vh::cov("points", res.points); vh::cov("switches", res.switches); if (periodic) vh::cov("periodic_monitors");
    hs.add(res.trace); hs.add(fi);
    poll_order();
    std::vector<HEv> fresh;
    for (auto &v : ps) for (auto &q : v) fresh.push_back({q.d, q.t});
    std::stable_sort(fresh.begin(), fresh.end(), [](const HEv &x, const HEv &y) { return x.t < y.t; });
    hist.insert(hist.end(), fresh.begin(), fresh.end());
    auto ctx = [&] {
      std::string s = sf("; N=%zu, %zu events before; history:", N, before);
      for (auto &e : hist) s += sf(" %d@%ld", e.d, (long)e.t);
      for (auto &q : bodies) { s += sf("; monitor of %s from %ld:", fstr(q->k).c_str(), (long)q->t0); for (auto &x : q->runs) s += sf(" [%lld..%lld/%lld]=%s", (long long)x.lo, (long long)x.hi, (long long)x.end, vname(x.v)); }
      return s + "; schedule " + policy_text(p);
    };
    // deep formulas over long windows take very many steps; that an evaluation ends is C12's matter
    if (res.livelock && res.bad.empty() && evaluating) { sched::on_clock = nullptr; poll_order = nullptr; vh::cov("evaluations_too_long"); return true; }
    if (!run_problem(res).empty()) { sched::on_clock = nullptr; poll_order = nullptr; vh::viol(problem_key(res), run_problem(res) + ctx()); return false; }
    // a last evaluation when everything has arrived
    the_done = the_n = hist.size();
    for (auto &q : bodies) q->once();
    sched::on_clock = nullptr; poll_order = nullptr;
    for (auto &q : bodies) {
      int all = offline(q->k, hist, hist.size(), q->t0);
      int64_t start = -1; for (size_t i = 0; i + 1 < hist.size(); i++) if (hist[i].t <= q->t0 && q->t0 < hist[i + 1].t) start = i;
      int64_t blo = 0, bhi = 0;                              // position of the window's bottom
      for (size_t a = 0; a < q->runs.size(); a++) {
        Run &x = q->runs[a];
        bool last = a + 1 == q->runs.size();
        if (x.sync == X::GAP) { blo = std::max(blo, x.lo - (int64_t)N); bhi = std::max<int64_t>(bhi, x.hi - (int64_t)N); }
        if (x.end > blo + (int64_t)N) { vh::cov("dropped"); continue; }
        if (start >= 0 && start < bhi) { vh::cov("start_dropped"); continue; }
        std::set<int> ok;
        std::string t;
        for (int64_t m = x.lo; m <= x.hi; m++) { int v = offline(q->k, hist, m, q->t0); ok.insert(v); t += sf(" %s", vname(v)); }
        vh::cov("verdicts_checked"); vh::cov(vname(x.v));
        if (x.end > x.lo) vh::cov("evaluated_during_push");
        if (x.hi > x.lo && ok.size() > 1) vh::cov("window_matters");
        if (a && q->runs[a - 1].v != x.v) vh::cov("verdict_changed");
        bool def = x.v == T_TRUE || x.v == T_FALSE;
        if (def && x.v != all) { vh::viol("definite", sf("evaluation %zu gave %s, the whole history gives %s", a, vname(x.v), vname(all)) + ctx()); return false; }
        if (!ok.count(x.v)) { vh::viol(last ? "final" : "verdict", sf("evaluation %zu gave %s, but the first %lld to %lld events give%s", a, vname(x.v), (long long)x.lo, (long long)x.hi, t.c_str()) + ctx()); return false; }
        if (def) { vh::cov("definite"); hs.add(a * 4 + x.v); }
      }
    }
    if (vh::want_sample()) vh::sample(ctx());
    for (auto &q : bodies) sched::destroy(q->x);
    for (auto *q : w) sched::destroy(q);
    sched::destroy(b);
    return true;
  }
};

int main(int argc, char **argv) {
  vh::init(argc, argv);
  bool sys = vh::has("systematic");
  return vh::run_cases([&](uint64_t idx, uint64_t seed) {
    if (sys) {
      int kind = (int)(idx % NNODES), first = (int)(idx / NNODES % 2); uint64_t i = idx / NNODES / 2, L1 = 0, L2;
      int other = 1 + kind % 2;
      auto one = [&](const sched::Policy &p, uint64_t *L) { Rng r(vh::mix2(vh::ctx().seed, kind)); vh::Hash h; vh::cov("systematic_schedules"); bool ok = kind % 4 == 3 ? Sc<4>::run(r, h, &p, L, kind) : Sc<38>::run(r, h, &p, L, kind); vh::distinct(h.h); return ok; };
      sched::Policy p; p.kind = sched::LIST; p.first = first ? other : 0;
      for (int t1 = 0; t1 < other; t1++) {
        p.pre.assign(1, {i + 1, t1});
        if (!one(p, &L1)) return;
        if (L1 <= i) return;
        uint64_t stride = vh::ctx().thorough ? 1 : 1 + L1 / 20;
        for (uint64_t j = i + 2 + (idx % stride); j <= L1; j += stride)
          for (int t2 = 0; t2 < other; t2++) { p.pre.resize(1); p.pre.push_back({j, t2}); if (!one(p, &L2)) return; }
      }
      return;
    }
    Rng r(seed); vh::Hash h;
    switch (r.below(8)) {
    case 0: Sc<3>::run(r, h, nullptr, nullptr, -1); break;
    case 1: Sc<6>::run(r, h, nullptr, nullptr, -1); break;
    default: Sc<38>::run(r, h, nullptr, nullptr, -1); break;
    }
    vh::distinct(h.h);
  });
}
