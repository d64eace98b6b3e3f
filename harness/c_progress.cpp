// C25: threads are suspended inside (or between) their calls, for good; the others have to get on. Then everybody is resumed.
#include "conc.h"
#include <rmtld3/reader.h>
using vh::Rng; using vh::sf;

enum Op { PUSH, PUSH_ALL, STATE, STATE4, LENGTH, BREAD, SYNC, PULL, POP, GAP, RLEN, XSYNC, XSET, XPULL, XNEXT, NOPS };
static const char *opname[] = {"push", "push_all", "state", "state(times)", "length", "read", "synchronize", "pull", "pop", "gap", "reader length", "trace synchronize", "trace set", "trace pull", "trace read_next"};

struct Script { bool writer; std::vector<Op> ops; uint64_t stop_at; };    // stop_at: own step at which the thread is suspended (0: never)
struct Th { Script s; int id = -1; uint64_t own = 0; bool stopped = false, done = false; int in = -1; uint64_t calls = 0; };

template <size_t N> static bool scenario(Rng &r, vh::Hash &h, std::vector<Script> victims, std::vector<Script> others, size_t init, const sched::Policy *fixed, uint64_t *own) {
  typedef RTML_buffer<Ev, N> B; typedef RTML_writer<B> W; typedef RTML_reader<B> R; typedef RMTLD3_reader<R> X;
  sched::on_clock = [] { return sched::now += 1; };
  sched::now = 1000000;
  sched::arena_reset(r.below(3) == 0 ? -1 : (int)(r.below(2) * 255));
  B *b = sched::make<B>();
  size_t T = victims.size() + others.size(), total = init;
  std::vector<Th> t(T);
  std::vector<W *> w; std::vector<R *> q; std::vector<X *> x;
  for (size_t i = 0; i < T; i++) {
    t[i].s = i < victims.size() ? victims[i] : others[i - victims.size()];
    w.push_back(t[i].s.writer ? sched::make<W>(*b) : nullptr);
    q.push_back(t[i].s.writer ? nullptr : sched::make<R>(*b)); x.push_back(t[i].s.writer ? nullptr : sched::make<X>(*b));
  }
  W *w0 = sched::make<W>(*b);
  uint32_t id = 1;
  for (size_t i = 0; i < init; i++) { Ev e; Rec d(id); timespan tm = id++; e.set(d, tm); w0->push_all(e); }
  for (size_t i = 0; i < T; i++) if (q[i] && r.chance(60)) { q[i]->synchronize(); x[i]->synchronize(); x[i]->reset(); }
  bool solo = others.size() == 1;
  uint64_t bound = 500 + 80 * N, worst = 0;
  size_t left = others.size();
  bool push_stopped = false;
  std::string late;
  size_t pushed = 0;
  auto settled = [&] { for (size_t i = 0; i < victims.size(); i++) if (!t[i].stopped && !t[i].done) return false; return true; };
  auto body = [&](size_t i) {
    Th &me = t[i];
    for (Op op : me.s.ops) {
      if (me.s.writer && i >= victims.size() && push_stopped) { vh::cov("pushes_left_out"); continue; }
      sched::point();
      Ev e; uint32_t n = 0;
      if (me.s.writer) { sched::NoSched ns; n = id++; Rec d(n); timespan tm = n; e.set(d, tm); pushed++; }
      uint64_t t0 = sched::steps();
      me.in = op;
      size_t a = 0, c = 0; timespanw ta = 0, tb = 0; timespan tm = 0;
      switch (op) {
      case PUSH: w[i]->push(e); break;
      case PUSH_ALL: w[i]->push_all(e); break;
      case STATE: b->state(a, c); break;
      case STATE4: b->state(a, c, ta, tb); break;
      case LENGTH: b->length(); break;
      case BREAD: b->read(e, 0); break;
      case SYNC: q[i]->synchronize(); break;
      case PULL: q[i]->pull(e); break;
      case POP: if (q[i]->length() > 0) q[i]->pop(e); q[i]->synchronize(); break;
      case GAP: q[i]->gap(); break;
      case RLEN: q[i]->length(); break;
      case XSYNC: x[i]->synchronize(); x[i]->reset(); break;
      case XSET: tm = 1000000; x[i]->set(tm); x[i]->reset(); break;
      case XPULL: x[i]->pull(e); break;
      case XNEXT: x[i]->read_next(e); break;
      default: break;
      }
      me.in = -1; me.calls++;
      if (i >= victims.size()) {
        uint64_t took = sched::steps() - t0;
        if (took > worst) worst = took;
        if (solo && took > bound && late.empty()) { sched::NoSched ns; late = sf("%s took %llu steps although nobody else ran", opname[op], (unsigned long long)took); }
        vh::cov(me.s.writer ? "pushes_past_suspended" : "reads_past_suspended");
      }
    }
    me.done = true;
    if (i >= victims.size() && --left == 0) for (size_t k = 0; k < victims.size(); k++) sched::resume(t[k].id);
  };
  for (size_t i = 0; i < T; i++) t[i].id = sched::spawn([&, i] {
    if (i >= victims.size()) sched::block([&] {
      if (!settled()) return false;
      return true;
    });
    body(i);
  });
  sched::on_point = [&] {
    int s = sched::self();
    if (s < 0 || (size_t)s >= victims.size()) return;
    Th &v = t[s];
    if (++v.own == v.s.stop_at && left > 0) {
      sched::suspend(v.id); v.stopped = true;
      if (v.in >= 0) { if (v.s.writer) { push_stopped = true; vh::cov("suspended_in_push"); } else vh::cov("suspended_in_read"); }
      else vh::cov("suspended_between_calls");
    }
  };
  sched::Policy p = fixed ? *fixed : sched::random_policy(r, (int)T, 60 * T);
  sched::Result res = sched::run(p, r);
  sched::on_point = nullptr; sched::on_clock = nullptr;
  if (own) *own = t[0].own;
  h.add(res.trace); h.add(N * 64 + init);
  vh::cov("schedules"); vh::cov("points", res.points);
  auto ctx = [&] {
    std::string s = sf("; N=%zu init=%zu", N, init);
    for (size_t i = 0; i < T; i++) {
      s += sf(" | thread %zu%s%s%s:", i, i < victims.size() ? t[i].stopped ? " suspended at its step " : "" : "", i < victims.size() && t[i].stopped ? std::to_string(t[i].s.stop_at).c_str() : "", t[i].in >= 0 ? sf(" in %s", opname[t[i].in]).c_str() : "");
      for (Op o : t[i].s.ops) s += sf(" %s", opname[o]);
      s += sf(" (%llu done)", (unsigned long long)t[i].calls);
    }
    return s + sf("; longest call %llu steps; schedule ", (unsigned long long)worst) + policy_text(p);
  };
  if (vh::want_sample()) vh::sample(ctx());
  if (!res.bad.empty()) { vh::viol("bad-access", run_problem(res) + ctx()); return false; }
  if (!res.finished) {
    bool surv = left > 0;
    vh::viol(surv ? "waits-for-suspended" : "no-progress", sf("%s: %s", surv ? "a call does not return while other threads are suspended" : "threads do not finish after being resumed", run_problem(res).c_str()) + ctx());
    return false;
  }
  if (!late.empty()) { vh::viol("many-steps", late + ctx()); return false; }
  size_t want = std::min(N, init + pushed);
  total = b->length();
  if (total != want) { vh::viol("length", sf("length %zu after %zu pushes", total, init + pushed) + ctx()); return false; }
  for (size_t i = 0; i < T; i++) if (t[i].stopped) vh::cov("resumed");
  vh::distinct(h.h);
  for (auto *k : w) if (k) sched::destroy(k);
  for (auto *k : q) if (k) sched::destroy(k);
  for (auto *k : x) if (k) sched::destroy(k);
  sched::destroy(w0); sched::destroy(b);
  return true;
}

static Script script(Rng &r, bool writer, size_t n) {
  Script s; s.writer = writer; s.stop_at = 0;
  while (n--) s.ops.push_back(writer ? r.chance(50) ? PUSH : PUSH_ALL : (Op)(STATE + r.below(NOPS - STATE)));
  return s;
}
template <size_t N> static void random_case(Rng &r) {
  vh::Hash h;
  std::vector<Script> v, o;
  int nv = (int)r.range(1, 3), no = r.chance(50) ? 1 : (int)r.range(2, 3);
  for (int i = 0; i < nv; i++) { Script s = script(r, r.chance(60), r.range(1, 5)); s.stop_at = 1 + r.below(s.ops.size() * (s.writer ? 45 : 25)); v.push_back(s); }
  for (int i = 0; i < no; i++) o.push_back(script(r, r.chance(40), r.range(2, 10)));
  scenario<N>(r, h, v, o, r.below(2 * N + 4), nullptr, nullptr);
}
// a thread suspended at every point of a call, with one other thread making every call
template <size_t N> static void systematic(uint64_t idx) {
  int kind = (int)(idx % NOPS), fill = (int)(idx / NOPS % 3), who = (int)(idx / NOPS / 3 % 2), first = (int)(idx / NOPS / 6 % 2); uint64_t k = idx / NOPS / 12 + 1, own = 0;
  Rng r(vh::mix2(vh::ctx().seed, idx));
  Script s; s.writer = kind <= PUSH_ALL; s.ops = {(Op)kind, (Op)kind}; s.stop_at = k;
  Script o; o.writer = who == 1; o.stop_at = 0;
  if (o.writer) for (int i = 0; i < 3; i++) { o.ops.push_back(PUSH); o.ops.push_back(PUSH_ALL); }
  else for (int z = 0; z < 2; z++) for (int i = STATE; i < NOPS; i++) o.ops.push_back((Op)i);
  sched::Policy p; p.kind = sched::LIST; p.first = first;
  vh::Hash h; h.add(idx);
  vh::cov("systematic_schedules");
  scenario<N>(r, h, {s}, {o}, fill == 0 ? 0 : fill == 1 ? N : 2 * N + 2, &p, &own);
  if (own >= k) vh::cov("suspension_points");
}

int main(int argc, char **argv) {
  vh::init(argc, argv);
  bool sys = vh::has("systematic");
  return vh::run_cases([&](uint64_t idx, uint64_t seed) {
    if (sys) {
      switch (idx % 3) {
      case 0: systematic<1>(idx / 3); break;
      case 1: systematic<2>(idx / 3); break;
      default: systematic<4>(idx / 3);
      }
      return;
    }
    Rng r(seed);
    switch (r.below(5)) {
    case 0: random_case<1>(r); break;
    case 1: random_case<2>(r); break;
    case 2: random_case<3>(r); break;
    case 3: random_case<5>(r); break;
    default: random_case<16>(r);
    }
  });
}
