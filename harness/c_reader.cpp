// C09: readers running concurrently with writers, against the push order
#include "conc.h"
using vh::Rng;
#ifdef VERIF_NATIVE
enum { NATIVE = 1 };
#else
enum { NATIVE = 0 };
#endif
static int burst = 40;
static int many = 0;             // one writer with so many pushes and one reader

// The pushes in the order in which they changed the state, obtained by looking at the state before every step.
template <typename B> struct Order {
  B *b; size_t lb, lt; uint64_t n;      // n: pushes in force
  void start(B *x) { b = x; b->state(lb, lt); n = 0; }
  void poll() { size_t u, v; b->state(u, v); if (u != lb || v != lt) { n++; lb = u; lt = v; } }
};

struct Act { int who, op; uint64_t call, ret; int64_t t_call, t_ret; int rc; uint32_t id; bool ok; timespan time; };
enum { SYNC, PULL, GAPQ, LEN };

template <size_t N> struct Sc {
  typedef RTML_buffer<Ev, N> B;
  typedef RTML_reader<B> R;

  static bool run(Rng &r, vh::Hash &h, const sched::Policy *fixed, uint64_t *points, int kind) {
    sched::arena_reset((int)r.below(3) == 0 ? -1 : (int)(r.below(2) * 255));
    sched::now = 1000 + r.below(1000000);
    int64_t step = r.chance(8) ? 1ll << r.range(8, 40) : 0;      // times that agree in their lower bits
    sched::on_clock = [&r, step] { return sched::now += step ? step : 1 + r.below(5); };   // strictly increasing: gaps are told by times
    int writers = kind < 0 ? (int)(r.chance(4) ? r.range(4, 8) : r.range(1, 3)) : 1 + kind % 2, readers = kind < 0 ? (int)r.range(1, 2) : 1;
    if (many) writers = readers = 1;
    B *b = sched::make<B>();
    std::vector<RTML_writer<B> *> w; std::vector<R *> rd;
    for (int i = 0; i < writers; i++) w.push_back(sched::make<RTML_writer<B>>(*b));
    for (int i = 0; i < readers; i++) rd.push_back(sched::make<R>(*b));
    uint32_t id = 1;
    // events before: sequentially, readers partly follow
    std::vector<uint32_t> order; std::map<uint32_t, timespan> when;
    size_t init = kind < 0 ? r.below(2 * N + 3) : (kind / 2 % 3) * N / 2 + kind % 3;
    std::vector<int64_t> next(readers, 0), last(readers, -1);
    int64_t T = 0;
    for (size_t i = 0; i < init; i++) {
      Ev e; Rec d(id); timespan t = 0; e.set(d, t);
      w[r.below(writers)]->push(e); order.push_back(id++); T++; when[e.getData().id] = e.getTime();
    }
    // quiescent start: every reader synchronised in a known position
    std::vector<char> pre(readers, 0);
    for (int i = 0; i < readers; i++) if (kind >= 0 ? kind / 6 % 2 : r.chance(60)) {
      bool lost = T >= next[i] + (int64_t)N + 1;
      int g = rd[i]->synchronize();
      if ((g == R::GAP) != lost) { vh::viol("seq-sync", vh::sf("synchronize returned %d, next %lld of %lld, N=%zu", g, (long long)next[i], (long long)T, N)); return false; }
      if (lost) next[i] = T - (int64_t)N;
      size_t k = r.below(N + 1); Ev e;
      while (k-- && rd[i]->pull(e) == R::AVAILABLE) next[i]++;
      pre[i] = 1;
    }
    // a push per writer and step
    struct PR { uint32_t id; uint64_t call, ret; timespan t; };
    std::vector<PR> pushes; int total = 0;
    std::vector<Act> acts;
    static Order<B> ord; ord.start(b); int64_t T0 = T;
    int wn[8], keep = r.chance(30) || NATIVE;      // keep: the caller gives the (increasing) times
    for (int i = 0; i < writers; i++) {
      wn[i] = many ? many : NATIVE ? (int)r.range(1, burst) : kind < 0 ? (int)r.range(1, 2 * N + 4 > 14 ? 14 : 2 * N + 4) : 3 - writers + (int)N;
      total += wn[i];
      uint32_t id0 = id; id += wn[i];
      sched::spawn([&, i, id0] {
        for (int k = 0; k < wn[i]; k++) {
          Ev e; size_t at; { sched::NoSched ns; Rec d(id0 + k); timespan t = 2000000000 + (id0 + k) * (step ? step : 7) + 1; e.set(d, t); at = pushes.size(); pushes.push_back({id0 + k, sched::steps(), ~0ull, 0}); }
          if (keep) w[i]->push_all(e); else w[i]->push(e);
          sched::NoSched ns; pushes[at].ret = sched::steps(); pushes[at].t = e.getTime();
        }
      });
    }
    int racts = 0;
    for (int i = 0; i < readers; i++) {
      std::vector<int> ops; int m = NATIVE ? (int)r.range(4, burst) : kind < 0 ? (int)r.range(4, 24) : 5;
      if (kind >= 0) { static const int f[2][6] = {{SYNC, PULL, PULL, SYNC, PULL, PULL}, {PULL, SYNC, PULL, GAPQ, PULL, SYNC}}; ops.assign(f[kind / 6 % 2], f[kind / 6 % 2] + 6); }
      else { unsigned ps = (unsigned)r.range(10, 50); for (int k = 0; k < m; k++) ops.push_back(r.chance(ps) ? SYNC : r.chance(80) ? PULL : r.chance(70) ? GAPQ : LEN); }
      racts += ops.size();
      sched::spawn([&, i, ops] {
        for (int op : ops) {
          Act a; a.who = i; a.op = op; Ev e;
          { sched::NoSched ns; ord.poll(); a.call = sched::steps(); a.t_call = T0 + ord.n; a.rc = -1; a.id = 0; a.ok = true; a.time = 0; }
          sched::point();
          switch (op) {
          case SYNC: a.rc = rd[i]->synchronize(); break;
          case PULL: a.rc = rd[i]->pull(e); break;
          case GAPQ: a.rc = rd[i]->gap(); break;
          case LEN: a.rc = (int)rd[i]->length(); break;
          }
          sched::NoSched ns; ord.poll(); a.ret = sched::steps(); a.t_ret = T0 + ord.n;
          if (op == PULL) { a.id = e.getData().id; a.ok = e.getData().ok(); a.time = e.getTime(); }
          acts.push_back(a);
        }
      });
    }
    sched::on_point = [] { ord.poll(); };
    sched::Policy p = fixed ? *fixed : sched::random_policy(r, writers + readers, total * 45 + racts * 20);
    sched::Result res = sched::run(p, r);
    sched::on_point = nullptr;
    ord.poll();
    if (points) *points = res.points;
    h.add(res.trace); h.add(N * 1024 + init);
    vh::cov("schedules"); vh::cov("points", res.points); vh::cov("switches", res.switches);
    auto ctx = [&] {
      std::string s = vh::sf("; N=%zu before=%lld pushes", N, (long long)T0);
      for (auto &q : pushes) s += vh::sf(" %u[%llu,%llu]", q.id, (unsigned long long)q.call, (unsigned long long)q.ret);
      s += " order:"; for (auto o : order) s += vh::sf(" %u", o);
      s += " readers:"; for (int i = 0; i < readers; i++) s += vh::sf(" r%d next=%lld", i, (long long)next[i]);
      for (auto &a : acts) {
        static const char *nm[] = {"sync", "pull", "gap", "length"};
        s += vh::sf(" r%d.%s=%d", a.who, nm[a.op], a.rc); if (a.op == PULL && a.rc == R::AVAILABLE) s += vh::sf("(%u)", a.id);
        s += vh::sf("[%llu,%llu|%lld..%lld]", (unsigned long long)a.call, (unsigned long long)a.ret, (long long)a.t_call, (long long)a.t_ret);
      }
      return s + "; schedule " + policy_text(p);
    };
    sched::on_clock = nullptr;
    if (!run_problem(res).empty()) { vh::viol(problem_key(res), run_problem(res) + ctx()); return false; }
    if (!NATIVE && ord.n != (uint64_t)total) { vh::viol("transitions", vh::sf("%llu state changes for %d pushes", (unsigned long long)ord.n, total) + ctx()); return false; }
    // The order of the pushes: known from the end for what is held; before that, by what was delivered, checked for
    // consistency with calls and returns below.
    T = T0 + total;
    // real threads: bounds of the number of pushes in force, from calls and returns
    if (NATIVE) for (auto &a : acts) { a.t_call = a.t_ret = T0; for (auto &q : pushes) { a.t_call += q.ret < a.call; a.t_ret += q.call < a.ret; } }
    std::map<int64_t, uint32_t> at;                 // position -> event
    for (size_t i = 0; i < order.size(); i++) at[i] = order[i];
    { bool okc; auto C = contents(*b, okc); if (!okc || C.size() > (size_t)T) { vh::viol("contents", "unreadable" + ctx()); return false; }
      for (size_t i = 0; i < C.size(); i++) at[T - (int64_t)C.size() + i] = C[i].getData().id; }
    std::map<uint32_t, timespan> &tm = when;
    for (auto &q : pushes) tm[q.id] = q.t;
    std::vector<int64_t> lo = next, hi = next;      // bounds of the reader's next position
    std::vector<char> skip(readers, 0);             // a gap was reported since the last delivery
    std::map<uint32_t, int64_t> pos; for (auto &x : at) pos[x.second] = x.first;
    if (NATIVE && writers == 1) for (size_t i = 0; i < pushes.size(); i++) { pos[pushes[i].id] = T0 + i; at[T0 + i] = pushes[i].id; }
    // positions deduced from times: with stamps the order is that of the times (checked by C06)
    if (!keep) {
      std::vector<std::pair<timespan, uint32_t>> v; for (auto &q : pushes) v.push_back({q.t, q.id});
      std::sort(v.begin(), v.end());
      for (size_t i = 0; i < v.size(); i++) { pos[v[i].second] = T0 + i; at[T0 + i] = v[i].second; }
    }
    std::vector<std::map<uint32_t, char>> seen(readers);
    for (auto &a : acts) {
      int i = a.who;
      std::string who = vh::sf("r%d", i);
      auto bad = [&](const char *k, std::string d) { vh::viol(k, d + vh::sf(" (step [%llu,%llu])", (unsigned long long)a.call, (unsigned long long)a.ret) + ctx()); };
      bool rep = (a.op == SYNC && a.rc == R::GAP) || (a.op == PULL && a.rc == R::READER_OVERFLOW) || (a.op == GAPQ && a.rc == R::GAP);
      if (rep) {
        if (a.t_ret < lo[i] + (int64_t)N + 1) { bad("false-gap", who + vh::sf(" was told of a gap, but its next event is %lld or later and only %lld had been pushed", (long long)lo[i], (long long)a.t_ret)); return false; }
        skip[i] = 1;
      }
      switch (a.op) {
      case SYNC:
        if (a.rc == R::GAP) { lo[i] = std::max(lo[i], a.t_call - (int64_t)N); hi[i] = std::max(hi[i], a.t_ret - (int64_t)N); vh::cov("sync_gap"); }
        else if (a.rc == R::NO_GAP) vh::cov("sync_nogap");
        else { bad("sync-result", who + vh::sf(" synchronize returned %d", a.rc)); return false; }
        break;
      case GAPQ: vh::cov(a.rc == R::GAP ? "gap" : "nogap"); break;
      case LEN: if ((size_t)a.rc > N) { bad("length", who + vh::sf(" has length %d", a.rc)); return false; } break;
      case PULL:
        if (a.rc == R::READER_OVERFLOW) { vh::cov("pull_overflow"); break; }
        if (a.rc == R::UNAVAILABLE) { vh::cov("pull_unavailable"); break; }
        if (a.rc != R::AVAILABLE) { bad("pull-result", who + vh::sf(" pull returned %d", a.rc)); return false; }
        vh::cov("delivered");
        if (a.t_ret > a.t_call) vh::cov("delivered_during_push");
        if (!a.ok || !tm.count(a.id) || tm[a.id] != a.time) { bad("torn", who + vh::sf(" got an event nobody pushed (%u@%lld)", a.id, (long long)a.time)); return false; }
        if (seen[i].count(a.id)) { bad("repeated", who + vh::sf(" got event %u again", a.id)); return false; }
        seen[i][a.id] = 1;
        for (auto &q : pushes) if (q.id == a.id && q.call > a.ret) { bad("early", who + vh::sf(" got event %u before it was pushed", a.id)); return false; }
        if (pos.count(a.id)) {
          int64_t x = pos[a.id];
          if (x < lo[i]) { bad("backwards", who + vh::sf(" got event %u at position %lld, its next is %lld or later", a.id, (long long)x, (long long)lo[i])); return false; }
          if (x > hi[i] || (x > lo[i] && !skip[i])) { bad("silent-skip", who + vh::sf(" got event %u at position %lld, its next is between %lld and %lld%s", a.id, (long long)x, (long long)lo[i], (long long)hi[i], skip[i] ? "" : " and no gap was reported")); return false; }
          if (x > last[i] + 1 && last[i] >= 0) vh::cov("reported_skips");
          last[i] = x; lo[i] = hi[i] = x + 1;
        } else {
          // overwritten since: the position is only known from this reader's own counting
          if (lo[i] == hi[i]) { pos[a.id] = lo[i]; if (at.count(lo[i])) { bad("silent-skip", who + vh::sf(" got event %u instead of %u", a.id, at[lo[i]])); return false; } at[lo[i]] = a.id; last[i] = lo[i]; lo[i]++; hi[i]++; }
          else { last[i] = lo[i]; lo[i]++; hi[i]++; }
        }
        skip[i] = lo[i] != hi[i];
        break;
      }
    }
    // quiescent drain: exactly the held events from the reader's position on, except the newest
    for (int i = 0; i < readers; i++) {
      Ev e;
      int g0 = rd[i]->gap();
      int g = rd[i]->synchronize();
      if (g0 != g) { vh::viol("final-gap", vh::sf("r%d: gap says %d, synchronize %d", i, g0, g) + ctx()); return false; }
      bool must = T >= hi[i] + (int64_t)N + 1, may = T >= lo[i] + (int64_t)N + 1;
      if (g == R::GAP ? !may : must) { vh::viol(g == R::GAP ? "final-false-gap" : "final-missed-gap", vh::sf("r%d: next %lld..%lld of %lld, synchronize returned %d", i, (long long)lo[i], (long long)hi[i], (long long)T, g) + ctx()); return false; }
      int64_t from = g == R::GAP ? T - (int64_t)N : -1;
      int64_t cnt = 0, firstpos = -1, prev = -1;
      while (rd[i]->pull(e) == R::AVAILABLE) {
        if (++cnt > (int64_t)N + 1) break;
        if (!pos.count(e.getData().id) || !e.getData().ok() || tm[e.getData().id] != e.getTime()) { vh::viol("final-torn", vh::sf("r%d drained ", i) + show(e) + ctx()); return false; }
        int64_t x = pos[e.getData().id];
        if (firstpos < 0) firstpos = x; else if (x != prev + 1) { vh::viol("final-order", vh::sf("r%d drained position %lld after %lld", i, (long long)x, (long long)prev) + ctx()); return false; }
        prev = x;
        vh::cov("drained");
      }
      if (cnt) {
        bool okf = from >= 0 ? firstpos == from : firstpos >= lo[i] && firstpos <= hi[i];
        if (!okf || prev != T - 2) { vh::viol("final-drain", vh::sf("r%d drained positions %lld to %lld of %lld, its next was %lld..%lld", i, (long long)firstpos, (long long)prev, (long long)T, (long long)lo[i], (long long)hi[i]) + ctx()); return false; }
      } else if ((from >= 0 ? from : hi[i]) < T - 1) { vh::viol("final-drain", vh::sf("r%d drained nothing, its next was %lld..%lld of %lld", i, (long long)lo[i], (long long)hi[i], (long long)T) + ctx()); return false; }
    }
    if (vh::want_sample()) vh::sample(ctx());
    for (auto *q : rd) sched::destroy(q);
    for (auto *q : w) sched::destroy(q);
    sched::destroy(b);
    return true;
  }
};

int main(int argc, char **argv) {
  vh::init(argc, argv);
  bool sys = vh::has("systematic");
  return vh::run_cases([&](uint64_t idx, uint64_t seed) {
    if (sys) {
      int kind = (int)(idx % 12), first = (int)(idx / 12 % 2); uint64_t i = idx / 24, L1 = 0, L2, L3; Rng r3(seed);
      int other = 1 + kind % 2;
      auto one = [&](const sched::Policy &p, uint64_t *L) { Rng r(vh::mix2(vh::ctx().seed, kind)); vh::Hash h; vh::cov("systematic_schedules"); bool ok = (kind & 1 ? Sc<1>::run(r, h, &p, L, kind) : Sc<2>::run(r, h, &p, L, kind)); vh::distinct(h.h); return ok; };
      sched::Policy p; p.kind = sched::LIST; p.first = first ? other : 0;
      for (int t1 = 0; t1 < other; t1++) {
        p.pre.assign(1, {i + 1, t1});
        if (!one(p, &L1)) return;
        if (L1 <= i) return;
        for (uint64_t j = i + 2; j <= L1; j++)
          for (int t2 = 0; t2 < other; t2++) {
            if (!vh::ctx().thorough && (j + idx / 24) % (other > 1 ? 6 : 2)) continue;
            p.pre.resize(1); p.pre.push_back({j, t2});
            if (!one(p, &L2)) return;
            if (vh::ctx().thorough && L2 > j + 1) { p.pre.push_back({j + 1 + r3.below(L2 - j), (int)r3.below(other)}); if (!one(p, &L3)) return; }
          }
      }
      return;
    }
    Rng r(seed); vh::Hash h;
    if (vh::has("starve")) {         // a reader that gets a few points at a time while a writer pushes many times
      many = (int)r.range(10, r.chance(15) ? 1500 : 150);
      sched::Policy p; p.kind = sched::STARVE; p.victim = 1;
      p.own = r.range(1, 30); p.rest = r.chance(70) ? r.range(15, 100) : r.range(100, 1000);
      sched::limit_free = 20000000;
      bool ok;
      switch (r.below(4)) { case 0: ok = Sc<2>::run(r, h, &p, nullptr, -1); break; case 1: ok = Sc<3>::run(r, h, &p, nullptr, -1); break; case 2: ok = Sc<5>::run(r, h, &p, nullptr, -1); break; default: ok = Sc<24>::run(r, h, &p, nullptr, -1); }
      if (ok) vh::cov("starved_readers");
      vh::distinct(h.h);
      return;
    }
    switch (r.below(5)) {
    case 0: Sc<1>::run(r, h, nullptr, nullptr, -1); break;
    case 1: Sc<2>::run(r, h, nullptr, nullptr, -1); break;
    case 2: Sc<3>::run(r, h, nullptr, nullptr, -1); break;
    case 3: Sc<5>::run(r, h, nullptr, nullptr, -1); break;
    default: Sc<24>::run(r, h, nullptr, nullptr, -1); break;
    }
    vh::distinct(h.h);
  });
}
