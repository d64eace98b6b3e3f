// C12-C16, C18: formulas against the definition of their operators. mode=C12|C13|C14|C15|C16|C18
#include <climits>
#include <set>
using namespace vh;

#ifndef FDATA
#define FDATA int
#endif
typedef FDATA Data;
struct Ev { Data d; long t; };
struct Val { int v; long long n; bool unk; bool operator==(const Val &o) const { return v == o.v && unk == o.unk && (unk || n == o.n); } };   // verdict, or duration n/unk

static bool is(const NodeInfo &n, const char *o) { return !strcmp(n.op, o); }
static bool is_future(const NodeInfo &n) { return is(n, "p") || is(n, "U") || is(n, "UB") || is(n, "A") || is(n, "E=") || is(n, "A=") || is(n, "Eu"); }
static bool is_past(const NodeInfo &n) { return is(n, "S") || is(n, "H") || is(n, "P=") || is(n, "H="); }
static bool is_dur(const NodeInfo &n) { return n.dur || is(n, "<"); }
static std::string fstr(int i) {
  const NodeInfo &n = NODES[i];
  if (is(n, "p")) return sf("p%d", n.p);
  if (is(n, "T") || is(n, "F")) return n.op;
  if (is(n, "k")) return sf("%ld", n.b);
  std::string s = std::string(n.op);
  if (is_future(n) || is_past(n) || is(n, "D")) if (!is(n, "Eu")) s += sf("[%ld]", n.b);
  s += "(" + fstr(n.l);
  if (n.r >= 0) s += "," + fstr(n.r);
  s = s + ")";
  return s.size() > 700 ? s.substr(0, 700) + "..." : s;
}
static const char *vname(int v) { return v == T_TRUE ? "true" : v == T_FALSE ? "false" : v == T_UNKNOWN ? "unknown" : "?"; }
static std::string vstr(const NodeInfo &n, const Val &v) { return n.dur ? (v.unk ? std::string("unknown duration") : sf("duration %lld", v.n)) : std::string(vname(v.v)); }

static int neg(int a) { return a == T_TRUE ? T_FALSE : a == T_FALSE ? T_TRUE : T_UNKNOWN; }

// the definition of the operator of node k at time t, which event i of trace w is the last one at or before;
// val(c, j, u): value of operand c at time u, which event j is the last one at or before
template <typename F> Val ref(int k, const std::vector<Ev> &w, size_t i, long t, F val3) {
  const NodeInfo &n = NODES[k];
  size_t len = w.size();
  long b = n.b;
  auto val = [&](int c, size_t j) { return val3(c, j, w[j].t); };
  Val r = {T_UNKNOWN, 0, false};
  if (is(n, "p")) { r.v = i + 1 < len ? ((long long)w[i].d == (std::is_same<Data, int>::value ? (long long)n.p : (long long)(proposition)n.p) ? T_TRUE : T_FALSE) : T_UNKNOWN; return r; }
  if (is(n, "U") || is(n, "UB") || is(n, "A")) {
    bool al = is(n, "A");
    bool beyond = false;
    for (size_t j = i; j < len; j++) {
      if (w[j].t >= t + b) { beyond = true; break; }
      int x = al ? T_TRUE : val(n.l, j).v, y = al ? neg(val(n.l, j).v) : val(n.r, j).v;
      if (y != T_FALSE) { r.v = al ? neg(y) : y; return r; }
      if (x != T_TRUE) { r.v = x; return r; }
      // in between: as far after event j as later events are after event j + 1
      if (is(n, "UB")) for (size_t m = j + 2; m < len; m++) {
        long u = w[j].t + (w[m].t - w[j + 1].t);
        if (u >= w[j + 1].t || u >= t + b) break;
        cov("in_between");
        x = val3(n.l, j, u).v, y = val3(n.r, j, u).v;
        if (x != T_TRUE || y != T_FALSE) cov("in_between_decides");
        if (y != T_FALSE) { r.v = y; return r; }
        if (x != T_TRUE) { r.v = x; return r; }
      }
    }
    r.v = beyond ? (al ? T_TRUE : T_FALSE) : T_UNKNOWN;
    return r;
  }
  if (is(n, "E=") || is(n, "A=")) {
    size_t at = i;
    bool later = false;
    for (size_t j = i; j < len; j++) { if (w[j].t <= t + b) at = j; else { later = true; break; } }
    r.v = later ? val(n.l, at).v : T_UNKNOWN;
    return r;
  }
  if (is(n, "Eu")) {
    for (size_t j = i; j < len; j++) { int x = val(n.l, j).v; if (x != T_FALSE) { r.v = x; return r; } }
    return r;
  }
  if (is(n, "S") || is(n, "H")) {
    bool hi = is(n, "H");
    bool covered = false;
    for (size_t j = 0; j <= i; j++) if (w[j].t <= t - b) covered = true;
    for (size_t j = i + 1; j-- > 0;) {
      if (w[j].t >= t || w[j].t <= t - b) continue;
      int x = hi ? T_TRUE : val(n.l, j).v, y = hi ? neg(val(n.l, j).v) : val(n.r, j).v;
      if (y != T_FALSE) { r.v = hi ? neg(y) : y; return r; }
      if (x != T_TRUE) { r.v = x; return r; }
    }
    r.v = covered ? (hi ? T_TRUE : T_FALSE) : T_UNKNOWN;
    return r;
  }
  if (is(n, "P=") || is(n, "H=")) {
    for (size_t j = 0; j < len; j++) if (w[j].t < t && w[j].t > t - b) { r.v = val(n.l, j).v; return r; }
    return r;
  }
  if (is(n, "D")) {
    bool after = false;
    for (size_t j = 0; j < len; j++) {
      if (w[j].t > t + b) after = true;
      if (j + 1 >= len) break;
      long lo = w[j].t > t ? w[j].t : t, up = w[j + 1].t < t + b ? w[j + 1].t : t + b;
      if (lo >= up) continue;
      int x = val(n.l, j).v;
      if (x == T_TRUE) r.n += up - lo;
      if (x == T_UNKNOWN) r.unk = true;
    }
    if (!after) r.unk = true;
    return r;
  }
  if (is(n, "k")) { r.n = n.b; return r; }
  if (is(n, "+") || is(n, "*")) {
    Val x = val3(n.l, i, t), y = val3(n.r, i, t);
    r.unk = x.unk || y.unk;
    r.n = r.unk ? 0 : is(n, "+") ? x.n + y.n : x.n * y.n;
    return r;
  }
  if (is(n, "<")) {
    Val x = val3(n.l, i, t), y = val3(n.r, i, t);
    r.v = x.unk || y.unk ? T_UNKNOWN : x.n < y.n ? T_TRUE : T_FALSE;
    return r;
  }
  if (is(n, "T") || is(n, "F")) { r.v = n.op[0] == 'T' ? T_TRUE : T_FALSE; return r; }
  int x = val3(n.l, i, t).v, y = n.r >= 0 ? val3(n.r, i, t).v : x;
  if (is(n, "!")) r.v = neg(x);
  else if (is(n, "&")) r.v = x == T_FALSE || y == T_FALSE ? T_FALSE : x == T_TRUE && y == T_TRUE ? T_TRUE : T_UNKNOWN;
  else if (is(n, "|")) r.v = x == T_TRUE || y == T_TRUE ? T_TRUE : x == T_FALSE && y == T_FALSE ? T_FALSE : T_UNKNOWN;
  else abort();
  return r;
}

static std::string tstr(const std::vector<Ev> &w) {
  std::string s;
  for (auto &e : w) s += sf("%lld@%ld ", (long long)e.d, e.t);
  return s;
}

template <size_t N> struct World {
  typedef Event<Data> E;
  typedef RTML_buffer<E, N> B;
  typedef RTML_reader<B> R;
  typedef RMTLD3_reader<R> X;
  std::unique_ptr<B> b;
  std::unique_ptr<X> x;
  size_t lmem = 99;
  bool own;
  World(bool ext) : b(new B()), own(ext) { if (ext) x.reset(new X(*b, lmem)); else x.reset(new X(*b)); }
  void push(const Ev &e) { b->push(E(e.d, e.t)); }
  // let the reader see exactly w: junk events before them (consumed or overwritten), extra events after the synchronisation
  bool place(const std::vector<Ev> &w, size_t junk, size_t extra, Rng &r) {
    long t0 = w.empty() ? 1000 : w[0].t;
    if ((long)junk >= t0) junk = t0 - 1;
    for (size_t k = 0; k < junk; k++) {
      push(Ev{(Data)r.below(4), (long)(t0 - junk + k)});
      x->synchronize();
      E e;
      while (x->R::pull(e) == X::AVAILABLE) {}
    }
    for (auto &e : w) push(e);
    x->synchronize();
    E e;
    while (x->R::length() > w.size()) if (x->R::pull(e) != X::AVAILABLE) break;
    if (x->R::length() != w.size()) return false;
    if (w.size() + extra <= N) {
      long t = w.back().t;
      for (size_t k = 0; k < extra; k++) push(Ev{(Data)r.below(4), t += r.range(1, 5)});
    }
    return true;
  }
  void at(size_t i) { x->reset(); while (i--) x->increment_cursor(); }
  Val eval(int k, long t) {
    timespan tt = t;
    Val v = {T_UNKNOWN, 0, false};
    if (NODES[k].dur) { duration d = Table<X>::d(k, *x, tt); v.n = d.first; v.unk = d.second; }
    else v.v = Table<X>::e(k, *x, tt);
    return v;
  }
  size_t rlen() const { return x->R::length(); }
  uint64_t digest() const {
    Hash h;
    size_t bo = 0, to = 0;
    b->state(bo, to); h.add(bo); h.add(to); h.add(b->length());
    for (size_t i = 0; i < b->size; i++) { E e; b->read(e, i); h.add(e.getData()); h.add(e.getTime()); }
    return h.h;
  }
};

static void wild(Rng &, std::vector<Ev> &);
static std::vector<Ev> trace(Rng &r, size_t maxn) {
  std::vector<Ev> w;
  size_t n = r.chance(80) ? r.range(maxn > 5 ? maxn / 3 : 1, maxn) : r.range(1, maxn);
  long step = r.chance(30) ? 1 : r.chance(50) ? 4 : 12;
#ifndef __SANITIZE_ADDRESS__
  if (r.chance(12)) {                               // long times, that fit one of the large bounds
    step = 1l << r.range(24, 34);
    std::vector<long> big; for (int k = 0; k < NNODES; k++) if (NODES[k].b >= 1000 && NODES[k].b <= 1l << 37 && strcmp(NODES[k].op, "k")) big.push_back(NODES[k].b);
    if (!big.empty() && r.chance(75)) step = std::max<long>(2, big[r.below(big.size())] * 2 / r.range(1, 8));
  }                                                 // products of such durations may wrap around, which both sides do (-fwrapv)
#endif
  int bias = r.below(5);      // runs of equal data make long windows matter
  long t = r.chance(60) ? r.range(1, 40) : r.chance(50) ? r.range(1, 2000) : r.range(1, 1ll << r.range(30, 61));
  int d = r.below(4);
  for (size_t k = 0; k < n; k++) {
    if (r.below(5) >= (unsigned)bias) d = r.below(4);
    w.push_back(Ev{d, t});
    t += r.range(1, step);
  }
  wild(r, w);
  return w;
}

// other data: the propositions of the formulas, and data that differs from them in some bits only
static void wild(Rng &r, std::vector<Ev> &w) {
  int big = 3;
  for (int k = 0; k < NNODES; k++) if (is(NODES[k], "p") && (NODES[k].p < 0 || NODES[k].p > 3)) big = NODES[k].p;
  if (big != 3 && r.chance(75)) for (auto &e : w) if (e.d == 3) e.d = (Data)(proposition)big;
  if (!r.chance(15)) return;
  static const long long bit[] = {4, 8, 1 << 7, 1 << 8, 1 << 9, 1 << 15, 1 << 16, 1 << 17, 1 << 24, 1 << 30, 1ll << 31, 1ll << 32, 1ll << 33, 1ll << 40, INT64_MIN};
  long long b = bit[r.below(15)]; int pct = r.chance(50) ? 20 : 60;
  for (auto &e : w) if (r.chance(pct)) e.d = (Data)(e.d ^ (r.chance(80) ? b : bit[r.below(15)]));
  cov("data_differing_in_bits");
}

static const size_t NCAP = 14;

// now and then a long trace, with long stretches of the same data so that operators go through many events
static const size_t NLONG = 300;
static bool is_long(Rng &r) { return r.below(160) == 0; }
static std::vector<Ev> long_trace(Rng &r, size_t maxn) {
  std::vector<Ev> w;
  size_t n = r.chance(60) ? maxn - r.below(20) : r.range(20, maxn);
  long step = r.chance(60) ? 1 : 3, t = r.range(1, 5000);
  int d = r.below(4), change = r.chance(40) ? 0 : r.chance(50) ? 1 : 8;       // per cent
  for (size_t k = 0; k < n; k++) {
    if ((int)r.below(100) < change || (n - k < 4 && r.chance(50))) d = r.below(4);
    w.push_back(Ev{d, t});
    t += r.range(1, step);
  }
  wild(r, w);
  cov("long_traces");
  return w;
}
// operands evaluated, at most, when node k is evaluated over a long trace
static double effort(int k) {
  const NodeInfo &n = NODES[k];
  double s = 1 + (n.l >= 0 ? effort(n.l) : 0) + (n.r >= 0 ? effort(n.r) : 0);
  return is(n, "UB") ? 1e9 : is_future(n) && n.l >= 0 || is_past(n) || is(n, "D") ? s * (n.b >= 0 && n.b < 100 && !is(n, "Eu") ? 20 + n.b : NLONG) : s;
}
static std::string mode;

static void count(const NodeInfo &n, const Val &v, const char *op) {
  if (n.dur) cov(v.unk ? (std::string(op) + ":unknown").c_str() : (std::string(op) + ":value").c_str());
  else cov((std::string(op) + ":" + vname(v.v)).c_str());
}

// C12, C13, C14: every node against its definition over the library's values of its operands
#ifdef FRM_COMPARE
template <size_t N> static void compare(Rng &r, const std::vector<Ev> &w) {
  const bool sparse = N == NLONG;
  World<N> W(r.chance(30));
  if (!W.place(w, r.below(2 * N), r.below(3), r)) { cov("not_placed"); return; }
  std::vector<std::vector<Val>> memo(NNODES, std::vector<Val>(w.size()));
  std::vector<std::vector<char>> have(NNODES, std::vector<char>(w.size(), 0));
  auto val = [&](int c, size_t j, long u) -> Val {
    if (u != w[j].t) { W.at(j); return W.eval(c, u); }
    if (!have[c][j]) { W.at(j); memo[c][j] = W.eval(c, w[j].t); have[c][j] = 1; }
    return memo[c][j];
  };
  Hash hs;
  for (int k = 0; k < NNODES; k++) {
    const NodeInfo &n = NODES[k];
    if (mode == "C12" ? !is_future(n) : mode == "C13" ? !is_past(n) : mode == "C17" ? is_past(n) || is_future(n) || n.dur : !is_dur(n)) continue;
    if (sparse && effort(k) > 30000) continue;
    for (size_t i = 0; i < w.size(); i++) {
      if (sparse && i && i != w.size() - 1 && r.below(w.size() / 2)) continue;
      bool off = r.chance(25);      // also between two events
      long t = w[i].t + (off ? (i + 1 < w.size() ? (long)r.below(w[i + 1].t - w[i].t) : (long)r.below(20)) : 0);
      if (t != w[i].t) cov("between_events");
      if (is(n, "p") && r.chance(30)) {      // the event at the cursor says nothing about times outside of its stretch
        long u = r.chance(50) ? (i + 1 < w.size() ? w[i + 1].t : t) + (long)r.below(30) : w[i].t - 1 - (long)r.below(30);
        W.at(i);
        if (u >= 0 && W.eval(k, u).v != T_UNKNOWN) { viol("verdict:p-elsewhere", sf("p%d at time %ld with the cursor at event %zu is not unknown | events: ", n.p, u, i) + tstr(w)); return; }
        cov("elsewhere");
      }
      Val got = val(k, i, t), want = ref(k, w, i, t, val);
      cov("comparisons");
      count(n, want, n.op);
      hs.add(want.v * 64 + want.n);
      if (!(got == want)) {
        viol(std::string("verdict:") + n.op, sf("%s at event %zu (time %ld) is %s, expected %s | events: ", fstr(k).c_str(), i, t, vstr(n, got).c_str(), vstr(n, want).c_str()) + tstr(w));
        return;
      }
    }
  }
  if (want_sample()) sample(sf("formula %s on ", fstr(NNODES - 1).c_str()) + tstr(w));
  distinct(hs.h);
}

#endif
#ifdef FRM_PREFIXES
// C15
template <size_t N> static void prefixes(Rng &r, const std::vector<Ev> &w) {
  const bool sparse = N == NLONG;
  World<N> W(false);
  if (w.empty()) return;
  // some junk so that the trace lies anywhere in the ring
  std::vector<Ev> first(w.begin(), w.begin() + 1);
  if (!W.place(first, r.below(2 * N), 0, r)) { cov("not_placed"); return; }
  std::vector<std::vector<Val>> seen(NNODES, std::vector<Val>(w.size(), Val{T_UNKNOWN, 0, true}));
  std::vector<std::vector<size_t>> when(NNODES, std::vector<size_t>(w.size(), 0));
  Hash hs;
  std::vector<long> at;         // where each event is evaluated: at its time, or before the next one
  for (size_t i = 0; i < w.size(); i++) at.push_back(w[i].t + (i + 1 < w.size() && r.chance(30) ? (long)r.below(w[i + 1].t - w[i].t) : 0));
  for (size_t m = 1; m <= w.size(); m++) {
    if (m > 1) { W.push(w[m - 1]); W.x->synchronize(); }
    if (W.rlen() != m) { cov("not_placed"); return; }
    if (sparse && m < w.size() && r.below(60)) continue;      // some prefixes
    for (int k = 0; k < NNODES; k++) {
      const NodeInfo &n = NODES[k];
      if (sparse && effort(k) > 30000) continue;
      if (n.ib || is(n, "T") || is(n, "F") || is(n, "k")) continue;
      for (size_t i = 0; i < m; i++) {
        if (sparse && i && (i * 7 + k) % 50) continue;
        W.at(i);
        Val v = W.eval(k, at[i]);
        if (!n.dur) v.unk = v.v == T_UNKNOWN;
        if (!seen[k][i].unk) {
          cov("definite_rechecked");
          if (v.unk || v.v != seen[k][i].v || v.n != seen[k][i].n) {
            viol(std::string("changed:") + n.op, sf("%s at event %zu (time %ld): %s over the first %zu events, but %s over the first %zu | events: ", fstr(k).c_str(), i, at[i], vstr(n, seen[k][i]).c_str(), when[k][i], vstr(n, v).c_str(), m) + tstr(w));
            return;
          }
        } else if (!v.unk) {
          seen[k][i] = v; when[k][i] = m;
          cov("became_definite");
          hs.add(k * 64 + i + v.v); hs.add(v.n);
        } else cov("still_unknown");
      }
    }
  }
  if (want_sample()) sample(sf("formula %s on prefixes of ", fstr(NNODES - 1).c_str()) + tstr(w));
  distinct(hs.h);
}

#endif
#ifdef FRM_EFFECTS
// C16: evaluate all nodes in order, then again in random order, without repositioning the cursor in between
template <size_t N> static void effects(Rng &r, const std::vector<Ev> &w) {
  typedef World<N> WW;
  WW W(r.chance(40));
  if (!W.place(w, r.below(2 * N), r.below(3), r)) { cov("not_placed"); return; }
  typename WW::X &x = *W.x;
  const uint64_t dg = W.digest();
  Hash hs;
  size_t i = r.below(w.size());
  long t = w[i].t;
  if (i + 1 < w.size() && r.chance(20)) t += r.below(w[i + 1].t - w[i].t);   // also between two events
  // past the last event the verdict means nothing, but everything stays where it was
  const bool past = r.chance(8);
  if (past) { i = w.size(); t = w.back().t + r.range(0, 20); cov("at_the_end"); }
  W.at(i);
  auto snap = [&]() { Hash h; h.add(x.length()); h.add(x.consumed()); h.add(x.get_cursor()); h.add(W.rlen()); h.add(x.gap()); h.add(W.own ? W.lmem : 0); return h.h; };
  std::vector<Val> base(NNODES);
  const uint64_t s0 = snap();
  for (int pass = 0; pass < 2; pass++)
    for (int q = 0; q < NNODES; q++) {
      int k = pass ? (int)r.below(NNODES) : q;
      if (N == NLONG && effort(k) > 30000) continue;
      timespan tt = t;
      Val v = {T_UNKNOWN, 0, false};
      if (NODES[k].dur) { duration d = Table<typename WW::X>::d(k, x, tt); v.n = d.first; v.unk = d.second; }
      else v.v = Table<typename WW::X>::e(k, x, tt);
      cov("evaluations_checked");
      count(NODES[k], v, NODES[k].op);
      hs.add(v.v + 8 * v.n);
      uint64_t s1 = snap();
      const char *bad = s1 != s0 ? "moved the cursor or changed the window or counts" : tt != t ? "changed the evaluation time" : W.digest() != dg ? "changed the buffer" : nullptr;
      if (bad) {
        viol(std::string("effect:") + NODES[k].op, sf("evaluating %s at event %zu, time %ld %s | events: ", fstr(k).c_str(), i, t, bad) + tstr(w));
        return;
      }
      if (!pass) base[k] = v;
      else {
        cov("repeated");
        if (!past && (v.v != base[k].v || v.unk != base[k].unk || v.n != base[k].n)) {
          viol(std::string("repeat:") + NODES[k].op, sf("%s at event %zu, time %ld gave %s first and %s when evaluated again | events: ", fstr(k).c_str(), i, t, vstr(NODES[k], base[k]).c_str(), vstr(NODES[k], v).c_str()) + tstr(w));
          return;
        }
      }
    }
  if (want_sample()) sample(sf("formula %s at event %zu, time %ld of ", fstr(NNODES - 1).c_str(), i, t) + tstr(w));
  distinct(hs.h);
}

#endif
#ifdef FRM_PLACES
// C18: all nodes at all events, at another place
template <size_t N> static bool placed(Rng &r, const std::vector<Ev> &w0, long delta, const std::vector<std::vector<Val>> *base, std::vector<std::vector<Val>> *save, Hash &hs) {
  World<N> W(r.chance(30));
  std::vector<Ev> w = w0;
  for (auto &e : w) e.t += delta;
  size_t junk = base ? r.below(3 * N) : 0;
  if (w.size() == N && base) junk = r.below(4 * N);
  if (!W.place(w, junk, base ? r.below(4) : 0, r)) { cov("not_placed"); return true; }
  const bool sparse = w.size() > 24;
  for (int k = 0; k < NNODES; k++)
    for (size_t i = 0; i < w.size(); i++) {
      if (sparse && (effort(k) > 30000 || (i && i != w.size() - 1 && (i * 7 + k) % 100))) continue;
      W.at(i);
      long off = i + 1 < w.size() && (i + k) % 3 == 0 ? (w0[i].t + k) % (w[i + 1].t - w[i].t) : 0;     // also between events
      Val v = W.eval(k, w[i].t + off);
      if (save) { (*save)[k][i] = v; hs.add(v.v + 8 * v.n + 4 * v.unk); count(NODES[k], v, NODES[k].op); continue; }
      cov("placements_compared");
      const Val &b = (*base)[k][i];
      if (v.v != b.v || v.unk != b.unk || v.n != b.n) {
        viol(std::string("placement:") + NODES[k].op, sf("%s at event %zu is %s, but %s after %zu earlier events in a buffer of %zu with times shifted by %ld | events: ", fstr(k).c_str(), i, vstr(NODES[k], b).c_str(), vstr(NODES[k], v).c_str(), junk, N, delta) + tstr(w0));
        return false;
      }
    }
  return true;
}
static void places(Rng &r) {
  if (is_long(r)) {
    std::vector<Ev> w = long_trace(r, NLONG);
    std::vector<std::vector<Val>> base(NNODES, std::vector<Val>(w.size()));
    Hash hs;
    if (!placed<NLONG + 11>(r, w, 0, nullptr, &base, hs)) return;
    long d = r.chance(30) ? 0 : r.range(0, 1ll << r.range(30, 61));
    if (r.chance(50)) placed<NLONG>(r, w, d, &base, nullptr, hs); else placed<NLONG + 11>(r, w, d, &base, nullptr, hs);
    distinct(hs.h);
    return;
  }
  std::vector<Ev> w = trace(r, 13);
  while (w.back().t > (1ll << 45)) w = trace(r, 13);
  std::vector<std::vector<Val>> base(NNODES, std::vector<Val>(w.size()));
  Hash hs;
  if (!placed<24>(r, w, 0, nullptr, &base, hs)) return;
  for (int q = 0; q < 3; q++) {
    long d = r.chance(30) ? 0 : r.chance(50) ? r.range(1 - w[0].t, 30) : r.range(0, 1ll << r.range(30, 61));
    if (!(r.chance(50) ? placed<13>(r, w, d, &base, nullptr, hs) : placed<24>(r, w, d, &base, nullptr, hs))) return;
  }
  if (want_sample()) sample(sf("formula %s on ", fstr(NNODES - 1).c_str()) + tstr(w));
  distinct(hs.h);
}

#endif
int main(int argc, char **argv) {
  init(argc, argv);
  mode = opt("mode");
  return run_cases([](uint64_t, uint64_t s) {
    Rng r(s);
#if defined(FRM_COMPARE)
    if (is_long(r)) { compare<NLONG>(r, long_trace(r, NLONG)); return; }
    std::vector<Ev> w = trace(r, NCAP);
    const Rng again = r;
    compare<NCAP>(r, w);
    // the same times and cursors (mostly in the same memory), but other data, or fewer events: nothing is remembered
    if (r.chance(25)) {
      Rng q = again;
      if (w.size() > 1 && r.chance(35)) w.resize(r.range(1, w.size() - 1));
      else { int c = r.range(1, 3); for (auto &e : w) if (r.chance(60)) e.d = (e.d + c) % 4; }
      cov("siblings");
      compare<NCAP>(q, w);
    }
#elif defined(FRM_PREFIXES)
    if (is_long(r)) prefixes<NLONG>(r, long_trace(r, NLONG)); else prefixes<NCAP>(r, trace(r, NCAP));
#elif defined(FRM_EFFECTS)
    if (is_long(r)) effects<NLONG>(r, long_trace(r, NLONG)); else effects<NCAP>(r, trace(r, NCAP));
#elif defined(FRM_PLACES)
    places(r);
#endif
  });
}
