// C03: random use of the whole public API within its preconditions, to be run under sanitizers.
// The only oracle here is the sanitizer (plus a check that refused calls say so).
#include "common_rtm.h"
#include <rmtld3/formulas.h>
#include <rmtld3/reader.h>
#include <rmtld3/rmtld3.h>
#ifdef SOUP_THREADS
#include <thread>
#endif
#include <set>
using namespace vh;

#if RTMLIB_DEBUG + 0 == 0 && !defined(SOUP_THREADS)
// data that knows which of its objects exist: an access past the end of a member array stays inside the
// surrounding object, where the sanitizers do not see it
static std::set<const void *> alive;
struct Own {
  uint64_t v, w;
  void here(const Own &o, const char *how) const {
    if (!alive.count(&o)) viol("no-object", sf("%s data that is no living object", how));
  }
  Own() : v(0), w(0) { alive.insert(this); }
  explicit Own(uint64_t x) : v(x), w(~x) { alive.insert(this); }
  Own(const Own &o) : v(o.v), w(o.w) { here(o, "copied from"); alive.insert(this); }
  Own &operator=(const Own &o) { here(*this, "assigned to"); here(o, "assigned from"); v = o.v; w = o.w; return *this; }
  ~Own() { here(*this, "destroyed"); alive.erase(this); }
  bool operator==(const Own &o) const { here(*this, "compared"); here(o, "compared with"); return v == o.v; }
  bool operator!=(const Own &o) const { return !(*this == o); }
  bool operator==(unsigned p) const { here(*this, "compared"); return v == p; }
  bool operator!=(unsigned p) const { return !(*this == p); }
};
template <> struct Mk<Own> { static Own mk(uint64_t x) { return Own(x); } };
#define OWN
#endif
int count_until_iterations;

#define PROP(n, p) template <typename T> struct n##_ { static three_valued_type e(T &tr, timespan &t) { proposition q = p; return prop<T>(tr, q, t); } };
PROP(P1, 1) PROP(P2, 2) PROP(P3, 3)
// operand pairs
template <typename T, template <typename> class A, template <typename> class B> struct Ops {
  static three_valued_type eval_phi1(T &tr, timespan &t) { return A<T>::e(tr, t); }
  static three_valued_type eval_phi2(T &tr, timespan &t) { return B<T>::e(tr, t); }
};
#define BIN(n, op, A, B, b) template <typename T> struct n##_ { static three_valued_type e(T &tr, timespan &t) { return op<T, Ops<T, A##_, B##_>, b>(tr, t); } };
BIN(U1, until_less, P1, P2, 20)
template <typename T> struct U2_ { static three_valued_type e(T &tr, timespan &t) { return until_less<T, Ops<T, P1_, P2_>, 25, with_in_between>(tr, t); } };
BIN(S1, since_less, P1, P2, 20)
BIN(A1, always_less, P1, P1, 15)
BIN(AE, always_equal, P2, P2, 10)
BIN(EE, eventually_equal, P3, P3, 30)
BIN(PE, pasteventually_equal, P3, P3, 30)
BIN(HE, historically_equal, P1, P1, 12)
BIN(HL, historically_less, P2, P2, 40)
template <typename T> struct EU_ { static three_valued_type e(T &tr, timespan &t) { return eventually_less_unbounded<T, Ops<T, P2_, P2_>>(tr, t); } };
BIN(N1, until_less, S1, U1, 33)
BIN(N2, since_less, U1, A1, 27)
BIN(N3, always_less, N1, N1, 21)
BIN(N4, historically_less, PE, PE, 50)
template <typename T> struct D1_ { static three_valued_type e(T &tr, timespan &t) {
  duration d = duration_term<T, Ops<T, P1_, P1_>, 30>(tr, t), f = duration_term<T, Ops<T, U1_, U1_>, 20>(tr, t);
  duration s = sum_dur(d, f), m = mult_dur(make_duration(2, false), d);
  return b3_lessthan(s, m); } };
template <typename T> struct C1_ { static three_valued_type e(T &tr, timespan &t) {
  auto a = P1_<T>::e(tr, t); auto b = N1_<T>::e(tr, t); auto d = D1_<T>::e(tr, t);
  return b3_or(b3_and(a, b3_not(b)), d); } };
template <typename T> struct U3_ { static three_valued_type e(T &tr, timespan &t) { return until_less<T, Ops<T, C1_, N3_>, 40>(tr, t); } };

template <typename T> three_valued_type eval(size_t k, T &tr, timespan &t) {
  typedef three_valued_type (*F)(T &, timespan &);
  static const F f[] = {P1_<T>::e, U1_<T>::e, U2_<T>::e, S1_<T>::e, A1_<T>::e, AE_<T>::e, EE_<T>::e, PE_<T>::e, HE_<T>::e, HL_<T>::e, EU_<T>::e, N1_<T>::e, N2_<T>::e, N3_<T>::e, N4_<T>::e, D1_<T>::e, C1_<T>::e, U3_<T>::e};
  return f[k % (sizeof f / sizeof *f)](tr, t);
}

template <typename T, size_t N> void soup(Rng &r) {
  typedef Event<T> E;
  typedef RTML_buffer<E, N> B;
  typedef RTML_writer<B> W;
  typedef RTML_reader<B> R;
  typedef RMTLD3_reader<R> X;
  struct Set {
    std::unique_ptr<B> b;
    std::vector<std::unique_ptr<W>> ws;
    std::vector<std::unique_ptr<R>> rs;
    std::vector<std::unique_ptr<X>> xs;
    size_t shared = 0;
    ~Set() { xs.clear(); rs.clear(); ws.clear(); }
  };
  Set s[2];
  s[0].b.reset(new B());
  s[1].b.reset(new B());
  size_t lmem = 0;
  int way = (int)r.below(3);       // pushes through the buffer, through writers, or both
  timespan clk = r.chance(20) ? 0 : (timespan)(r.next() & 0xffffff);
  Hash hs;
  size_t len = r.range(5, 120);
  std::string log;
  for (size_t k = 0; k < len; k++) {
    Set &z = s[r.below(2)];
    B &b = *z.b;
    size_t op = r.below(22);
    hs.add(op);
    cov("ops");
    if (want_sample()) log += sf("%zu,", op);
    E e(Mk<T>::mk(1 + r.below(3)), clk);
    switch (op) {
    case 0: case 1: case 2: case 3: {
      int n = r.chance(20) ? r.range(1, N + 2) : 1;
      while (n-- > 0) {
        e.setTime(clk += r.range(1, 12));
        if (way == 0 || (way == 2 && r.chance(50))) b.push(e);
        else {
          if (z.ws.empty()) z.ws.emplace_back(new W(b));
          z.ws[r.below(z.ws.size())]->push_all(e);
        }
        cov("pushes");
      }
      break;
    }
    case 4: b.pull(e); break;
    case 5: b.pop(e); break;
    case 6: {
      size_t i = r.chance(50) ? r.below(N + 1) : r.chance(50) ? N + 1 + r.below(3) : r.next();
      if ((b.read(e, i) == B::OK) != (i <= N)) viol("refused-read", "read outside the ring is not refused");
      if (i > N) cov("refused");
      break;
    }
    case 7: {
      size_t i = N + 1 + (r.chance(50) ? r.below(3) : r.next() >> 1);
      if (b.write(e, i) == B::OK) viol("refused-write", "write outside the ring is not refused");
      cov("refused");
      break;
    }
    case 8: { size_t x, y; timespanw t1, t2; b.state(x, y); b.state(x, y, t1, t2); if (b.length() > N) cov("overlong"); break; }
    case 9: b.debug(); cov("debugs"); break;
    case 10: if (z.ws.size() < 4) z.ws.emplace_back(new W(b)); break;
    case 11: if (!z.ws.empty()) z.ws.erase(z.ws.begin() + r.below(z.ws.size())); break;
    case 12: if (z.rs.size() < 3) z.rs.emplace_back(new R(b)); break;
    case 13: if (z.xs.size() < 3) { if (r.chance(50)) z.xs.emplace_back(new X(b)); else z.xs.emplace_back(new X(b, lmem)); } break;
    case 14: case 15: if (!z.rs.empty()) {
      R &q = *z.rs[r.below(z.rs.size())];
      switch (r.below(6)) {
      case 0: q.synchronize(); break;
      case 1: q.gap(); break;
      case 2: q.length(); break;
      case 3: q.pull(e); break;
      case 4: q.pop(e); break;
      case 5: q.debug(); break;
      }
      cov("reader_ops");
      break;
    }
    case 16: *s[0].b = *s[1].b; if (r.chance(50)) *s[1].b = *s[0].b; break;
    case 17: if (r.chance(30)) { z.rs.clear(); z.xs.clear(); z.ws.clear(); z.b.reset(new B()); } break;
    case 18: {   // events
      E a(Mk<T>::mk(r.below(4)), r.range(0, 3)), c, d = a;
      c = a; c = &a; T v = Mk<T>::mk(3); timespan tt = 4;
      c.set(v, tt); d.setTime(tt); d.setData(v); c.debug();
      if ((a < c) + (a <= c) + (a > c) + (a >= c) + (a == c) + (a != c) + (a < tt) + (tt < a) + (tt == a) + (a != tt) > 10) cov("impossible");
      break;
    }
    default:
      if (!z.xs.empty()) {
        X &x = *z.xs[r.below(z.xs.size())];
        int n = r.range(1, 5);
        while (n-- > 0) {
          timespan t = clk - r.range(0, 60);
          if (t < 0) t = 0;
          switch (r.below(13)) {
          case 0: case 1: x.synchronize(); x.reset(); break;
          case 2: x.set(t); break;
          case 3: { size_t c = r.chance(50) ? r.below(N + 1) : N + 1 + (r.next() & 0xff); if (c > N) { if (x.set_cursor(c) == X::AVAILABLE) viol("refused-cursor", "cursor outside the ring is not refused"); cov("refused"); } else { size_t c0 = x.get_cursor(); x.set_cursor(c); x.read(e); x.set_cursor(c0); } break; }
          case 4: x.increment_cursor(); break;
          case 5: x.decrement_cursor(); break;
          case 6: x.pull(e); break;
          case 7: x.read(e); x.read_next(e); x.read_previous(e); break;
          case 8: x.length(); x.consumed(); x.debug(); break;
          case 9: x.gap(); break;
          default: {
            x.synchronize();
            x.reset();
            size_t st = r.below(N + 1);
            while (st-- && x.length() > 1) x.increment_cursor();
            if (x.length() > 0 || r.chance(10)) {
              E at;
              x.read(at);
              timespan te = r.chance(80) ? at.getTime() : t;
              three_valued_type v = eval(r.below(64), x, te);
              hs.add(v);
              cov(v == T_TRUE ? "verdict_true" : v == T_FALSE ? "verdict_false" : "verdict_unknown");
            }
          }
          }
          cov("trace_ops");
        }
      }
    }
  }
  if (want_sample()) sample("ops: " + log);
  distinct(hs.h);
}

#ifdef SOUP_THREADS
// real threads: memory safety only
template <size_t N> void stress(Rng &r) {
  typedef Event<int> E;
  typedef RTML_buffer<E, N> B;
  typedef RTML_writer<B> W;
  typedef RMTLD3_reader<RTML_reader<B>> X;
  std::unique_ptr<B> b(new B());
  int nw = r.range(1, 4), nr = r.range(1, 3), per = r.range(10, 400);
  std::vector<std::unique_ptr<W>> ws;
  for (int i = 0; i < nw; i++) ws.emplace_back(new W(*b));
  std::vector<std::thread> th;
  std::atomic<int> done(0);
  for (int i = 0; i < nw; i++) th.emplace_back([&, i] { for (int k = 0; k < per; k++) { E e(1 + k % 3, 0); ws[i]->push(e); } done++; });
  uint64_t sd = r.next();
  for (int i = 0; i < nr; i++) th.emplace_back([&, i] {
    X x(*b);
    RTML_reader<B> q(*b);
    Rng rr(sd + i);
    E e;
    while (done < nw) {
      switch (rr.below(6)) {
      case 0: q.synchronize(); break;
      case 1: q.pull(e); break;
      case 2: q.gap(); q.length(); break;
      case 3: if (b->length() > N) abort(); break;
      default: {
        x.synchronize(); x.reset();
        timespan t = 0;
        if (x.read(e) == X::AVAILABLE) t = e.getTime();
        x.set(t);
        eval(rr.below(64), x, t);
      }
      }
    }
  });
  for (auto &t : th) t.join();
  cov("pushes", nw * per);
  distinct(r.next());
}
#endif

int main(int argc, char **argv) {
  init(argc, argv);
  return run_cases([](uint64_t, uint64_t sd) {
    Rng r(sd);
#ifdef SOUP_THREADS
    switch (r.below(3)) {
    case 0: stress<3>(r); break;
    case 1: stress<16>(r); break;
    default: stress<100>(r); break;
    }
#else
    switch (r.below(7)) {
#ifdef OWN
    case 6: alive.clear(); if (r.chance(50)) soup<Own, 3>(r); else soup<Own, 6>(r); cov("own_data"); break;
#endif
    case 0: soup<int, 1>(r); break;
    case 1: soup<int, 2>(r); break;
    case 2: soup<int, 3>(r); break;
    case 3: soup<uint8_t, 7>(r); break;
    case 4: soup<short, 16>(r); break;
    default: soup<int, 40>(r); break;
    }
#endif
  });
}
