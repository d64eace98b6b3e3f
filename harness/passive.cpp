// C10: the same history with and without (other) readers, trace readers and evaluations.
#include "common_rtm.h"
#include <rmtld3/formulas.h>
#include <rmtld3/reader.h>
#include <rmtld3/rmtld3.h>
using namespace vh;
int count_until_iterations;

template <typename T, int p> struct P { static three_valued_type e(T &tr, timespan &t) { proposition q = p; return prop<T>(tr, q, t); } };
template <typename T, typename A, typename B> struct Ops {
  static three_valued_type eval_phi1(T &tr, timespan &t) { return A::e(tr, t); }
  static three_valued_type eval_phi2(T &tr, timespan &t) { return B::e(tr, t); }
};
template <typename T, typename A, typename B, timespan b> struct U { static three_valued_type e(T &tr, timespan &t) { return until_less<T, Ops<T, A, B>, b>(tr, t); } };
template <typename T, typename A, typename B, timespan b> struct S { static three_valued_type e(T &tr, timespan &t) { return since_less<T, Ops<T, A, B>, b>(tr, t); } };
template <typename T, typename A, timespan b> struct AL { static three_valued_type e(T &tr, timespan &t) { return always_less<T, Ops<T, A, A>, b>(tr, t); } };
template <typename T, typename A, timespan b> struct EQ { static three_valued_type e(T &tr, timespan &t) { return eventually_equal<T, Ops<T, A, A>, b>(tr, t); } };
template <typename T, typename A, timespan b> struct HL { static three_valued_type e(T &tr, timespan &t) { return historically_less<T, Ops<T, A, A>, b>(tr, t); } };
template <typename T> struct D { static three_valued_type e(T &tr, timespan &t) { return b3_lessthan((duration_term<T, Ops<T, P<T, 1>, P<T, 1>>, 30>(tr, t)), make_duration(12, false)); } };
template <typename T> three_valued_type eval(size_t k, T &tr, timespan &t) {
  typedef P<T, 1> A; typedef P<T, 2> B;
  switch (k % 8) {
  case 0: return A::e(tr, t);
  case 1: return U<T, A, B, 20>::e(tr, t);
  case 2: return S<T, A, B, 25>::e(tr, t);
  case 3: return AL<T, U<T, A, B, 15>, 20>::e(tr, t);
  case 4: return EQ<T, A, 17>::e(tr, t);
  case 5: return HL<T, S<T, A, B, 9>, 30>::e(tr, t);
  case 6: return until_less<T, Ops<T, A, B>, 25, with_in_between>(tr, t);
  default: return D<T>::e(tr, t);
  }
}

struct Op { int who, kind; uint64_t a, b; };   // who: 0 buffer/writers, 1.. readers

template <typename T, size_t N> struct World {
  typedef Event<T> E;
  typedef RTML_buffer<E, N> B;
  typedef RTML_writer<B> W;
  typedef RTML_reader<B> R;
  typedef RMTLD3_reader<R> X;
  std::unique_ptr<B> b;
  std::vector<std::unique_ptr<W>> ws;
  std::map<int, std::unique_ptr<R>> rs;
  std::map<int, std::unique_ptr<X>> xs;
  World(int nw) : b(new B()) { while (nw--) ws.emplace_back(new W(*b)); }
  ~World() { rs.clear(); xs.clear(); ws.clear(); }
  uint64_t digest() const {
    Hash h;
    size_t bo = 0, to = 0;
    h.add(b->state(bo, to)); h.add(bo); h.add(to); h.add(b->length());
    for (size_t i = 0; i < b->size; i++) { E e; b->read(e, i); h.add(low(e.getData())); h.add(e.getTime()); }
    return h.h;
  }
  // the result of an operation as a hash
  uint64_t exec(const Op &o, bool trace, std::string *txt) {
    Hash h;
    E e(Mk<T>::mk(0xAB), 777);
    if (o.who == 0) {
      switch (o.kind) {
      case 0: {
        E x(Mk<T>::mk(1 + o.a % 3), (timespan)o.b);
        int s = ws.empty() ? b->push(x) : ws[o.a / 3 % ws.size()]->push_all(x);
        h.add(s); *txt = sf("push@%llu=%d", (unsigned long long)o.b, s);
        break;
      }
      case 1: h.add(b->pull(e)); *txt = "buffer.pull"; break;
      case 2: h.add(b->pop(e)); *txt = "buffer.pop"; break;
      }
      h.add(low(e.getData())); h.add(e.getTime());
      h.add(digest());
      return h.h;
    }
    if (!trace) {
      auto &p = rs[o.who];
      if (!p) p.reset(new R(*b));
      switch (o.kind % 6) {
      case 0: case 1: h.add(p->synchronize()); *txt = sf("r%d.sync", o.who); break;
      case 2: case 3: h.add(p->pull(e)); *txt = sf("r%d.pull", o.who); break;
      case 4: h.add(p->pop(e)); *txt = sf("r%d.pop", o.who); break;
      case 5: h.add(p->gap()); *txt = sf("r%d.gap", o.who); break;
      }
      h.add(p->length());
    } else {
      auto &p = xs[o.who];
      if (!p) p.reset(new X(*b));
      timespan t = (timespan)o.b;
      switch (o.kind % 12) {
      case 0: case 1: h.add(p->synchronize()); h.add(p->reset()); *txt = sf("x%d.sync+reset", o.who); break;
      case 2: h.add(p->increment_cursor()); *txt = sf("x%d.inc", o.who); break;
      case 3: h.add(p->decrement_cursor()); *txt = sf("x%d.dec", o.who); break;
      case 4: h.add(p->set(t)); *txt = sf("x%d.set(%lld)", o.who, (long long)t); break;
      case 5: h.add(p->pull(e)); *txt = sf("x%d.pull", o.who); break;
      case 6: h.add(p->read(e)); h.add(p->read_next(e)); h.add(p->read_previous(e)); *txt = sf("x%d.reads", o.who); break;
      case 7: h.add(p->R::pull(e)); p->reset(); *txt = sf("x%d.R::pull", o.who); break;
      default: {
        p->synchronize(); p->reset();
        size_t n = o.a % (N + 1);
        while (n-- && p->length() > 1) p->increment_cursor();
        if (p->length() > 0) {
          E at;
          p->read(at);
          timespan te = at.getTime();
          h.add(eval(o.a >> 8, *p, te));
          cov("formula_evaluations");
        }
        *txt = sf("x%d.eval%llu", o.who, (unsigned long long)(o.a >> 8) % 8);
      }
      }
      h.add(p->length()); h.add(p->consumed()); h.add(p->get_cursor());
    }
    h.add(low(e.getData())); h.add(e.getTime());
    return h.h;
  }
};

template <typename T, size_t N> void rnd(Rng &r, const char *tag) {
  int nw = r.range(0, 3), nr = r.range(1, 4);
  bool removals = r.chance(40);
  std::vector<bool> trace(nr + 1);
  for (int i = 1; i <= nr; i++) trace[i] = r.chance(50);
  std::vector<Op> ops;
  timespan clk = r.range(1, 1000);
  size_t len = r.range(5, 150);
  unsigned wp = r.range(10, 60);
  for (size_t k = 0; k < len; k++) {
    Op o;
    if (r.chance(wp)) {
      o.who = 0;
      o.kind = removals && r.chance(30) ? 1 + r.below(2) : 0;
      int n = o.kind == 0 && r.chance(15) ? r.range(1, N + 2) : 1;
      while (n--) { o.a = r.next() >> 8; o.b = clk += r.range(1, 9); ops.push_back(o); }
      continue;
    }
    o.who = 1 + r.below(nr);
    o.kind = r.below(60);
    o.a = r.next() >> 8;
    o.b = clk - r.range(0, 30) > 0 ? clk - r.range(0, 20) : 0;
    if ((timespan)o.b < 0) o.b = 0;
    ops.push_back(o);
  }
  Hash hs;
  // full run; reader operations must not change the buffer
  std::vector<uint64_t> full(ops.size());
  std::string log, t;
  {
    World<T, N> w(nw);
    for (size_t k = 0; k < ops.size(); k++) {
      uint64_t d0 = w.digest();
      full[k] = w.exec(ops[k], trace[ops[k].who], &t);
      if (log.size() < 3000) log += t + ";";
      hs.add(full[k]);
      if (ops[k].who && w.digest() != d0) { viol("buffer-changed", sf("[%s N=%zu] %s changed the buffer | history: ", tag, N, t.c_str()) + log); return; }
      cov(ops[k].who ? "reader_ops" : "buffer_ops");
    }
  }
  // runs with only the buffer side, and with only one of the readers
  for (int only = 0; only <= nr; only++) {
    World<T, N> w(nw);
    for (size_t k = 0; k < ops.size(); k++) {
      if (ops[k].who && ops[k].who != only) continue;
      uint64_t h = w.exec(ops[k], trace[ops[k].who], &t);
      cov("replayed_ops");
      if (h != full[k]) {
        viol(ops[k].who ? "reader-differs" : "buffer-differs", sf("[%s N=%zu writers=%d readers=%d] operation %zu (%s) gives another result when the other readers are left out | full history: ", tag, N, nw, nr, k, t.c_str()) + log);
        return;
      }
    }
  }
  if (want_sample()) sample(sf("%s N=%zu: ", tag, N) + log);
  distinct(hs.h);
}

int main(int argc, char **argv) {
  init(argc, argv);
  return run_cases([](uint64_t, uint64_t s) {
    Rng r(s);
    switch (r.below(7)) {
    case 0: rnd<int, 1>(r, "int"); break;
    case 1: rnd<int, 2>(r, "int"); break;
    case 2: rnd<int, 3>(r, "int"); break;
    case 3: rnd<uint8_t, 4>(r, "u8"); break;
    case 4: rnd<int, 8>(r, "int"); break;
    case 5: rnd<int, 20>(r, "int"); break;
    default: rnd<long long, 6>(r, "ll"); break;
    }
  });
}
