// C19: comparisons, constructors, setters, copies of Event
#include "common_rtm.h"
#include <climits>
using namespace vh;

struct Str { std::string s; Str() {} explicit Str(const std::string &x) : s(x) {} bool operator==(const Str &o) const { return s == o.s; } };
template <> struct Mk<Str> { static Str mk(uint64_t x) { return Str(x % 3 == 0 ? std::string() : std::string((size_t)(x % 40), (char)('a' + x % 7))); } };
template <> struct Mk<double> { static double mk(uint64_t x) {
  static const double S[] = {0.0, -0.0, 1e308, 5e-324, -5e-324, 1.0, 1.0 + 2.3e-16, 1e-9};
  return x % 4 == 1 ? S[x / 4 % 8] : (double)(x % 1000) / 3 - 100;
} };
// bytes between the members that belong to no value
struct Gaps { char c; long v; bool operator==(const Gaps &o) const { return c == o.c && v == o.v; } };
template <> struct Mk<Gaps> { static Gaps mk(uint64_t x) { Gaps g; memset((void *)&g, (int)(x >> 16), sizeof g); g.c = (char)(x % 3); g.v = (long)(x % 5); return g; } };
// equal by its own operator only: the low part decides
struct Near { int v; bool operator==(const Near &o) const { return v / 8 == o.v / 8; } };
template <> struct Mk<Near> { static Near mk(uint64_t x) { Near n; n.v = (int)(x % 40); return n; } };
template <> struct Mk<bool> { static bool mk(uint64_t x) { return x & 1; } };

// the very value, which is more than equality for some types
template <typename T> bool is(const T &x, const T &y) { return x == y; }
template <> bool is<double>(const double &x, const double &y) { return memcmp(&x, &y, sizeof x) == 0; }
template <> bool is<Near>(const Near &x, const Near &y) { return x.v == y.v; }

static timespan tm_(Rng &r) {
  switch (r.below(6)) {
  case 0: return r.range(0, 3);
  case 1: return LONG_MAX - r.range(0, 2);
  case 2: return LONG_MIN + r.range(0, 2);
  case 3: return (timespan)((r.below(4) << 32) + r.below(3));     // same low half
  case 4: return -r.range(0, 3);
  default: return (timespan)r.next();
  }
}

template <typename T> void test(Rng &r, const char *tag) {
  typedef Event<T> E;
  T da = Mk<T>::mk(r.chance(50) ? r.below(3) : r.next()), db = r.chance(40) ? da : Mk<T>::mk(r.chance(50) ? r.below(3) : r.next());
  timespan ta = tm_(r), tb = r.chance(35) ? ta : tm_(r);
  const T da0 = da, db0 = db;
  bool de = da == db;
#define CK(key, cond) do { cov("checks"); if (!(cond)) viol(key, sf("%s: %s fails for times %ld, %ld, data %s", tag, #cond, (long)ta, (long)tb, de ? "equal" : "different")); } while (0)
  const E a(da, ta), b(db, tb);
  CK("construct", is(a.getData(), da0) && a.getTime() == ta && is(b.getData(), db0) && b.getTime() == tb);
  CK("event-lt", (a < b) == (ta < tb));
  CK("event-le", (a <= b) == (ta <= tb));
  CK("event-gt", (a > b) == (ta > tb));
  CK("event-ge", (a >= b) == (ta >= tb));
  CK("event-eq", (a == b) == (ta == tb && de));
  CK("event-ne", (a != b) == !(ta == tb && de));
  CK("event-self", (a == a) && !(a != a) && !(a < a) && (a <= a) && (a >= a) && !(a > a));
  CK("time-lt", (a < tb) == (ta < tb) && (ta < b) == (ta < tb));
  CK("time-le", (a <= tb) == (ta <= tb) && (ta <= b) == (ta <= tb));
  CK("time-gt", (a > tb) == (ta > tb) && (ta > b) == (ta > tb));
  CK("time-ge", (a >= tb) == (ta >= tb) && (ta >= b) == (ta >= tb));
  CK("time-eq", (a == tb) == (ta == tb) && (ta == b) == (ta == tb));
  CK("time-ne", (a != tb) == (ta != tb) && (ta != b) == (ta != tb));
  // default
  {
    E *p = (E *)malloc(sizeof(E));
    memset((void *)p, 0xA5, sizeof(E));
    new (p) E();
    CK("default", p->getTime() == 0 && is(p->getData(), T()));
    p->~E();
    free(p);
  }
  // copies
  E c(a);
  CK("copy", is(c.getData(), da0) && c.getTime() == ta && c == a);
  c = b;
  CK("assign", is(c.getData(), db0) && c.getTime() == tb && c == b);
  E &ret = (c = &a);
  CK("assign-pointer", &ret == &c && is(c.getData(), da0) && c.getTime() == ta);
  c = &c;
  CK("assign-pointer", is(c.getData(), da0) && c.getTime() == ta);
  c = c;
  CK("assign", is(c.getData(), da0) && c.getTime() == ta);
  E d = b;
  // setters change exactly what they say
  timespan t2 = tb, t20 = t2; T d2 = db, d20 = d2;
  c.setTime(t2);
  CK("setTime", c.getTime() == tb && is(c.getData(), da0) && t2 == t20);
  c = a;
  c.setData(d2);
  CK("setData", c.getTime() == ta && is(c.getData(), db0) && d2 == d20);
  c = a;
  c.set(d2, t2);
  CK("set", c.getTime() == tb && is(c.getData(), db0) && t2 == t20 && d2 == d20);
  // sources untouched
  CK("source", is(a.getData(), da0) && a.getTime() == ta && is(b.getData(), db0) && b.getTime() == tb && is(d.getData(), db0) && d.getTime() == tb);
  // a copy is independent
  T d3 = Mk<T>::mk(r.next()); timespan t3 = tm_(r);
  d.set(d3, t3);
  CK("independent", is(b.getData(), db0) && b.getTime() == tb);
  cov(ta == tb ? (de ? "same_time_same_data" : "same_time_other_data") : ta < tb ? "earlier" : "later");
  Hash h; h.add(ta); h.add(tb); h.add(de); h.add(tag[0] + 256 * tag[1]);
  distinct(h.h);
  if (want_sample()) sample(sf("%s: times %ld, %ld, data %s", tag, (long)ta, (long)tb, de ? "equal" : "different"));
}

int main(int argc, char **argv) {
  init(argc, argv);
  return run_cases([](uint64_t, uint64_t s) {
    Rng r(s);
    switch (r.below(10)) {
    case 8: test<Gaps>(r, "gaps"); break;
    case 9: test<Near>(r, "near"); break;
    case 0: test<int>(r, "int"); break;
    case 1: test<uint8_t>(r, "u8"); break;
    case 2: test<long long>(r, "long long"); break;
    case 3: test<Big>(r, "struct"); break;
    case 4: test<Str>(r, "string"); break;
    case 5: test<double>(r, "double"); break;
    case 6: test<bool>(r, "bool"); break;
    default: test<unsigned>(r, "proposition"); break;
    }
  });
}
