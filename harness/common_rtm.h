// includes of the library and small helpers shared by the harnesses
#ifndef COMMON_RTM_H
#define COMMON_RTM_H
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <memory>
#include "h.h"
#include <circularbuffer.h>
#include <reader.h>
#include <writer.h>

struct Big {
  uint64_t a; uint32_t b; uint16_t c; uint8_t d;
  Big() : a(0), b(0), c(0), d(0) {}
  explicit Big(uint64_t x) : a(x * 0x9E3779B97F4A7C15ull), b((uint32_t)(x * 2654435761u)), c((uint16_t)(x ^ (x >> 16))), d((uint8_t)x) {}
  bool operator==(const Big &o) const { return a == o.a && b == o.b && c == o.c && d == o.d; }
};
template <typename T> struct Mk { static T mk(uint64_t x) { return (T)x; } };
template <> struct Mk<Big> { static Big mk(uint64_t x) { return Big(x); } };
template <typename T> inline uint64_t low(const T &x) { return (uint64_t)x; }
template <> inline uint64_t low<Big>(const Big &x) { return x.a; }

template <typename E> inline bool same(const E &x, const E &y) { return x.getData() == y.getData() && x.getTime() == y.getTime(); }
template <typename E> inline std::string show(const E &e) { return vh::sf("(%llx@%lld)", (unsigned long long)low(e.getData()), (long long)e.getTime()); }

// contents of a buffer through state() and read() only
template <typename B> std::vector<typename B::event_t> contents(const B &b, bool &ok) {
  std::vector<typename B::event_t> v;
  size_t bo = 0, to = 0;
  ok = b.state(bo, to) == b.OK;
  size_t n = 0;
  for (size_t i = bo; i != to; i = (i + 1 >= b.size ? 0 : i + 1)) {
    typename B::event_t e;
    if (b.read(e, i) != b.OK || n++ > b.size) { ok = false; break; }
    v.push_back(e);
  }
  return v;
}
#endif
