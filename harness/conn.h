// C17: oracle functions of strong Kleene logic, written from the truth tables
#include "h.h"
#include <utility>
#include <rmtld3/rmtld3.h>
int count_until_iterations;
static const three_valued_type TT = T_TRUE, FF = T_FALSE, UU = T_UNKNOWN;
static int rank3(three_valued_type v) { return v == T_FALSE ? 0 : v == T_UNKNOWN ? 1 : 2; }
static three_valued_type unrank(int r) { return r == 0 ? T_FALSE : r == 1 ? T_UNKNOWN : T_TRUE; }
static three_valued_type k_or(three_valued_type a, three_valued_type b) { return unrank(rank3(a) > rank3(b) ? rank3(a) : rank3(b)); }
static three_valued_type k_and(three_valued_type a, three_valued_type b) { return unrank(rank3(a) < rank3(b) ? rank3(a) : rank3(b)); }
static three_valued_type k_not(three_valued_type a) { return unrank(2 - rank3(a)); }
static four_valued_type k_34(three_valued_type a) { switch (a) { case T_TRUE: return FV_TRUE; case T_FALSE: return FV_FALSE; default: return FV_UNKNOWN; } }
static three_valued_type k_43(four_valued_type a) { switch (a) { case FV_TRUE: return T_TRUE; case FV_FALSE: return T_FALSE; default: return T_UNKNOWN; } }
static duration k_dur(timeabs n, bool u) { return duration(n, u); }
static duration k_sum(duration a, duration b) { return duration(a.first + b.first, a.second || b.second); }
static duration k_mul(duration a, duration b) { return duration(a.first * b.first, a.second || b.second); }
static three_valued_type k_lt(duration a, duration b) { return a.second || b.second ? T_UNKNOWN : a.first < b.first ? T_TRUE : T_FALSE; }
static const char *k_name3(three_valued_type v) { return v == T_TRUE ? "true" : v == T_FALSE ? "false" : "unknown"; }
static const char *k_name4(four_valued_type v) { return v == FV_TRUE ? "true" : v == FV_FALSE ? "false" : v == FV_UNKNOWN ? "unknown" : "symbol"; }
static long long name(const char *s) { long long h = 0; while (*s) h = h * 131 + *s++; return h; }
static long long enc(duration d) { return d.second ? -1 : d.first; }       // the value of an unknown duration does not matter
template <typename T> static T id(T x) { return x; }
typedef long long (*Fn)(three_valued_type, three_valued_type, three_valued_type, three_valued_type, four_valued_type, duration, duration, timeabs, timeabs, bool, bool);
struct Row { Fn l, k; const char *txt; };
