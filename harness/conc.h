// support for the harnesses that run the library under the deterministic scheduler (see sched/sched.h)
#ifndef CONC_H
#define CONC_H
#include "common_rtm.h"
#include "vsched.h"
#include <algorithm>

// element type whose copies and comparisons take several steps, so that half-written events show
struct Rec {
  uint32_t id; uint32_t chk; uint64_t x;
  Rec() : id(0), chk(0), x(0) {}
  explicit Rec(uint32_t i) : id(i), chk(i * 2654435761u ^ 0x5bd1e995u), x((uint64_t)i * 0x9E3779B97F4A7C15ull) {}
  Rec(const Rec &o) : id(o.id), chk(o.chk), x(o.x) {}
  Rec &operator=(const Rec &o) { id = o.id; chk = o.chk; x = o.x; return *this; }
  bool operator==(const Rec &o) const { return id == o.id && chk == o.chk && x == o.x; }
  bool ok() const { return *this == (id ? Rec(id) : Rec()); }
};
typedef Event<Rec> Ev;

inline std::string show(const Ev &e) { return vh::sf("(%u%s@%lld)", e.getData().id, e.getData().ok() ? "" : " TORN", (long long)e.getTime()); }
inline std::string show(const std::vector<Ev> &v) { std::string s = "["; for (auto &e : v) s += show(e); return s + "]"; }

struct PushRec { int w; Ev e; uint64_t call, ret; bool done, ovf, err, stamped; int k; };

// what went wrong with the run itself, or ""
inline std::string run_problem(const sched::Result &r) {
  if (!r.bad.empty()) return "access: " + r.bad;
  if (r.livelock) return vh::sf("livelock: no end after %llu steps of a fair schedule", (unsigned long long)r.points);
  if (r.deadlock) return "deadlock";
  if (!r.finished) return "not finished";
  return "";
}
// The RISC-V flavour has no counter beside the pointer it compares and swaps, so that a state of a writer that is
// current again after two pushes is taken for unchanged. What goes wrong after that is reported under one key.
inline std::string aba_key(bool aba) {
#ifdef CFG_RISCV
  if (aba) { vh::cov("aba_failures"); return "riscv-aba-"; }
#endif
  (void)aba; return "";
}
inline std::string problem_key(const sched::Result &r) { return aba_key(r.aba) + std::string(!r.bad.empty() ? "bad-access" : r.livelock ? "livelock" : r.deadlock ? "deadlock" : "unfinished"); }

// the schedule of a case: random, or the given list of preemptions
inline std::string policy_text(const sched::Policy &p) {
  std::string s = p.kind == sched::RANDOM ? vh::sf("random %u%%", p.switch_pct) : p.kind == sched::PCT ? "pct" : p.kind == sched::STARVE ? vh::sf("%llu points of %d after %llu of the others", (unsigned long long)p.own, p.victim, (unsigned long long)p.rest) : vh::sf("first=%d", p.first);
  for (auto &x : p.pre) s += vh::sf(" %llu->%d", (unsigned long long)x.at, x.to);
  for (auto x : p.changes) s += vh::sf(" %llu", (unsigned long long)x);
  return s;
}
#endif
