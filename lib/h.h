// Common harness support: PRNG, reporting, watchdog. See DESIGN.md.
#ifndef VERIF_H_H
#define VERIF_H_H
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define VERIF_MSAN 1
#endif
#endif

namespace vh {

inline uint64_t mix(uint64_t x) {
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}
inline uint64_t mix2(uint64_t a, uint64_t b) { return mix(a ^ mix(b + 0x1234567)); }

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(mix(seed)) {}
  uint64_t next() { s += 0x9E3779B97F4A7C15ull; return mix(s); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
  bool chance(unsigned pct) { return below(100) < pct; }
  // index by weight
  size_t pick(const std::vector<unsigned> &w) {
    uint64_t t = 0;
    for (size_t i = 0; i < w.size(); i++) t += w[i];
    uint64_t x = below(t);
    for (size_t i = 0; i < w.size(); i++) { if (x < w[i]) return i; x -= w[i]; }
    return w.size() - 1;
  }
};

struct Hash {
  uint64_t h = 0xcbf29ce484222325ull;
  void add(uint64_t x) { h = mix(h ^ x) + 0x51ed270b; }
};

struct Ctx {
  uint64_t seed = 1, first = 0, cases = 1, stride = 1;
  bool thorough = false;
  int max_viol = 3;
  std::map<std::string, std::string> opt;
  FILE *rep = nullptr;
  int repfd = 1;
  std::map<std::string, uint64_t> covs;
  std::unordered_set<uint64_t> seen;
  std::string hashfile;
  volatile uint64_t *progress = nullptr;
  uint64_t cur = 0;
  int nviol = 0;
  int nsample = 0;
  unsigned watchdog_s = 20;
};
inline Ctx &ctx() { static Ctx *c = new Ctx(); return *c; }

inline void cov(const char *k, uint64_t n = 1) { ctx().covs[k] += n; }
inline void distinct(uint64_t h) { if (ctx().seen.size() < 3000000) ctx().seen.insert(h); }

inline void finish() {
  Ctx &c = ctx();
  for (auto &p : c.covs) fprintf(c.rep, "COV\t%s\t%llu\n", p.first.c_str(), (unsigned long long)p.second);
  fprintf(c.rep, "END\n");
  fflush(c.rep);
  if (!c.hashfile.empty()) {
    FILE *f = fopen(c.hashfile.c_str(), "wb");
    if (f) { for (uint64_t h : c.seen) fwrite(&h, 8, 1, f); fclose(f); }
  }
}

inline std::string vfmt(const char *fmt, va_list ap) {
  char buf[8192];
  vsnprintf(buf, sizeof buf, fmt, ap);
  std::string s(buf);
  for (char &ch : s) if (ch == '\n' || ch == '\t') ch = ' ';
  return s;
}
inline std::string sf(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt); std::string s = vfmt(fmt, ap); va_end(ap); return s;
}
inline bool want_sample() { return ctx().nsample < 2; }
inline void sample(const std::string &s) {
  Ctx &c = ctx();
  if (c.nsample++ >= 2) return;
  std::string t = s.substr(0, 1500);
  for (char &ch : t) if (ch == '\n' || ch == '\t') ch = ' ';
  fprintf(c.rep, "SAMPLE\t%s\n", t.c_str());
}
// report a violation of the property; key identifies the kind of failure
inline void viol(const std::string &key, const std::string &detail) {
  Ctx &c = ctx();
  static int finding;                      // failures of a kind that is listed: the first two of a run are enough
  bool listed = key.compare(0, 10, "riscv-aba-") == 0;
  if (listed && ++finding > 2) return;
  std::string d = detail.substr(0, 6000);
  for (char &ch : d) if (ch == '\n' || ch == '\t') ch = ' ';
  fprintf(c.rep, "VIOL\t%s\t%llu\t%s\n", key.c_str(), (unsigned long long)c.cur, d.c_str());
  fflush(c.rep);
  if (!listed && ++c.nviol >= c.max_viol) { finish(); _exit(1); }
}

inline void on_prof(int) {
  Ctx &c = ctx();
  char b[128];
  int n = snprintf(b, sizeof b, "\nHANG\t%llu\n", (unsigned long long)c.cur);
  ssize_t r = write(c.repfd, b, n); (void)r;
  _exit(4);
}
inline void arm() {
  struct itimerval it; memset(&it, 0, sizeof it);
  it.it_value.tv_sec = ctx().watchdog_s;
  setitimer(ITIMER_PROF, &it, nullptr);
}
inline void begin_case(uint64_t idx) {
  Ctx &c = ctx();
  c.cur = idx;
  if (c.progress) *c.progress = idx;
  static uint64_t n = 0;
  if ((n++ & 15) == 0) arm();
}

inline void init(int argc, char **argv) {
#ifdef VERIF_MSAN
  // strings of the harness come out of an uninstrumented libstdc++; only instrumented code is checked
  __msan_scoped_disable_interceptor_checks();
#endif
  Ctx &c = ctx();
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    size_t e = a.find('=');
    if (e == std::string::npos) { c.opt[a] = "1"; continue; }
    std::string k = a.substr(0, e), v = a.substr(e + 1);
    c.opt[k] = v;
    if (k == "seed") c.seed = strtoull(v.c_str(), 0, 10);
    else if (k == "first") c.first = strtoull(v.c_str(), 0, 10);
    else if (k == "cases") c.cases = strtoull(v.c_str(), 0, 10);
    else if (k == "stride") c.stride = strtoull(v.c_str(), 0, 10);
    else if (k == "thorough") c.thorough = v == "1";
    else if (k == "hashes") c.hashfile = v;
    else if (k == "watchdog") c.watchdog_s = atoi(v.c_str());
    else if (k == "progress") {
      int fd = open(v.c_str(), O_RDWR | O_CREAT, 0644);
      if (fd >= 0 && ftruncate(fd, 8) == 0)
        c.progress = (volatile uint64_t *)mmap(nullptr, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (c.progress == (volatile uint64_t *)MAP_FAILED) c.progress = nullptr;
    }
  }
  if (c.opt.count("variant")) c.seed = mix2(c.seed, strtoull(c.opt["variant"].c_str(), 0, 10));   // other cases than the other runs
  c.repfd = dup(1);
  c.rep = fdopen(c.repfd, "w");
  int nul = open("/dev/null", O_WRONLY);
  if (nul >= 0) { fflush(stdout); dup2(nul, 1); }   // library debug output
  signal(SIGPROF, on_prof);
  arm();
}
inline bool has(const char *k) { return ctx().opt.count(k) != 0; }
inline std::string opt(const char *k, const char *d = "") { auto it = ctx().opt.find(k); return it == ctx().opt.end() ? d : it->second; }
inline long opti(const char *k, long d) { auto it = ctx().opt.find(k); return it == ctx().opt.end() ? d : atol(it->second.c_str()); }

// cases idx = first, first+stride, ... < cases
template <typename F> inline int run_cases(F f) {
  Ctx &c = ctx();
  for (uint64_t i = c.first; i < c.cases; i += c.stride) {
    begin_case(i);
    f(i, mix2(c.seed, i));
    cov("evaluations");
  }
  finish();
  return c.nviol ? 1 : 0;
}
} // namespace vh
#endif
