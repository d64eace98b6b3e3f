// C26: histories on objects that share nothing, run in several threads at once; each must give what it gives alone.
// APART_THREADS: real threads, under ThreadSanitizer; otherwise interleaved by the deterministic scheduler.
#include "history.h"
#ifdef APART_THREADS
#include <pthread.h>
#include <atomic>
static thread_local History *mine;
static History &cur_history() { return *mine; }
struct Job { std::vector<uint64_t> seeds; std::vector<uint64_t> got; unsigned char *pool; std::atomic<int> *gate; };
static uint64_t solo(uint64_t seed, unsigned char *pool, std::map<std::string, uint64_t> *covs, std::string *log = nullptr) {
  vh::Hash h; History x = {&h, log, pool, 0, covs}; mine = &x;
  Rng r(seed); any_history(r, (int)(seed >> 40) % 3);
  return h.h;
}
static void *job(void *p) {
  Job *j = (Job *)p;
  j->gate->fetch_sub(1);
  while (j->gate->load() > 0) {}
  for (uint64_t s : j->seeds) j->got.push_back(solo(s, j->pool, nullptr));
  return nullptr;
}
int main(int argc, char **argv) {
  vh::init(argc, argv);
  static std::vector<unsigned char *> pools;
  return vh::run_cases([](uint64_t idx, uint64_t seed) {
    Rng r(seed);
    int n = (int)r.range(2, 6), per = 6;
    while ((int)pools.size() < n) pools.push_back((unsigned char *)aligned_alloc(64, POOL));
    std::vector<Job> js(n); std::vector<pthread_t> th(n); std::atomic<int> gate(n);
    for (int i = 0; i < n; i++) { js[i].pool = pools[i]; js[i].gate = &gate; for (int k = 0; k < per; k++) js[i].seeds.push_back(r.next()); }
    bool twins = r.chance(30);      // the same histories at the same time
    if (twins) for (int i = 1; i < n; i++) js[i].seeds = js[0].seeds;
    for (int i = 0; i < n; i++) if (pthread_create(&th[i], nullptr, job, &js[i])) { fprintf(stderr, "no thread\n"); _exit(3); }
    for (int i = 0; i < n; i++) pthread_join(th[i], nullptr);
    vh::Hash h;
    for (int i = 0; i < n; i++) for (int k = 0; k < per; k++) {
      uint64_t want = solo(js[i].seeds[k], pools[i], &vh::ctx().covs);
      vh::cov("parallel_histories"); h.add(want);
      if (js[i].got[k] != want) { std::string log; solo(js[i].seeds[k], pools[i], nullptr, &log); vh::viol("influenced", sf("history %d of thread %d gave other results beside %d other threads than alone; alone: ", k, i, n - 1) + log); return; }
    }
    vh::distinct(h.h);
  });
}
#else
#include "vsched.h"
static const int MAXT = 5;
static History hist[MAXT + 1];
static History &cur_history() { return hist[sched::self() + 1]; }
int main(int argc, char **argv) {
  vh::init(argc, argv);
  sched::points_in_globals = true;
  sched::limit_free = 20000000;
  return vh::run_cases([](uint64_t idx, uint64_t seed) {
    Rng r(seed);
    int n = (int)r.range(2, 4);
    std::vector<uint64_t> s; for (int i = 0; i < n; i++) s.push_back(r.next());
    if (r.chance(30)) for (int i = 1; i < n; i++) s[i] = s[0];
    std::vector<uint64_t> alone, got(n); std::vector<std::string> la(n), lg(n);
    sched::arena_reset(0);
    std::vector<unsigned char *> pools; for (int i = 0; i < n; i++) pools.push_back((unsigned char *)sched::arena_alloc(POOL));
    bool want_log = vh::want_sample() || vh::ctx().cases == idx + 1 && vh::ctx().first == idx;
    for (int i = 0; i < n; i++) {
      vh::Hash h; hist[0] = {&h, want_log ? &la[i] : nullptr, pools[i], 0, &vh::ctx().covs};
      Rng q(s[i]); any_history(q, (int)(s[i] >> 40) % 3);
      alone.push_back(h.h);
    }
    vh::Hash hs[MAXT];
    for (int i = 0; i < n; i++) sched::spawn([&, i] {
      hist[i + 1] = {&hs[i], want_log ? &lg[i] : nullptr, pools[i], 0, nullptr};
      Rng q(s[i]); any_history(q, (int)(s[i] >> 40) % 3);
      got[i] = hs[i].h;
    });
    sched::Policy p = sched::random_policy(r, n, 3000);
    std::string pt = sf("%d", (int)p.kind);
    sched::Result res = sched::run(p, r);
    vh::cov("schedules"); vh::cov("interleaved_histories", n); vh::cov("points", res.points); vh::cov("switches", res.switches);
    if (!res.bad.empty() || !res.finished) { vh::viol(!res.bad.empty() ? "bad-access" : "unfinished", !res.bad.empty() ? res.bad : std::string("the histories do not end")); return; }
    for (int i = 0; i < n; i++) if (got[i] != alone[i]) {
      size_t k = 0; while (k < la[i].size() && k < lg[i].size() && la[i][k] == lg[i][k]) k++;
      k = k > 200 ? k - 200 : 0;
      vh::viol("influenced", sf("history %d gave other results when interleaved with %d others than alone; alone: ...", i, n - 1) + la[i].substr(la[i].size() < k ? la[i].size() : k, 400) + " | interleaved: ..." + lg[i].substr(lg[i].size() < k ? lg[i].size() : k, 400));
      return;
    }
    if (want_log) vh::sample(la[0]);
    vh::distinct(res.trace);
  });
}
#endif
