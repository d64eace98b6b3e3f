// C21 (mode=C21) and C22 (mode=C22): periodic tasks and monitors in virtual time
#include "conc.h"
#include "vpthread.h"
#include <periodicmonitor.h>
using vh::Rng;

static bool c21;
static const int64_t SLACK = 10000000;          // from enabling to activation
enum Op { SLEEP, SLEEP_TO_RELEASE, ENABLE, DISABLE, PERIOD, RUNNING_Q, PERIOD_Q, SPIN };
struct Step { Op op; int64_t x; };
struct Job { int64_t s, e; uint64_t step; };
struct Change { int64_t at; useconds_t p; };
struct Ask { int64_t at0, at1; uint64_t step0, step1; bool r; };

struct Unit;
static void job(Unit *u);
struct Unit {                                    // one task or monitor with its controller
  int id; bool mon;
  std::vector<Step> script, in_job, script2; bool built = false, done2 = true;              // in_job[k]: done by job k
  std::vector<int64_t> dur;
  useconds_t p0;
  // recorded
  std::vector<Job> jobs; std::vector<Change> per; std::vector<Ask> asks;
  std::vector<std::pair<int64_t, uint64_t>> en, dis;
  bool in_run = false, busy = false, many = false, joined = false; int64_t first_dis_call = -1, t_join = -1, t_end = -1; std::string bad; int join_rc = 0;
  void *obj = nullptr;
  bool started_before_enable = false;
  int nth = -1;
  void op(const Step &s);
  void nap(int64_t t);
};
struct Mon : RTML_monitor<'m', 'o', 'n', '1'> {
  Unit *u; uint64_t magic;
  Mon(Unit *x, useconds_t p) : RTML_monitor(p), u(x), magic(0x1122334455667788ull) {}
  Mon(Unit *x, useconds_t p, int sc, int pr) : RTML_monitor(p, sc, pr), u(x), magic(0x1122334455667788ull) {}
  void run() { if (magic != 0x1122334455667788ull) { sched::NoSched ns; u->bad = "job ran on a wrong or unfinished object"; return; } job(u); }
};
static void *task_body(void *p) {
  Unit *u = (Unit *)p;
  job(u);
  return nullptr;
}
static std::vector<Unit *> units;
static void job(Unit *u) {
  size_t k;
  {
    sched::NoSched ns;
    if (std::find(units.begin(), units.end(), u) == units.end()) { if (!units.empty()) units[0]->bad = "job got a wrong payload"; return; }
    if (u->in_run) u->bad = "two jobs at once";
    u->in_run = true;
    k = u->jobs.size();
    if (k < 400) u->jobs.push_back({sched::now, -1, sched::steps()});
  }
  if (k >= 400) { u->many = true; vpt::sleep_until(sched::now + 20000); u->in_run = false; return; }     // recorded enough
  sched::point();
  if (k < u->in_job.size()) u->op(u->in_job[k]);
  if (u->dur[k % u->dur.size()] > 0) vpt::sleep_until(sched::now + u->dur[k % u->dur.size()]);
  sched::point();
  sched::NoSched ns;
  u->jobs[k].e = sched::now;
  u->in_run = false;
}
// a sleep of the controller, cut short when enough has been recorded
void Unit::nap(int64_t t) {
  int64_t w = sched::wake_delay_max; sched::wake_delay_max = 0;
  sched::block([this] { return many; }, t);
  sched::wake_delay_max = w;
}
void Unit::op(const Step &s) {
  switch (s.op) {
  case SLEEP: nap(sched::now + s.x); break;
  case SLEEP_TO_RELEASE: {                        // to the instant at which the next job is (about) due
    int64_t t; { sched::NoSched ns; t = jobs.empty() ? sched::now + (int64_t)per.back().p * 1000 : jobs.back().s + (int64_t)per.back().p * 1000; }
    nap(std::max(sched::now, t) + s.x); break;
  }
  case SPIN: for (int i = 0; i < s.x; i++) sched::point(); break;
  case ENABLE: { sched::NoSched ns; en.push_back({sched::now, sched::steps()}); }
    if (mon) ((Mon *)obj)->enable(); else ((task *)obj)->st = ACTIVATE;
    break;
  case DISABLE: { sched::NoSched ns; if (first_dis_call < 0) first_dis_call = sched::now; }
    if (mon) ((Mon *)obj)->disable(); else ((task *)obj)->st = ABORT;
    { sched::NoSched ns; dis.push_back({sched::now, sched::steps()}); } break;
  case PERIOD: { sched::NoSched ns; busy = true; per.push_back({sched::now, (useconds_t)s.x}); }
    if (mon) { useconds_t v = (useconds_t)s.x; ((Mon *)obj)->setPeriod(v); } else ((task *)obj)->period = (useconds_t)s.x;
    busy = false;
    break;
  case RUNNING_Q: if (mon) {
    Ask a; { sched::NoSched ns; a.at0 = sched::now; a.step0 = sched::steps(); }
    a.r = ((Mon *)obj)->isRunning();
    { sched::NoSched ns; a.at1 = sched::now; a.step1 = sched::steps(); asks.push_back(a); }
  } break;
  case PERIOD_Q: if (mon) { size_t c; { sched::NoSched ns; c = per.size(); } useconds_t v = ((Mon *)obj)->getPeriod(); sched::NoSched ns; if (v != per.back().p && c == per.size() && !busy) bad = vh::sf("getPeriod is %u after %u was set", v, per.back().p); } break;
  }
}
static std::string text(const std::vector<Step> &v) {
  static const char *n[] = {"sleep", "sleep-to-release+", "enable", "disable", "period", "isRunning", "getPeriod", "spin"};
  std::string s; for (auto &x : v) { s += std::string(" ") + n[x.op]; if (x.op <= 1 || x.op == PERIOD) s += vh::sf("(%lld)", (long long)x.x); }
  return s;
}
static std::string show(Unit *u) {
  int64_t z = u->per.empty() ? 0 : u->per[0].at;
  std::string s = vh::sf(" | %s %d period %u us, script:", u->mon ? "monitor" : "task", u->id, u->p0) + text(u->script) + (u->script2.empty() ? "" : "; second thread:" + text(u->script2)) + "; in jobs:" + text(u->in_job);
  for (auto &x : u->en) s += vh::sf(" enabled@%lld", (long long)(x.first - z));
  for (auto &x : u->dis) s += vh::sf(" disabled@%lld", (long long)(x.first - z));
  for (auto &x : u->per) s += vh::sf(" period(%u)@%lld", x.p, (long long)(x.at - z));
  s += " jobs:"; for (size_t i = 0; i < u->jobs.size() && i < 60; i++) s += vh::sf(" %lld..%lld", (long long)(u->jobs[i].s - z), (long long)(u->jobs[i].e < 0 ? -1 : u->jobs[i].e - z));
  for (auto &a : u->asks) s += vh::sf(" isRunning@%lld=%d", (long long)(a.at0 - z), a.r);
  if (u->t_end >= 0) s += vh::sf(" ended@%lld", (long long)(u->t_end - z));
  return s;
}

typedef std::pair<int64_t, int64_t> Iv;
// periods in force at some instant of [a, b]
static std::vector<useconds_t> in_force(Unit *u, int64_t a, int64_t b) {
  std::vector<useconds_t> v; useconds_t last = u->p0; bool pushed = false;
  for (auto &c : u->per) {
    if (c.at < a) { last = c.p; continue; }
    if (!pushed) { v.push_back(last); pushed = true; }
    if (c.at <= b) v.push_back(c.p);
  }
  if (!pushed) v.push_back(last);
  return v;
}
static void add(std::vector<Iv> &v, Iv x) { for (auto &y : v) if (y == x) return; v.push_back(x); }

// C21: the release times; D: largest lateness of a wake-up
static std::string timing(Unit *u, int64_t D, int64_t stop) {
  if (u->en.empty()) return "";
  int64_t te = u->en[0].first, tdis = u->dis.empty() ? stop : u->dis[0].first;
  if (!u->dis.empty() && u->dis[0].second < u->en[0].second) return "";
  std::vector<Iv> A(1, Iv(te, te + SLACK + 2 * D)), R;
  int64_t e = te;                                    // when the release could first be waited for
  size_t k = 0;
  for (;; k++) {
    // the next release
    R.clear();
    if (k == 0) { for (auto p : in_force(u, te, te + SLACK + 2 * D)) add(R, Iv(A[0].first + (int64_t)p * 1000, A[0].second + (int64_t)p * 1000)); }
    else for (auto &a : A) for (auto p : in_force(u, e, e)) add(R, Iv(a.first + (int64_t)p * 1000, a.second + (int64_t)p * 1000));
    if (R.size() > 200) {                             // too many possibilities: neighbours are joined, which allows more
      std::sort(R.begin(), R.end());
      std::vector<Iv> t;
      for (size_t i = 0; i < R.size(); i++) if (i % 4 == 0) t.push_back(R[i]); else t.back().second = std::max(t.back().second, R[i].second);
      R.swap(t);
      vh::cov("joined_possibilities");
    }
    if (k == u->jobs.size()) break;
    const Job &j = u->jobs[k];
    if (j.s < e) return vh::sf("job %zu started at %lld before the previous one had ended", k, (long long)(j.s - u->per[0].at));
    A.clear();
    bool early = true;
    for (auto &r : R) {
      Iv x = r;
      if (x.first <= j.s) early = false;
      x.second = std::min(x.second, j.s);
      if (k == 0 || j.s > e + D) x.first = std::max(x.first, j.s - D);
      if (x.first <= x.second) add(A, x);
    }
    if (A.empty()) {
      std::string s = vh::sf("job %zu started at %lld; it is due at", k, (long long)(j.s - u->per[0].at));
      for (auto &r : R) s += vh::sf(" %lld..%lld", (long long)(r.first - u->per[0].at), (long long)(r.second - u->per[0].at));
      return (early ? "early: " : "late: ") + s + vh::sf(" (wake-ups are at most %lld late)", (long long)D);
    }
    vh::cov("releases");
    if (j.s == e && k && e > R[0].second) vh::cov("overrun_releases");
    if (j.e < 0) return "job not finished";
    e = j.e;
  }
  int64_t due = -1;
  for (auto &r : R) due = std::max(due, std::max(r.second, e) + D);
  if (!u->many && due >= 0 && due < tdis) return vh::sf("missing: job %zu was due at %lld at the latest, and the task was disabled at %lld", k, (long long)(due - u->per[0].at), (long long)(tdis - u->per[0].at));
  return "";
}
// C22: the life cycle
static std::string life(Unit *u, int64_t D) {
  int64_t z = u->per[0].at;
  bool enabled = !u->en.empty(), disabled = !u->dis.empty();
  if (!u->jobs.empty() && (!enabled || u->jobs[0].step < u->en[0].second)) return "job before enabling";
  if (disabled) {
    int64_t td = u->dis[0].first; uint64_t sd = u->dis[0].second;
    if (enabled && sd < u->en[0].second && !u->jobs.empty()) return "job after it was disabled before it was enabled";
    if (u->t_end >= 0 && u->t_end < td && u->first_dis_call > u->t_end) return vh::sf("its thread terminated at %lld, it was disabled at %lld", (long long)(u->t_end - z), (long long)(td - z));
    int after = 0; int64_t pmax = u->p0; for (auto &c : u->per) pmax = std::max<int64_t>(pmax, c.p);
    int64_t lastE = td;
    for (auto &j : u->jobs) {
      if (j.step > sd) { after++; if (j.s > td) return vh::sf("job started at %lld, disabled at %lld", (long long)(j.s - z), (long long)(td - z)); }
      if (j.e >= 0) lastE = std::max(lastE, j.e);
    }
    if (u->many) return "";
    if (after > 1) return "two jobs after it was disabled";
    if (u->t_end < 0) return "its thread has not terminated";
    int64_t bound = lastE + (u->jobs.empty() && !enabled ? 0 : pmax * 1000) + D + SLACK;
    if (u->t_end > bound) return vh::sf("its thread terminated at %lld, more than a period after it was disabled at %lld", (long long)(u->t_end - z), (long long)(td - z));
    if (!u->joined) return "join has not returned";
    if (u->join_rc) return vh::sf("join returned %d", u->join_rc);
    if (u->t_join < u->t_end) return "join returned before the thread ended";
    vh::cov("terminated");
    if (enabled && u->jobs.empty()) vh::cov("disabled_before_first_job");
    if (!enabled) vh::cov("never_enabled");
    if (after) vh::cov("job_in_progress_at_disable");
  } else if (u->t_end >= 0) return "its thread terminated although it was not disabled";
  // isRunning
  bool was = false;
  for (auto &a : u->asks) {
    bool dis_before = disabled && u->dis[0].second < a.step0;
    // a disable whose call had begun may already be visible, its record is made when it returns
    bool en_before = enabled && u->en[0].second < a.step1;
    if (a.r && !en_before) return vh::sf("isRunning before enabling, at %lld", (long long)(a.at0 - z));
    if (a.r && dis_before) return vh::sf("isRunning after disabling, at %lld", (long long)(a.at0 - z));
    if (!a.r && enabled && a.at0 > u->en[0].first + SLACK + 2 * D && !(disabled && u->dis[0].first <= a.at1) && !(disabled && u->dis[0].second < u->en[0].second))
      return vh::sf("not running at %lld", (long long)(a.at0 - z));
    if (u->script2.empty() && !a.r && was && !(disabled && u->dis[0].first <= a.at1)) return vh::sf("not running any more at %lld", (long long)(a.at0 - z));
    was = a.r;
    vh::cov(a.r ? "is_running" : "is_not_running");
  }
  return "";
}

static bool run_case(Rng &r, vh::Hash &h, const sched::Policy *fixed, uint64_t *points, int kind) {
  sched::arena_reset((int)r.below(3) == 0 ? -1 : r.chance(50) ? 0 : 255);
  if (r.chance(30)) sched::arena_reset((int)r.below(6));              // bytes that look like a status
  sched::now = r.chance(40) ? 1700000000000000000ll + r.below(1000000000000ull) : r.chance(50) ? 999990000ll + r.below(20000) : 5000000000ll - r.below(300000000);
  sched::on_clock = nullptr;
  sched::mono_offset = r.chance(50) ? 0 : (int64_t)r.below(900000000);
  sched::points_in_globals = false;
  int64_t D = kind >= 0 ? 0 : r.chance(55) ? 0 : (int64_t)r.range(1000, 300000);
  sched::wake_delay_max = D;
  vpt::reset(&r);
  vpt::spurious_pct = kind >= 0 ? (kind % 3 == 2 ? 40 : 0) : r.chance(50) ? 0 : (unsigned)(r.chance(85) ? r.range(5, 60) : r.range(60, 96));
  for (Unit *u : units) delete u;
  units.clear();
  int n = kind >= 0 ? 1 : r.chance(70) ? 1 : 2;
  // several tasks whose jobs are due at the same instants
  const bool together = kind < 0 && r.chance(4); int64_t common = 0;
  if (together) { n = (int)r.range(2, 3); D = 0; sched::wake_delay_max = 0; common = r.range(100, 2000); vh::cov("due_together"); sched::points_in_globals = true; }
  for (int i = 0; i < n; i++) {
    Unit *u = new Unit(); units.push_back(u);
    u->id = i; u->mon = kind >= 0 ? kind & 1 : r.chance(60);
    auto per = [&]() -> int64_t { return r.chance(8) ? 0 : r.chance(50) ? r.range(100, 3000) : r.chance(60) ? r.range(3000, 400000) : r.chance(60) ? r.range(900000, 5000000) : (int64_t)(4294967295u - r.below(3)); };
    u->p0 = kind >= 0 ? 1000 : (useconds_t)per();
    if (!c21 && kind < 0 && u->p0 > 3000 && r.chance(50)) u->p0 = (useconds_t)r.range(200, 3000);
    int64_t P = (int64_t)u->p0 * 1000;
    auto &s = u->script; int64_t longest = 0;
    bool en = false, dis = false, zero = u->p0 == 0, to_zero = false;
    auto nap = [&] { int64_t q = P ? P : 300000; s.push_back({SLEEP, r.chance(30) ? (int64_t)r.below(q / 10 + 1) : r.chance(60) ? (int64_t)r.below(3 * q + 1) : (int64_t)r.below(12 * q + 1)}); };
    if (kind >= 0) {
      static const std::vector<std::vector<Step>> K = {
        {{ENABLE, 0}, {SLEEP, 2500000}, {RUNNING_Q, 0}, {DISABLE, 0}},
        {{DISABLE, 0}, {ENABLE, 0}, {RUNNING_Q, 0}},
        {{ENABLE, 0}, {DISABLE, 0}, {RUNNING_Q, 0}},
        {{ENABLE, 0}, {SLEEP_TO_RELEASE, 0}, {SPIN, 1}, {DISABLE, 0}},
        {{ENABLE, 0}, {SLEEP, 1050000}, {SLEEP_TO_RELEASE, 0}, {DISABLE, 0}, {DISABLE, 0}},
        {{ENABLE, 0}, {SLEEP, 100000}, {ENABLE, 0}, {SLEEP, 1000000}, {RUNNING_Q, 0}, {DISABLE, 0}, {ENABLE, 0}},
        {{SLEEP, 100000}, {ENABLE, 0}, {SLEEP, 50000}, {DISABLE, 0}},
        {{SLEEP, 100000}, {DISABLE, 0}},
      };
      s = K[kind / 2 % K.size()];
      if (!u->mon) { bool d = false, e = false; std::vector<Step> t; for (auto &x : s) { if (x.op == ENABLE && (d || e)) continue; if (x.op == ENABLE) e = true; if (x.op == DISABLE) d = true; t.push_back(x); } s = t; }
      for (auto &x : s) if (x.op == DISABLE) dis = true;
      u->dur.assign(1, kind % 5 == 4 ? 400000 : 0);
    } else {
      if (!c21 && r.chance(10)) { s.push_back({DISABLE, 0}); dis = true; }
      if (r.chance(60)) nap();
      if (r.chance(20)) { s.push_back({PERIOD, zero ? 0 : r.range(100, 5000)}); }
      if (!c21 && u->mon && r.chance(30)) s.push_back({RUNNING_Q, 0});
      if (c21 || r.chance(90)) if (u->mon || !dis) { s.push_back({ENABLE, 0}); en = true; }
      int m = (int)r.range(0, c21 ? 10 : 6);
      for (int k = 0; k < m; k++) switch (r.below(8)) {
        case 0: case 1: case 2: nap(); break;
        case 3: s.push_back({SLEEP_TO_RELEASE, r.chance(70) ? 0 : (int64_t)r.below(1000)}); if (!c21 && r.chance(25)) { if (r.chance(30)) s.push_back({SPIN, (int64_t)r.below(12)}); s.push_back({DISABLE, 0}); dis = true; } break;
        case 4: if (!zero && kind < 0 && r.chance(10)) { to_zero = true; s.push_back({PERIOD, 0}); s.push_back({PERIOD_Q, 0}); s.push_back({SLEEP, (int64_t)r.below(1000000)}); }
          s.push_back({PERIOD, zero ? 0 : r.chance(50) ? r.range(100, 5000) : (int64_t)std::max<int64_t>(50, u->p0 / (1 + r.below(4)))}); break;
        case 5: s.push_back({RUNNING_Q, 0}); break;
        case 6: s.push_back({PERIOD_Q, 0}); break;
        case 7: if (u->mon && !c21 && r.chance(40)) s.push_back({ENABLE, 0}); else if (!c21 && r.chance(30)) { s.push_back({DISABLE, 0}); dis = true; } else s.push_back({SPIN, (int64_t)r.below(12)}); break;
      }
      if (!u->mon && dis) { bool d = false; std::vector<Step> t; for (auto &x : s) { if (x.op == DISABLE) d = true; if (x.op == ENABLE && d) continue; t.push_back(x); } s = t; }
      nap();
      if (c21) s.push_back({SLEEP, P ? P * (int64_t)r.range(2, 40) : 2000000});
      // job durations: short, around the period, several periods
      int64_t q = P ? P : 200000;
      if (to_zero) vh::cov("zero_for_a_while");
      for (int k = 0; k < 8; k++) u->dur.push_back(zero || to_zero ? (int64_t)r.range(20000, 200000) : r.chance(45) ? 0 : r.chance(50) ? (int64_t)r.below(q) : r.chance(70) ? q - 50 + (int64_t)r.below(100) : (int64_t)r.below(4 * q));
      if (zero && r.chance(1)) u->dur[0] = 1000;
      if (c21 && !zero && !to_zero && P < 10000000 && r.chance(4)) {       // one job of very many periods, then short ones
        int64_t k = r.range(10, 300);
        longest = k;
        u->dur.assign(1024, 0);
        u->dur[r.below(6)] = q * k + (int64_t)r.below(q);
        s.push_back({SLEEP, q * (k + 20)});
        vh::cov("long_overruns");
      }
      bool setsp = false; for (auto &x : s) if (x.op == PERIOD) setsp = true;      // the period has one writer
      if (r.chance(30)) for (int k = 0, c = (int)r.below(4); k < c; k++) {
        Step x = r.chance(50) && !setsp ? Step{PERIOD, zero ? 0 : (int64_t)r.range(100, 4000)} : u->mon && r.chance(50) ? Step{RUNNING_Q, 0} : !c21 && r.chance(30) ? Step{DISABLE, 0} : u->mon && !c21 ? Step{ENABLE, 0} : Step{SPIN, 3};
        u->in_job.push_back(x);
      }
    }
    (void)en;
    if (together) {
      u->p0 = (useconds_t)(common * (1 + r.below(3)));
      u->script.clear(); u->in_job.clear();
      if (r.chance(30)) u->script.push_back({SPIN, (int64_t)r.below(12)});
      u->script.push_back({ENABLE, 0});
      u->script.push_back({SLEEP, common * 1000 * (int64_t)r.range(3, 14)});
      u->dur.assign(1, 0);
      if (r.chance(50)) for (int k = 0; k < 4; k++) u->dur.push_back(r.chance(50) ? 0 : (int64_t)r.below(3 * common) * 1000);
    }
    if (together) {}
    else if (kind < 0 ? u->mon && !c21 && r.chance(30) : u->mon && kind / 2 % 8 == 2) {
      if (kind >= 0) u->script2 = {{DISABLE, 0}}, u->script = {{ENABLE, 0}, {SLEEP, 1500000}};
      else {
        if (r.chance(60)) u->script2.push_back({SLEEP, s.size() && s[0].op == SLEEP ? s[0].x % 3000000 : (int64_t)r.below(400000)});
        for (int k = (int)r.range(1, 4); k--;) u->script2.push_back(r.chance(40) ? Step{ENABLE, 0} : r.chance(50) ? Step{DISABLE, 0} : r.chance(50) ? Step{RUNNING_Q, 0} : Step{SPIN, (int64_t)r.below(6)});
      }
    }
    // the case stays small: few jobs
    int64_t span = 0, pmin = u->p0; for (auto &x : s) { if (x.op == SLEEP || x.op == SLEEP_TO_RELEASE) span += x.x; if (x.op == PERIOD && (x.x || zero)) pmin = std::min<int64_t>(pmin, x.x); }
    for (auto &x : u->in_job) if (x.op == PERIOD) pmin = std::min<int64_t>(pmin, x.x);
    int64_t lim = (pmin ? pmin * 1000 : 20000) * (150 + longest * 2);
    if (span > lim) for (auto &x : s) if (x.op == SLEEP) x.x = (int64_t)((double)x.x * lim / span);
    if (!zero && r.chance(25) && kind < 0) { int64_t nmax = 3000000000ll; for (auto &x : s) if (x.op == SLEEP) x.x = std::min(x.x, nmax); }
  }
  // polling waits for activation must stay few: sleeps before enabling are cut
  for (Unit *u : units) { bool e = false; for (auto &x : u->script) { if (x.op == ENABLE) e = true; if (!e && (x.op == SLEEP || x.op == SLEEP_TO_RELEASE)) x = Step{SLEEP, x.x % 3000000}; } }
  for (Unit *u : units)
    sched::spawn([u, &r, kind] {
      { sched::NoSched ns; u->per.push_back({sched::now, u->p0}); }
      if (u->mon) { void *m; bool three; { sched::NoSched ns; m = sched::arena_alloc(sizeof(Mon)); u->obj = m; three = r.chance(50); } if (three) new (m) Mon(u, u->p0, SCHED_FIFO, 3); else new (m) Mon(u, u->p0); }
      else { void *m; { sched::NoSched ns; m = sched::arena_alloc(sizeof(task)); u->obj = m; } new (m) task("tsk", task_body, 0, 0, u->p0, u); }
      u->built = true;
      for (auto &s : u->script) u->op(s);
      u->op({DISABLE, 0});
      if (u->mon) u->op({RUNNING_Q, 0});
      if (!u->done2) sched::block([u] { return u->done2; });
      int rc;
      if (u->mon) rc = ((Mon *)u->obj)->join(); else { void *x = nullptr; rc = pthread_join(((task *)u->obj)->thread, &x); }
      sched::NoSched ns;
      u->joined = true; u->t_join = sched::now; u->join_rc = rc;
      u->nth = vpt::of_creator(sched::self());
      if (u->nth >= 0 && vpt::ended(u->nth).done) u->t_end = vpt::ended(u->nth).at;
      if (u->mon) ((Mon *)u->obj)->~Mon(), sched::arena_dead(u->obj, sizeof(Mon)); else sched::arena_dead(u->obj, sizeof(task));
    });
  for (Unit *u : units) if (!u->script2.empty()) {                    // a second controlling thread
    u->done2 = false; vh::cov("second_controllers");
    sched::spawn([u] {
      if (!u->built) sched::block([u] { return u->built; });
      for (auto &s : u->script2) u->op(s);
      u->done2 = true;
    });
  }
  sched::limit_free = 120000; sched::limit_fair = 200000;
  sched::Policy p = fixed ? *fixed : sched::random_policy(r, n, 200 + r.below(3000));
  sched::Result res = sched::run(p, r);
  sched::wake_delay_max = 0; sched::mono_offset = 0;
  if (points) *points = res.points;
  h.add(res.trace); for (Unit *u : units) for (auto &j : u->jobs) h.add(j.s - u->per[0].at);
  vh::cov("schedules"); vh::cov("points", res.points); vh::cov("spurious_wakeups", vpt::spurious); if (D) vh::cov("late_wakeup_cases");
  for (Unit *u : units) { vh::cov("jobs", u->jobs.size()); vh::cov(u->mon ? "monitors" : "tasks"); }
  auto ctx = [&] { std::string s; for (Unit *u : units) s += show(u); return s + vh::sf("; wake-ups up to %lld ns late, %llu spurious; schedule ", (long long)D, (unsigned long long)vpt::spurious) + policy_text(p); };
  if (!res.bad.empty() || !vpt::bad.empty()) { if (c21) { vh::cov("given_up"); return true; } vh::viol(res.bad.empty() ? "misuse" : "bad-access", (res.bad.empty() ? vpt::bad : res.bad) + ctx()); return false; }
  for (Unit *u : units) if (!u->bad.empty()) { vh::viol("job", u->bad + ctx()); return false; }
  if (!res.finished) {
    if (c21) { for (Unit *u : units) { std::string e = timing(u, D, sched::now); if (!e.empty()) { vh::viol("timing:" + e.substr(0, e.find(':')), e + ctx()); return false; } } vh::cov("unfinished"); return true; }
    vh::viol("not-terminated", run_problem(res) + ctx()); return false;
  }
  for (Unit *u : units) {
    std::string e = c21 ? timing(u, D, sched::now) : life(u, D);
    if (!e.empty()) { vh::viol(c21 ? "timing:" + e.substr(0, e.find(':')) : "life", e + ctx()); return false; }
  }
  if (vh::want_sample()) vh::sample(ctx());
  return true;
}

int main(int argc, char **argv) {
  vh::init(argc, argv);
  c21 = vh::opt("mode") == "C21";
  bool sys = vh::has("systematic");
  return vh::run_cases([&](uint64_t idx, uint64_t seed) {
    if (sys) {
      int kind = (int)(idx % 16), first = (int)(idx / 16 % 2); uint64_t i = idx / 32, L1 = 0, L2;
      auto one = [&](const sched::Policy &p, uint64_t *L) { Rng r(vh::mix2(vh::ctx().seed, kind)); vh::Hash h; vh::cov("systematic_schedules"); bool ok = run_case(r, h, &p, L, kind); vh::distinct(h.h); return ok; };
      sched::Policy p; p.kind = sched::LIST; p.first = 0;
      p.pre.assign(1, {i + 1, first});
      if (first) { p.pre.insert(p.pre.begin(), sched::Policy::Pre{1, 0}); if (i == 0) return; }
      if (!one(p, &L1) || L1 <= i) return;
      for (uint64_t j = i + 2; j <= L1; j++) {
        sched::Policy q = p; q.pre.push_back({j, 0});
        if (!one(q, &L2)) return;
      }
      return;
    }
    Rng r(seed); vh::Hash h;
    run_case(r, h, nullptr, nullptr, -1);
    vh::distinct(h.h);
  });
}
