#ifndef HISTORY_H
#define HISTORY_H
// C24, C26: random histories over the parts of the library that every build has; the results go into one digest
using vh::Rng; using vh::sf;
struct History { vh::Hash *hash; std::string *log; unsigned char *pool; size_t used; std::map<std::string, uint64_t> *covs; };   // of the running thread
static History &cur_history();
#define H (cur_history().hash)
#define LOG (cur_history().log)
static const size_t POOL = 1 << 16;
static void hcov(const char *k) { if (cur_history().covs) ++(*cur_history().covs)[k]; }
static void out(const char *what, long long v) { H->add((uint64_t)v); if (LOG && LOG->size() < 6000) *LOG += sf(" %s=%lld", what, v); }
template <typename E> static void oute(const char *what, const E &e) { out(what, (long long)vh::mix(low(e.getData())) >> 40); out("@", (long long)e.getTime()); }

template <typename T, typename... A> T *make(A &&...a) { size_t &used = cur_history().used; used = (used + 63) & ~(size_t)63; T *p = new (cur_history().pool + used) T(std::forward<A>(a)...); used += sizeof(T); if (used > POOL) abort(); return p; }

template <typename D, size_t N, bool FORMULAS> static void history(Rng &r, int kind) {
  bool assign = kind == 0;
  typedef Event<D> E; typedef RTML_buffer<E, N> B; typedef RTML_writer<B> W; typedef RTML_reader<B> R; typedef RMTLD3_reader<R> X;
  memset(cur_history().pool, 0, POOL); cur_history().used = 0;
  B *b[2] = {make<B>(), make<B>()};
  W *w[2][2] = {{make<W>(*b[0]), make<W>(*b[0])}, {make<W>(*b[1]), make<W>(*b[1])}};
  R *q[2] = {make<R>(*b[0]), make<R>(*b[1])};
  X *x[2] = {make<X>(*b[0]), make<X>(*b[1])};
  timespan clk = r.chance(30) ? 0 : (timespan)r.below(1000000);
  if (kind == 1) { int sh = (int)r.range(2, 30); clk = (timespan)(r.next() >> sh); }                  // 64-bit times
  if (kind == 2) clk = (timespan)r.range(0x7ffffff0ll, 3200000000ll);            // the upper half of 32 bits
  auto all = [&](int z) {
    size_t bo = 9999, to = 9999; out("state", b[z]->state(bo, to)); out("bottom", bo); out("top", to);
    timespanw t1 = 1, t2 = 2; size_t b2, t3; out("state4", b[z]->state(b2, t3, t1, t2)); out("t1", t1); out("t2", t2); out("length", b[z]->length());
    for (size_t i = bo; i != to && i <= N; i = i >= N ? 0 : i + 1) { E e(Mk<D>::mk(9), 9); out("read", b[z]->read(e, i)); oute("event", e); }
  };
  size_t len = r.range(4, FORMULAS ? 16 : 60);
  bool same_times = !FORMULAS && r.chance(30);
  for (size_t k = 0; k < len; k++) {
    int z = FORMULAS ? 0 : (int)r.below(2);
    if (LOG) *LOG += ";";
    int c = FORMULAS ? (int)r.below(16) : (int)r.below(26);
    if (FORMULAS && c >= 4 && c < 12) c = 0;
    switch (c) {
    case 0: case 1: case 2: case 3: {
      int n = FORMULAS ? (int)r.range(1, 3) : r.chance(15) ? (int)r.range(1, N + 3) : 1;
      while (n--) { if (!same_times || r.chance(70)) clk += 1 + r.below(FORMULAS ? 9 : 100); D d = Mk<D>::mk(1 + r.below(FORMULAS ? 3 : 1000)); E e(d, clk); if (r.chance(40)) out("push", b[z]->push(e)); else { int er = w[z][r.below(2)]->push_all(e); out("write", er == B::UNSAFE ? B::OK : er); hcov("pushes"); } }   // one build warns of several writers
      break;
    }
    case 4: { E e(Mk<D>::mk(7), 7); out("pull", b[z]->pull(e)); oute("event", e); hcov("buffer_pulls"); break; }
    case 5: { E e(Mk<D>::mk(7), 7); out("pop", b[z]->pop(e)); oute("event", e); break; }
    case 6: { E e(Mk<D>::mk(7), 7); out("refused", b[z]->read(e, N + 1 + r.below(3))); out("refusedw", b[z]->write(e, N + 1 + r.below(3))); oute("event", e); break; }
    case 7:
#ifndef CFG_HW            // not available there
      if (assign && r.chance(20)) { *b[z] = *b[1 - z]; hcov("assignments"); }
#endif
      break;
    case 8: { D other = Mk<D>::mk(r.below(2) ? 5 : 6); E e(Mk<D>::mk(5), clk), f(other, clk + r.below(2)), g; g = e; g = &f; timespan t = clk;
      out("cmp", (e < f) + 2 * (e <= f) + 4 * (e > f) + 8 * (e >= f) + 16 * (e == f) + 32 * (e != f) + 64 * (g == f) + 128 * (f < t) + 256 * (f == t) + 512 * (f > t) + 1024 * (t < f) + 2048 * (t == f) + 4096 * (f <= t) + 8192 * (f >= t)); break; }
    case 9: { struct timespec p, s, d; p.tv_sec = r.below(1000); p.tv_nsec = r.below(1000000000); s.tv_sec = r.below(1000); s.tv_nsec = r.below(1000000000); timespecadd(&p, &s, &d); out("sec", d.tv_sec); out("nsec", d.tv_nsec); timespecsub(&p, &s, &d); out("sec", d.tv_sec); out("nsec", d.tv_nsec); out("cmp", timespeccmp(&p, &s, <)); unsigned u = r.next(); useconds_t2timespec(&u, &d); out("sec", d.tv_sec); out("nsec", d.tv_nsec); out("set", timespecisset(&d)); timespecclear(&d); out("set", timespecisset(&d)); break; }
    case 10: case 11: case 12: case 13: {
      R &p = *q[z];
      switch (r.below(5)) {
      case 0: case 1: out("sync", p.synchronize()); break;
      case 2: { E e(Mk<D>::mk(7), 7); out("rpull", p.pull(e)); oute("event", e); break; }
      case 3: { if (p.synchronize() == R::NO_GAP && p.length() > 0) { E e(Mk<D>::mk(7), 7); out("rpop", p.pop(e)); oute("event", e); } break; }
      default: out("gap", p.gap()); out("rlength", p.length());
      }
      hcov("reader_ops");
      break;
    }
    default: {
      X &p = *x[z];
      switch (FORMULAS ? 9 : r.below(10)) {
      case 0: case 1: out("xsync", p.synchronize()); out("reset", p.reset()); break;
      case 2: { timespan t = clk > 200 ? clk - r.below(200) : r.below(clk + 1); out("set", p.set(t)); break; }
      case 3: { size_t k2 = r.below(N + 4); if (k2 > N) out("set_cursor", p.set_cursor(k2)); break; }
      case 4: if (p.length() > 0) out("inc", p.increment_cursor()); break;
      case 5: out("dec", p.decrement_cursor()); break;
      case 6: { E e(Mk<D>::mk(7), 7); out("xpull", p.pull(e)); oute("event", e); break; }
      case 7: { E e(Mk<D>::mk(7), 7); out("next", p.read_next(e)); oute("event", e); out("prev", p.read_previous(e)); oute("event", e); break; }
      case 8: out("len", p.length()); out("cons", p.consumed()); out("xgap", p.gap()); out("cursor", p.get_cursor()); break;
      default: {
        out("xsync", p.synchronize()); out("reset", p.reset());
        if (p.length() == 0) break;
        size_t st = r.below(p.length()); bool by_time = r.chance(50);
        E e(Mk<D>::mk(7), 7);
        size_t bo, to; b[z]->state(bo, to);
        while (st--) p.increment_cursor();
        p.read(e); timespan t = e.getTime();
        if (by_time) { t += r.below(3); p.reset(); if (p.set(t) != 0) { out("unset", 1); break; } }
        for (int f = 0; f < (FORMULAS ? NNODES : 3); f++) {
          int i = FORMULAS ? f : (int)r.below(NNODES); timespan tt = t;
          if (NODES[i].dur) { duration d = Table<X>::d(i, p, tt); out("unk", d.second); if (!d.second) out("dur", (long long)d.first); hcov("durations"); }
          else { int v = Table<X>::e(i, p, tt); out(NODES[i].op, v); hcov(v == T_TRUE ? "true" : v == T_FALSE ? "false" : "unknown"); }
        }
      }
      }
      hcov("trace_ops");
    }
    }
    if (!FORMULAS && r.chance(30)) all(z);
  }
  all(0); all(1);
}

static void any_history(Rng &r, int assign) {
    switch (r.below(6)) {
    case 0: history<int, 1, false>(r, assign); break;
    case 1: history<int, 3, false>(r, assign); break;
    case 2: history<unsigned char, 7, false>(r, assign); break;
    case 3: history<int, 13, true>(r, assign); break;
    case 4: history<int, 40, true>(r, assign); break;
    default: history<int, 20, false>(r, assign); break;
    }
}
#endif
