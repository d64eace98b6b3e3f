using namespace vh;
static three_valued_type t3(int k) { return k == 0 ? T_TRUE : k == 1 ? T_FALSE : T_UNKNOWN; }
static four_valued_type t4(int k) { return k == 0 ? FV_TRUE : k == 1 ? FV_FALSE : k == 2 ? FV_UNKNOWN : FV_SYMBOL; }
int main(int argc, char **argv) {
  init(argc, argv);
  // the constants themselves are four (three) different values
  if (T_TRUE == T_FALSE || T_TRUE == T_UNKNOWN || T_FALSE == T_UNKNOWN || FV_TRUE == FV_FALSE || FV_SYMBOL == FV_UNKNOWN || FV_SYMBOL == FV_TRUE || FV_SYMBOL == FV_FALSE) viol("constants", "truth values coincide");
  return run_cases([](uint64_t k, uint64_t s) {
    const Row &row = ROWS[k % NROWS];
    Rng r(s);
    Hash hs;
    for (int q = 0; q < 81 * 4; q++) {
      three_valued_type a = t3(q % 3), b = t3(q / 3 % 3), c = t3(q / 9 % 3), d = t3(q / 27 % 3);
      four_valued_type f = t4(q / 81);
      duration p(r.range(0, 6), r.chance(20)), t(r.range(0, 6), r.chance(20));
      timeabs x = r.range(0, 5), y = r.range(0, 5);
      bool u = r.chance(30), w = r.chance(30);
      if (r.chance(10)) { p.first = r.range(0, 1ll << 20) << 12; x = r.range(0, 5) << 32; }
      unsigned long long got = row.l(a, b, c, d, f, p, t, x, y, u, w), want = row.k(a, b, c, d, f, p, t, x, y, u, w);
      cov("assignments");
      hs.add(want);
      if (got != want) {
        viol("composition", sf("%s with a=%s b=%s c=%s d=%s f=%s p=(%lld,%d) q=(%lld,%d) x=%lld y=%lld u=%d w=%d gives %lld, expected %lld", row.txt, k_name3(a), k_name3(b), k_name3(c), k_name3(d), k_name4(f),
          (long long)p.first, p.second, (long long)t.first, t.second, (long long)x, (long long)y, u, w, got, want));
        return;
      }
    }
    hs.add(k % NROWS);
    distinct(hs.h);
    if (want_sample()) sample(row.txt);
  });
}
