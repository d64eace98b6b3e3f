// C24: prints one digest of all results per history
#include "history.h"
// everything lives below 4 GB, because one flavour keeps addresses in 32 bits
alignas(64) static unsigned char pool[POOL];
static History hist;
static History &cur_history() { return hist; }

int main(int argc, char **argv) {
  vh::init(argc, argv);
  return vh::run_cases([](uint64_t idx, uint64_t seed) {
    int assign = idx % 4;
#ifdef CFG_HW
    if (assign == 0) return;
#endif
#ifdef CFG_ARM
    if (assign == 1) return;   // times have 32 bits there
#endif
    Rng r(seed); vh::Hash h; std::string log; std::string *l = vh::want_sample() || vh::ctx().cases == idx + 1 && vh::ctx().first == idx ? &log : nullptr;
    hist = {&h, l, pool, 0, &vh::ctx().covs};
    any_history(r, assign);
    if (LOG) vh::sample(log);
    fprintf(vh::ctx().rep, "DIGEST\t%llu\t%016llx\n", (unsigned long long)idx, (unsigned long long)h.h);
    vh::distinct(h.h);
  });
}
