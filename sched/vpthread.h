// Threads, mutexes, condition variables and sleeps of the code under test as coroutines in virtual time.
#ifndef VERIF_VPTHREAD_H
#define VERIF_VPTHREAD_H
#include "vsched.h"
namespace vpt {
extern unsigned spurious_pct;          // chance that a condition wait is woken up spuriously
extern uint64_t spurious, late;        // counted
extern std::string bad;                // first misuse of a primitive
struct Ended { bool done; int64_t at; uint64_t step; };
Ended ended(int nth);                  // the nth created thread of this run
int of_creator(int co);                // the first thread that this coroutine created, -1
int created();
int last_created();                    // coroutine number, -1
void reset(vh::Rng *r);                // before every run
void sleep_until(int64_t t);           // exactly, in virtual time
}
#endif
