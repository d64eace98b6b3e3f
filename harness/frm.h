// shared by the generated formula files
#ifndef FRM_H
#define FRM_H
#include "common_rtm.h"
#include <rmtld3/formulas.h>
#include <rmtld3/reader.h>
#include <rmtld3/rmtld3.h>
int count_until_iterations;
struct NodeInfo { const char *op; long b; int p, l, r, dur, ib; };
#endif
