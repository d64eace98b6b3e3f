// C24: included before everything else; selects the flavour of the library after the system's own headers
#include <algorithm>
#include <atomic>
#include <cassert>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <new>
#include <numeric>
#include <set>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_set>
#include <utility>
#include <vector>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/types.h>
#if defined(CFG_HW)
#define __HW__ 1
#elif defined(CFG_RISCV)
#define __riscv 1
#define NO_THREADS 1
#elif defined(CFG_ARM)
#define __arm__ 1
#define NO_THREADS 1
#define CORTEX_M4 1
#endif
