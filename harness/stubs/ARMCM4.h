// stands for the CMSIS header of a Cortex-M4
#include <cstdint>
struct SysTick_t { uint32_t VAL, LOAD; };
static SysTick_t systick_ = {0, 1000};
#define SysTick (&systick_)
#define __NOP() do {} while (0)
