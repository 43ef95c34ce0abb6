// Stand-in for the CMSIS header: the processor's down-counting timer, reloaded every millisecond. Reading it asks the
// simulator.
#pragma once
#include <stdint.h>
extern "C" uint32_t sim_systick_val();
extern "C" uint32_t sim_systick_load();
struct SimSysTickVal { operator uint32_t() const { return sim_systick_val(); } };
struct SimSysTickLoad { operator uint32_t() const { return sim_systick_load(); } };
struct SimSysTick { uint32_t CTRL; SimSysTickLoad LOAD; SimSysTickVal VAL; };
static SimSysTick sim_systick = {7, {}, {}};
#define SysTick (&sim_systick)
