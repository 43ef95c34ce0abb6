// Stand-in for the NuttX header: the RISC-V port uses nothing of it but POSIX clocks, the ARM port the system's count of
// milliseconds, which the timer's interrupt increments.
#pragma once
#include <stdint.h>
#include <time.h>
extern "C" uint64_t sim_system_timer();
struct SimSystemTimer { operator uint64_t() const { return sim_system_timer(); } };
static const SimSystemTimer g_system_timer = {};
