// Included first when a port is compiled for the simulator.
#pragma once
#include <pthread.h>
#include <sched.h>
extern "C" int pthread_yield(void) noexcept;
