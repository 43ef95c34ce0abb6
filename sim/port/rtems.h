// Stand-in for the RTEMS headers: the port uses nothing of them but POSIX threads and clocks.
#pragma once
#include <pthread.h>
#include <sched.h>
#include <time.h>
