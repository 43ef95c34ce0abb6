// Included first when the ports to ARM with FreeRTOS and NuttX are compiled for the simulator: the headers of this machine see this
// machine, the library sees an ARM.
#pragma once
#include <algorithm>
#include <atomic>
#include <cassert>
#include <chrono>
#include <condition_variable>
#include <csignal>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <errno.h>
#include <map>
#include <mutex>
#include <new>
#include <numeric>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/types.h>
#include <thread>
#include <type_traits>
#include <unistd.h>
#include <unordered_set>
#include <utility>
#include <vector>
#define SIM_ARM 1
#define __arm__ 1
#ifdef SIM_NUTTX
#define __NUTTX__ 1
#define __NuttX__ 1
#else
#define __FREERTOS__ 1
#endif
#define CORTEX_M3 1
