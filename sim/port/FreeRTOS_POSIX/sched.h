// stand-in
#include <sched.h>
