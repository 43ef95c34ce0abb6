// stand-in
#include <pthread.h>
