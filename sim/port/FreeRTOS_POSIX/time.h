// stand-in
#include <time.h>
