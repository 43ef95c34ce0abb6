// stand-in
#include <sys/types.h>
