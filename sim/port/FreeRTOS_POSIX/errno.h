// stand-in
#include <errno.h>
