#include "../../rtems.h"
