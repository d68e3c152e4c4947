#include "rcutils/macros.h"
#define RMW_WARN_UNUSED RCUTILS_WARN_UNUSED
