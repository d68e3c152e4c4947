#include "rcutils/types/rcutils_ret.h"
#include "rcutils/types/string_array.h"
