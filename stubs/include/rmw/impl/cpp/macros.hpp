#include "rmw/error_handling.h"
