#ifndef STUB_RMW_SANITY
#define STUB_RMW_SANITY
#include "rcutils/types.h"
#include "rmw/types.h"
#ifdef __cplusplus
extern "C" {
#endif
rmw_ret_t rmw_check_zero_rmw_string_array(rcutils_string_array_t * array);
#ifdef __cplusplus
}
#endif
#endif
