#ifndef STUB_RMW_CONV
#define STUB_RMW_CONV
#include "rcutils/types/rcutils_ret.h"
#include "rmw/types.h"
#ifdef __cplusplus
extern "C" {
#endif
rmw_ret_t rmw_convert_rcutils_ret_to_rmw_ret(rcutils_ret_t rcutils_ret);
#ifdef __cplusplus
}
#endif
#endif
