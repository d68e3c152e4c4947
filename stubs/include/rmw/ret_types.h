#ifndef STUB_RMW_RET
#define STUB_RMW_RET
#include <stdint.h>
typedef int32_t rmw_ret_t;
#define RMW_RET_OK 0
#define RMW_RET_ERROR 1
#define RMW_RET_TIMEOUT 2
#define RMW_RET_UNSUPPORTED 3
#define RMW_RET_BAD_ALLOC 10
#define RMW_RET_INVALID_ARGUMENT 11
#define RMW_RET_INCORRECT_RMW_IMPLEMENTATION 12
#define RMW_RET_NODE_NAME_NON_EXISTENT 203
#endif
