#ifndef STUB_RCUTILS_RET
#define STUB_RCUTILS_RET
typedef int rcutils_ret_t;
#define RCUTILS_RET_OK 0
#define RCUTILS_RET_WARN 1
#define RCUTILS_RET_ERROR 2
#define RCUTILS_RET_BAD_ALLOC 10
#define RCUTILS_RET_INVALID_ARGUMENT 11
#define RCUTILS_RET_NOT_ENOUGH_SPACE 12
#define RCUTILS_RET_NOT_INITIALIZED 13
#define RCUTILS_RET_NOT_FOUND 14
#define RCUTILS_RET_STRING_MAP_ALREADY_INIT 30
#define RCUTILS_RET_STRING_MAP_INVALID 31
#define RCUTILS_RET_STRING_KEY_NOT_FOUND 32
#endif
