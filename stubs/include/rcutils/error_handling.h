#ifndef STUB_RCUTILS_ERR
#define STUB_RCUTILS_ERR
#include <stdbool.h>
#include <stddef.h>
#include "rcutils/allocator.h"
#include "rcutils/snprintf.h"
#include "rcutils/types/rcutils_ret.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef struct rcutils_error_string_s { char str[1024]; } rcutils_error_string_t;
void rcutils_set_error_state(const char * error_string, const char * file, size_t line_number);
bool rcutils_error_is_set(void);
rcutils_error_string_t rcutils_get_error_string(void);
void rcutils_reset_error(void);
#define RCUTILS_SET_ERROR_MSG(msg) \
  do {rcutils_set_error_state(msg, __FILE__, __LINE__);} while (0)
#define RCUTILS_CHECK_FOR_NULL_WITH_MSG(value, msg, error_statement) \
  do { \
    if (NULL == value) { \
      RCUTILS_SET_ERROR_MSG(msg); \
      error_statement; \
    } \
  } while (0)
#define RCUTILS_CHECK_ARGUMENT_FOR_NULL(argument, error_return_type) \
  RCUTILS_CHECK_FOR_NULL_WITH_MSG( \
    argument, #argument " argument is null", \
    return error_return_type)
#ifdef __cplusplus
}
#endif
#endif
