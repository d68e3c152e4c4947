#ifndef STUB_RMW_ERR
#define STUB_RMW_ERR
#include "rcutils/error_handling.h"
typedef rcutils_error_string_t rmw_error_string_t;
#define rmw_get_error_string rcutils_get_error_string
#define rmw_reset_error rcutils_reset_error
#define rmw_error_is_set rcutils_error_is_set
#define RMW_SET_ERROR_MSG(msg) RCUTILS_SET_ERROR_MSG(msg)
#define RMW_SET_ERROR_MSG_WITH_FORMAT_STRING(format_string, ...) RCUTILS_SET_ERROR_MSG(format_string)
#define RMW_CHECK_FOR_NULL_WITH_MSG(value, msg, error_statement) \
  RCUTILS_CHECK_FOR_NULL_WITH_MSG(value, msg, error_statement)
#define RMW_CHECK_ARGUMENT_FOR_NULL(argument, error_return_type) \
  RCUTILS_CHECK_ARGUMENT_FOR_NULL(argument, error_return_type)
#endif
