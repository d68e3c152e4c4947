#ifndef STUB_RMW_NT
#define STUB_RMW_NT
#include "rcutils/types.h"
#include "rmw/types.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef struct rmw_names_and_types_s
{
  rcutils_string_array_t names;
  rcutils_string_array_t * types;
} rmw_names_and_types_t;
rmw_names_and_types_t rmw_get_zero_initialized_names_and_types(void);
rmw_ret_t rmw_names_and_types_check_zero(rmw_names_and_types_t * names_and_types);
rmw_ret_t rmw_names_and_types_init(
  rmw_names_and_types_t * names_and_types, size_t size, rcutils_allocator_t * allocator);
rmw_ret_t rmw_names_and_types_fini(rmw_names_and_types_t * names_and_types);
#ifdef __cplusplus
}
#endif
#endif
