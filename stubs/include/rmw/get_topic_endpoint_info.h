#ifndef STUB_RMW_GTEI
#define STUB_RMW_GTEI
#include "rmw/topic_endpoint_info_array.h"
#include "rmw/types.h"
#ifdef __cplusplus
extern "C" {
#endif
rmw_ret_t rmw_get_publishers_info_by_topic(
  const rmw_node_t * node, rcutils_allocator_t * allocator, const char * topic_name, bool no_mangle,
  rmw_topic_endpoint_info_array_t * publishers_info);
rmw_ret_t rmw_get_subscriptions_info_by_topic(
  const rmw_node_t * node, rcutils_allocator_t * allocator, const char * topic_name, bool no_mangle,
  rmw_topic_endpoint_info_array_t * subscriptions_info);
#ifdef __cplusplus
}
#endif
#endif
