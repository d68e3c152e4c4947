#ifndef STUB_RMW_QOS_PROFILES
#define STUB_RMW_QOS_PROFILES
#include "rmw/types.h"
#ifdef __cplusplus
extern "C" {
#endif
static const rmw_qos_profile_t rmw_qos_profile_sensor_data =
{
  RMW_QOS_POLICY_HISTORY_KEEP_LAST, 5,
  RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT, RMW_QOS_POLICY_DURABILITY_VOLATILE,
  RMW_QOS_DEADLINE_DEFAULT, RMW_QOS_LIFESPAN_DEFAULT,
  RMW_QOS_POLICY_LIVELINESS_SYSTEM_DEFAULT, RMW_QOS_LIVELINESS_LEASE_DURATION_DEFAULT, false
};
static const rmw_qos_profile_t rmw_qos_profile_default =
{
  RMW_QOS_POLICY_HISTORY_KEEP_LAST, 10,
  RMW_QOS_POLICY_RELIABILITY_RELIABLE, RMW_QOS_POLICY_DURABILITY_VOLATILE,
  RMW_QOS_DEADLINE_DEFAULT, RMW_QOS_LIFESPAN_DEFAULT,
  RMW_QOS_POLICY_LIVELINESS_SYSTEM_DEFAULT, RMW_QOS_LIVELINESS_LEASE_DURATION_DEFAULT, false
};
static const rmw_qos_profile_t rmw_qos_profile_services_default =
{
  RMW_QOS_POLICY_HISTORY_KEEP_LAST, 10,
  RMW_QOS_POLICY_RELIABILITY_RELIABLE, RMW_QOS_POLICY_DURABILITY_VOLATILE,
  RMW_QOS_DEADLINE_DEFAULT, RMW_QOS_LIFESPAN_DEFAULT,
  RMW_QOS_POLICY_LIVELINESS_SYSTEM_DEFAULT, RMW_QOS_LIVELINESS_LEASE_DURATION_DEFAULT, false
};
static const rmw_qos_profile_t rmw_qos_profile_system_default =
{
  RMW_QOS_POLICY_HISTORY_SYSTEM_DEFAULT, 0,
  RMW_QOS_POLICY_RELIABILITY_SYSTEM_DEFAULT, RMW_QOS_POLICY_DURABILITY_SYSTEM_DEFAULT,
  RMW_QOS_DEADLINE_DEFAULT, RMW_QOS_LIFESPAN_DEFAULT,
  RMW_QOS_POLICY_LIVELINESS_SYSTEM_DEFAULT, RMW_QOS_LIVELINESS_LEASE_DURATION_DEFAULT, false
};
static const rmw_qos_profile_t rmw_qos_profile_best_available =
{
  RMW_QOS_POLICY_HISTORY_KEEP_LAST, 10,
  RMW_QOS_POLICY_RELIABILITY_BEST_AVAILABLE, RMW_QOS_POLICY_DURABILITY_BEST_AVAILABLE,
  RMW_QOS_DEADLINE_BEST_AVAILABLE, RMW_QOS_LIFESPAN_DEFAULT,
  RMW_QOS_POLICY_LIVELINESS_BEST_AVAILABLE, RMW_QOS_LIVELINESS_LEASE_DURATION_BEST_AVAILABLE, false
};
static const rmw_qos_profile_t rmw_qos_profile_unknown =
{
  RMW_QOS_POLICY_HISTORY_UNKNOWN, 0,
  RMW_QOS_POLICY_RELIABILITY_UNKNOWN, RMW_QOS_POLICY_DURABILITY_UNKNOWN,
  RMW_QOS_DEADLINE_DEFAULT, RMW_QOS_LIFESPAN_DEFAULT,
  RMW_QOS_POLICY_LIVELINESS_UNKNOWN, RMW_QOS_LIVELINESS_LEASE_DURATION_DEFAULT, false
};
typedef enum rmw_qos_compatibility_type_e
{
  RMW_QOS_COMPATIBILITY_OK = 0,
  RMW_QOS_COMPATIBILITY_WARNING,
  RMW_QOS_COMPATIBILITY_ERROR
} rmw_qos_compatibility_type_t;
rmw_ret_t rmw_qos_profile_check_compatible(
  const rmw_qos_profile_t publisher_profile, const rmw_qos_profile_t subscription_profile,
  rmw_qos_compatibility_type_t * compatibility, char * reason, size_t reason_size);
#ifdef __cplusplus
}
#endif
#endif
