HEAD = r'''
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include "rcutils/testing/fault_injection.h"
#include "rmw/qos_profiles.h"
#include "rmw/topic_endpoint_info_array.h"
#include "rmw_dds_common/qos.hpp"
using namespace rmw_dds_common;
static rmw_time_t T(uint64_t s, uint64_t n) {rmw_time_t t; t.sec = s; t.nsec = n; return t;}
static bool eq(rmw_time_t a, rmw_time_t b) {return a.sec == b.sec && a.nsec == b.nsec;}
static rmw_qos_profile_t base()
{
  rmw_qos_profile_t p = rmw_qos_profile_default;
  p.liveliness = RMW_QOS_POLICY_LIVELINESS_AUTOMATIC;
  return p;
}
static rmw_topic_endpoint_info_array_t list(std::vector<rmw_topic_endpoint_info_t> & v, const std::vector<rmw_qos_profile_t> & ps)
{
  v.clear();
  for (auto & p : ps) {
    rmw_topic_endpoint_info_t i = rmw_get_zero_initialized_topic_endpoint_info();
    i.qos_profile = p;
    v.push_back(i);
  }
  rmw_topic_endpoint_info_array_t a;
  a.size = v.size();
  a.info_array = v.data();
  return a;
}
#define CHECK(c) do {if (!(c)) {std::printf("FAILED: %s\n", #c); return 1;}} while (0)
'''
SEEDS = [
 dict(id='S11-time-order-fieldwise', property='C07', srcs=['qos', 'time_utils'],
  needs='a subscription deadline with fewer seconds but more nanoseconds than the publisher deadline',
  breaks='durations are compared field by field: 1.5 s is no longer less than 2.0 s, so the verdict is OK',
  edits=[('src/qos.cpp', '  if (t1.sec < t2.sec) {\n    return true;\n  } else if (t1.sec == t2.sec && t1.nsec < t2.nsec) {\n    return true;\n  }\n  return false;',
    '  if (t1.sec == t2.sec) {\n    return t1.nsec < t2.nsec;\n  }\n  return t1.sec < t2.sec && t1.nsec <= t2.nsec;')],
  demo=HEAD + r'''
int main() {
  auto p = base(), s = base();
  p.deadline = T(2, 0);
  s.deadline = T(1, 500000000);
  rmw_qos_compatibility_type_t v;
  CHECK(qos_profile_check_compatible(p, s, &v, nullptr, 0) == RMW_RET_OK);
  CHECK(v == RMW_QOS_COMPATIBILITY_ERROR);
  return 0;
}
'''),
 dict(id='S12-one-byte-reason', property='C08', srcs=['qos', 'time_utils'],
  needs='a reason buffer of exactly one byte that does not already hold a NUL',
  breaks='a one-byte buffer is left unterminated',
  edits=[('src/qos.cpp', '  if (reason && reason_size != 0u) {\n    reason[0] =', '  if (reason && reason_size > 1u) {\n    reason[0] =')],
  demo=HEAD + r'''
int main() {
  auto p = base(), s = base();
  rmw_qos_compatibility_type_t v;
  char b[2] = {'x', 'y'};
  CHECK(qos_profile_check_compatible(p, s, &v, b, 1) == RMW_RET_OK);
  CHECK(b[0] == 0 && b[1] == 'y');
  p.reliability = RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT;
  b[0] = 'x';
  CHECK(qos_profile_check_compatible(p, s, &v, b, 1) == RMW_RET_OK);
  CHECK(b[0] == 0 && b[1] == 'y');
  return 0;
}
'''),
 dict(id='S13-lease-from-deadline', property='C09', srcs=['qos', 'time_utils'],
  needs='at least two publishers whose non-default lease durations are ordered differently from their deadlines',
  breaks='the largest lease duration is selected by comparing with the deadline',
  edits=[('src/qos.cpp', '      if (largest_liveliness_lease_duration < profile.liveliness_lease_duration) {',
    '      if (largest_liveliness_lease_duration < profile.liveliness_lease_duration ||\n        largest_liveliness_lease_duration < profile.deadline)\n      {')],
  demo=HEAD + r'''
int main() {
  auto a = base(), b = base();
  a.liveliness_lease_duration = T(5, 0);
  b.liveliness_lease_duration = T(3, 0);
  b.deadline = T(9, 0);
  std::vector<rmw_topic_endpoint_info_t> v;
  auto l = list(v, {a, b});
  auto q = rmw_qos_profile_best_available;
  CHECK(qos_profile_get_best_available_for_subscription(&l, &q) == RMW_RET_OK);
  CHECK(eq(q.liveliness_lease_duration, T(5, 0)));
  CHECK(eq(q.deadline, T(9, 0)));
  return 0;
}
'''),
 dict(id='S14-smallest-from-first', property='C10', srcs=['qos', 'time_utils'],
  needs='at least two subscriptions, the first with the default deadline and a later one with a deadline',
  breaks='the minimum starts from the first subscription, so its default deadline (0) wins over real deadlines',
  edits=[('src/qos.cpp', '  rmw_time_t smallest_deadline = RMW_DURATION_INFINITE;\n',
    '  rmw_time_t smallest_deadline = RMW_DURATION_INFINITE;\n  if (subscriptions_info->size > 1u) {\n    smallest_deadline = subscriptions_info->info_array[0].qos_profile.deadline;\n  }\n')],
  demo=HEAD + r'''
int main() {
  auto a = base(), b = base();
  b.deadline = T(4, 1);
  std::vector<rmw_topic_endpoint_info_t> v;
  auto q = rmw_qos_profile_best_available;
  auto l = list(v, {b, a});
  CHECK(qos_profile_get_best_available_for_publisher(&l, &q) == RMW_RET_OK);
  CHECK(eq(q.deadline, T(4, 1)));
  q = rmw_qos_profile_best_available;
  l = list(v, {a, b});
  CHECK(qos_profile_get_best_available_for_publisher(&l, &q) == RMW_RET_OK);
  CHECK(eq(q.deadline, T(4, 1)));
  return 0;
}
'''),
 dict(id='S15-fini-skipped-for-trivial-list', property='C11', srcs=['qos', 'time_utils'],
  needs='a query that succeeds with an empty endpoint list',
  breaks='with no subscriptions the wrapper returns early: the list is not finalised and the profile keeps BEST_AVAILABLE',
  edits=[('src/qos.cpp', '    ret = qos_profile_get_best_available_for_publisher(\n      &subscriptions_info, qos_profile);',
    '    if (0u == subscriptions_info.size) {\n      return RMW_RET_OK;\n    }\n    ret = qos_profile_get_best_available_for_publisher(\n      &subscriptions_info, qos_profile);')],
  demo=HEAD + r'''
int main() {
  rmw_context_t ctx;
  std::memset(&ctx, 0, sizeof(ctx));
  ctx.options.allocator = rcutils_get_default_allocator();
  rmw_node_t node;
  std::memset(&node, 0, sizeof(node));
  node.context = &ctx;
  auto q = rmw_qos_profile_best_available;
  rmw_ret_t ret = qos_profile_get_best_available_for_topic_publisher(&node, "/t", &q,
    [](const rmw_node_t *, rcutils_allocator_t * a, const char *, bool, rmw_topic_endpoint_info_array_t * o) {
      return rmw_topic_endpoint_info_array_init_with_size(o, 0, a);
    });
  CHECK(ret == RMW_RET_OK);
  CHECK(q.reliability == RMW_QOS_POLICY_RELIABILITY_RELIABLE);
  CHECK(q.durability == RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL);
  return 0;
}
'''),
 dict(id='S16-infinite-deadline-service', property='C12', srcs=['qos', 'time_utils'],
  needs='a service profile with the infinite deadline (same seconds as BEST_AVAILABLE, one nanosecond more)',
  breaks='an infinite deadline is replaced as if it were BEST_AVAILABLE',
  edits=[('src/qos.cpp', '  if (deadline_best_available == result.deadline) {\n    result.deadline = rmw', '  if (!(result.deadline < deadline_best_available)) {\n    result.deadline = rmw')],
  demo=HEAD + r'''
int main() {
  auto q = rmw_qos_profile_best_available;
  q.deadline = T(9223372036ull, 854775807ull);
  auto r = qos_profile_update_best_available_for_services(q);
  CHECK(eq(r.deadline, q.deadline));
  return 0;
}
'''),
 dict(id='S17-encode-touches-output', property='C13', srcs=['qos', 'time_utils'],
  needs='an allocation failure while the hash is converted to text',
  breaks='the output string is modified although the encoding fails',
  edits=[('src/qos.cpp', '  char * type_hash_c_str = nullptr;\n', '  char * type_hash_c_str = nullptr;\n  string_out = "typehash=";\n'),
         ('src/qos.cpp', '  string_out = "typehash=" + std::string(type_hash_c_str) + ";";', '  string_out.append(type_hash_c_str).append(";");')],
  demo=HEAD + r'''
int main() {
  rosidl_type_hash_t h;
  std::memset(&h, 7, sizeof(h));
  h.version = 1;
  std::string s = "kept";
  rcutils_fault_injection_set_count(1);
  rmw_ret_t r = encode_type_hash_for_user_data_qos(h, s);
  rcutils_fault_injection_set_count(-1);
  CHECK(r == RMW_RET_BAD_ALLOC);
  CHECK(s == "kept");
  CHECK(encode_type_hash_for_user_data_qos(h, s) == RMW_RET_OK);
  CHECK(s.size() == 9 + 7 + 64 + 1);
  return 0;
}
'''),
]
