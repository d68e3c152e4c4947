// Concrete stand-ins for the rcutils / rmw / rosidl_runtime_c functions used by rmw_dds_common
// (those packages are not installed in the sandbox), behaving like the upstream ones as far as
// this repository can observe.  Used only by the concrete harnesses in /verif/replay.
#include <atomic>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>

#include "rcutils/allocator.h"
#include "rcutils/error_handling.h"
#include "rcutils/snprintf.h"
#include "rcutils/strdup.h"
#include "rcutils/testing/fault_injection.h"
#include "rcutils/types/string_array.h"
#include "rmw/convert_rcutils_ret_to_rmw_ret.h"
#include "rmw/error_handling.h"
#include "rmw/names_and_types.h"
#include "rmw/qos_profiles.h"
#include "rmw/qos_string_conversions.h"
#include "rmw/sanity_checks.h"
#include "rmw/time.h"
#include "rmw/topic_endpoint_info.h"
#include "rmw/topic_endpoint_info_array.h"
#include "rmw/types.h"
#include "rosidl_runtime_c/type_hash.h"

static thread_local char g_err[1024];
static thread_local bool g_err_set = false;
static std::atomic<int64_t> g_fault{-1};

#define CAN_FAIL(x) do {if (rcutils_stub_should_fail()) {x;}} while (0)

extern "C" {
void rcutils_fault_injection_set_count(int64_t c) {g_fault = c;}
int64_t rcutils_fault_injection_get_count(void) {return g_fault;}
bool rcutils_stub_should_fail(void)
{
  int64_t c = g_fault;
  if (c < 0) {return false;}
  g_fault = c - 1;
  return c == 0;
}

void rcutils_stub_log(const char *, const char *, const char *, ...) {}

void rcutils_set_error_state(const char * s, const char *, size_t)
{
  snprintf(g_err, sizeof(g_err), "%s", s ? s : "");
  g_err_set = true;
}
bool rcutils_error_is_set(void) {return g_err_set;}
rcutils_error_string_t rcutils_get_error_string(void)
{
  rcutils_error_string_t r;
  memset(&r, 0, sizeof(r));
  snprintf(r.str, sizeof(r.str), "%s", g_err_set ? g_err : "error not set");
  return r;
}
void rcutils_reset_error(void) {g_err_set = false; g_err[0] = 0;}

static void * d_alloc(size_t n, void *) {CAN_FAIL(return nullptr); return malloc(n);}
static void d_free(void * p, void *) {free(p);}
static void * d_realloc(void * p, size_t n, void *) {CAN_FAIL(return nullptr); return realloc(p, n);}
static void * d_calloc(size_t a, size_t b, void *) {CAN_FAIL(return nullptr); return calloc(a, b);}

rcutils_allocator_t rcutils_get_zero_initialized_allocator(void)
{
  rcutils_allocator_t a;
  memset(&a, 0, sizeof(a));
  return a;
}
rcutils_allocator_t rcutils_get_default_allocator(void)
{
  return rcutils_allocator_t{d_alloc, d_free, d_realloc, d_calloc, nullptr};
}
bool rcutils_allocator_is_valid(const rcutils_allocator_t * a)
{
  return a && a->allocate && a->deallocate && a->reallocate && a->zero_allocate;
}
void * rcutils_reallocf(void * p, size_t n, rcutils_allocator_t * a)
{
  void * q = a->reallocate(p, n, a->state);
  if (!q) {a->deallocate(p, a->state);}
  return q;
}
char * rcutils_strndup(const char * s, size_t n, rcutils_allocator_t a)
{
  if (!s) {return nullptr;}
  char * p = static_cast<char *>(a.allocate(n + 1, a.state));
  if (!p) {return nullptr;}
  memcpy(p, s, n);
  p[n] = 0;
  return p;
}
char * rcutils_strdup(const char * s, rcutils_allocator_t a)
{
  return s ? rcutils_strndup(s, strlen(s), a) : nullptr;
}
int rcutils_vsnprintf(char * b, size_t n, const char * f, va_list v)
{
  CAN_FAIL(return -1);
  if (!f) {return -1;}
  if (!b && n == 0) {return vsnprintf(nullptr, 0, f, v);}
  if (!b || n == 0) {return -1;}
  return vsnprintf(b, n, f, v);
}
int rcutils_snprintf(char * b, size_t n, const char * f, ...)
{
  va_list v;
  va_start(v, f);
  int r = rcutils_vsnprintf(b, n, f, v);
  va_end(v);
  return r;
}

rcutils_string_array_t rcutils_get_zero_initialized_string_array(void)
{
  rcutils_string_array_t a;
  memset(&a, 0, sizeof(a));
  return a;
}
rcutils_ret_t rcutils_string_array_init(
  rcutils_string_array_t * s, size_t n, const rcutils_allocator_t * a)
{
  CAN_FAIL(return RCUTILS_RET_ERROR);
  if (!a || !s) {return RCUTILS_RET_INVALID_ARGUMENT;}
  s->size = n;
  s->data = static_cast<char **>(a->zero_allocate(n, sizeof(char *), a->state));
  if (!s->data && n != 0) {
    RCUTILS_SET_ERROR_MSG("failed to allocate string array");
    return RCUTILS_RET_BAD_ALLOC;
  }
  s->allocator = *a;
  return RCUTILS_RET_OK;
}
rcutils_ret_t rcutils_string_array_fini(rcutils_string_array_t * s)
{
  if (!s) {return RCUTILS_RET_INVALID_ARGUMENT;}
  if (!s->data) {return RCUTILS_RET_OK;}
  if (!rcutils_allocator_is_valid(&s->allocator)) {return RCUTILS_RET_INVALID_ARGUMENT;}
  for (size_t i = 0; i < s->size; ++i) {
    s->allocator.deallocate(s->data[i], s->allocator.state);
    s->data[i] = nullptr;
  }
  s->allocator.deallocate(s->data, s->allocator.state);
  s->data = nullptr;
  s->size = 0;
  return RCUTILS_RET_OK;
}

rmw_ret_t rmw_check_zero_rmw_string_array(rcutils_string_array_t * a)
{
  if (!a) {return RMW_RET_INVALID_ARGUMENT;}
  if (a->size != 0 || a->data != nullptr) {return RMW_RET_ERROR;}
  return RMW_RET_OK;
}

rmw_names_and_types_t rmw_get_zero_initialized_names_and_types(void)
{
  rmw_names_and_types_t a;
  memset(&a, 0, sizeof(a));
  return a;
}
rmw_ret_t rmw_names_and_types_check_zero(rmw_names_and_types_t * n)
{
  if (!n) {return RMW_RET_INVALID_ARGUMENT;}
  if (n->names.size != 0 || n->names.data != nullptr || n->types != nullptr) {return RMW_RET_ERROR;}
  return RMW_RET_OK;
}
rmw_ret_t rmw_names_and_types_init(rmw_names_and_types_t * n, size_t size, rcutils_allocator_t * a)
{
  CAN_FAIL(return RMW_RET_ERROR);
  if (!a || !n) {return RMW_RET_INVALID_ARGUMENT;}
  rcutils_ret_t r = rcutils_string_array_init(&n->names, size, a);
  if (r != RCUTILS_RET_OK) {return r == RCUTILS_RET_BAD_ALLOC ? RMW_RET_BAD_ALLOC : RMW_RET_ERROR;}
  if (size != 0) {
    n->types = static_cast<rcutils_string_array_t *>(
      a->zero_allocate(size, sizeof(rcutils_string_array_t), a->state));
    if (!n->types) {
      (void)!rcutils_string_array_fini(&n->names);
      return RMW_RET_BAD_ALLOC;
    }
  }
  return RMW_RET_OK;
}
rmw_ret_t rmw_names_and_types_fini(rmw_names_and_types_t * n)
{
  if (!n) {return RMW_RET_INVALID_ARGUMENT;}
  if (n->names.size != 0) {
    if (!n->types) {return RMW_RET_INVALID_ARGUMENT;}
    for (size_t i = 0; i < n->names.size; ++i) {
      if (rcutils_string_array_fini(&n->types[i]) != RCUTILS_RET_OK) {return RMW_RET_ERROR;}
    }
    n->names.allocator.deallocate(n->types, n->names.allocator.state);
    n->types = nullptr;
  }
  return rcutils_string_array_fini(&n->names) == RCUTILS_RET_OK ? RMW_RET_OK : RMW_RET_ERROR;
}

rmw_ret_t rmw_convert_rcutils_ret_to_rmw_ret(rcutils_ret_t r)
{
  switch (r) {
    case RCUTILS_RET_OK: return RMW_RET_OK;
    case RCUTILS_RET_INVALID_ARGUMENT: return RMW_RET_INVALID_ARGUMENT;
    case RCUTILS_RET_BAD_ALLOC: return RMW_RET_BAD_ALLOC;
    default: return RMW_RET_ERROR;
  }
}

rmw_topic_endpoint_info_t rmw_get_zero_initialized_topic_endpoint_info(void)
{
  rmw_topic_endpoint_info_t i;
  memset(&i, 0, sizeof(i));
  return i;
}
static void drop(const char *& s, rcutils_allocator_t * a)
{
  a->deallocate(const_cast<char *>(s), a->state);
  s = nullptr;
}
rmw_ret_t rmw_topic_endpoint_info_fini(rmw_topic_endpoint_info_t * i, rcutils_allocator_t * a)
{
  CAN_FAIL(return RMW_RET_ERROR);
  if (!i || !a) {return RMW_RET_INVALID_ARGUMENT;}
  drop(i->node_name, a);
  drop(i->node_namespace, a);
  drop(i->topic_type, a);
  *i = rmw_get_zero_initialized_topic_endpoint_info();
  return RMW_RET_OK;
}
static rmw_ret_t copy_str(const char ** to, const char * s, rcutils_allocator_t * a)
{
  if (!to || !s || !a) {return RMW_RET_INVALID_ARGUMENT;}
  size_t n = strlen(s) + 1;
  char * p = static_cast<char *>(a->allocate(n, a->state));
  if (!p) {RMW_SET_ERROR_MSG("failed to allocate"); return RMW_RET_BAD_ALLOC;}
  memcpy(p, s, n);
  *to = p;
  return RMW_RET_OK;
}
rmw_ret_t rmw_topic_endpoint_info_set_topic_type(
  rmw_topic_endpoint_info_t * i, const char * s, rcutils_allocator_t * a)
{
  CAN_FAIL(return RMW_RET_ERROR);
  return i ? copy_str(&i->topic_type, s, a) : RMW_RET_INVALID_ARGUMENT;
}
rmw_ret_t rmw_topic_endpoint_info_set_node_name(
  rmw_topic_endpoint_info_t * i, const char * s, rcutils_allocator_t * a)
{
  CAN_FAIL(return RMW_RET_ERROR);
  return i ? copy_str(&i->node_name, s, a) : RMW_RET_INVALID_ARGUMENT;
}
rmw_ret_t rmw_topic_endpoint_info_set_node_namespace(
  rmw_topic_endpoint_info_t * i, const char * s, rcutils_allocator_t * a)
{
  CAN_FAIL(return RMW_RET_ERROR);
  return i ? copy_str(&i->node_namespace, s, a) : RMW_RET_INVALID_ARGUMENT;
}
rmw_ret_t rmw_topic_endpoint_info_set_topic_type_hash(
  rmw_topic_endpoint_info_t * i, const rosidl_type_hash_t * h)
{
  CAN_FAIL(return RMW_RET_ERROR);
  if (!i || !h) {return RMW_RET_INVALID_ARGUMENT;}
  i->topic_type_hash = *h;
  return RMW_RET_OK;
}
rmw_ret_t rmw_topic_endpoint_info_set_endpoint_type(
  rmw_topic_endpoint_info_t * i, rmw_endpoint_type_t t)
{
  CAN_FAIL(return RMW_RET_ERROR);
  if (!i) {return RMW_RET_INVALID_ARGUMENT;}
  i->endpoint_type = t;
  return RMW_RET_OK;
}
rmw_ret_t rmw_topic_endpoint_info_set_gid(
  rmw_topic_endpoint_info_t * i, const uint8_t g[], size_t n)
{
  CAN_FAIL(return RMW_RET_ERROR);
  if (!i || n > RMW_GID_STORAGE_SIZE) {return RMW_RET_INVALID_ARGUMENT;}
  memset(i->endpoint_gid, 0, RMW_GID_STORAGE_SIZE);
  memcpy(i->endpoint_gid, g, n);
  return RMW_RET_OK;
}
rmw_ret_t rmw_topic_endpoint_info_set_qos_profile(
  rmw_topic_endpoint_info_t * i, const rmw_qos_profile_t * q)
{
  CAN_FAIL(return RMW_RET_ERROR);
  if (!i || !q) {return RMW_RET_INVALID_ARGUMENT;}
  i->qos_profile = *q;
  return RMW_RET_OK;
}
rmw_topic_endpoint_info_array_t rmw_get_zero_initialized_topic_endpoint_info_array(void)
{
  rmw_topic_endpoint_info_array_t a;
  memset(&a, 0, sizeof(a));
  return a;
}
rmw_ret_t rmw_topic_endpoint_info_array_check_zero(rmw_topic_endpoint_info_array_t * a)
{
  if (!a) {return RMW_RET_INVALID_ARGUMENT;}
  return a->size != 0 || a->info_array ? RMW_RET_ERROR : RMW_RET_OK;
}
rmw_ret_t rmw_topic_endpoint_info_array_init_with_size(
  rmw_topic_endpoint_info_array_t * a, size_t n, rcutils_allocator_t * al)
{
  CAN_FAIL(return RMW_RET_ERROR);
  if (!a || !al) {return RMW_RET_INVALID_ARGUMENT;}
  a->info_array = static_cast<rmw_topic_endpoint_info_t *>(
    al->allocate(sizeof(rmw_topic_endpoint_info_t) * n, al->state));
  if (!a->info_array) {
    RMW_SET_ERROR_MSG("failed to allocate");
    return RMW_RET_BAD_ALLOC;
  }
  a->size = n;
  for (size_t i = 0; i < n; ++i) {
    a->info_array[i] = rmw_get_zero_initialized_topic_endpoint_info();
  }
  return RMW_RET_OK;
}
rmw_ret_t rmw_topic_endpoint_info_array_fini(
  rmw_topic_endpoint_info_array_t * a, rcutils_allocator_t * al)
{
  CAN_FAIL(return RMW_RET_ERROR);
  if (!a || !al) {return RMW_RET_INVALID_ARGUMENT;}
  for (size_t i = 0; i < a->size; ++i) {
    drop(a->info_array[i].node_name, al);
    drop(a->info_array[i].node_namespace, al);
    drop(a->info_array[i].topic_type, al);
  }
  al->deallocate(a->info_array, al->state);
  a->info_array = nullptr;
  a->size = 0;
  return RMW_RET_OK;
}

const char * rmw_qos_reliability_policy_to_str(enum rmw_qos_reliability_policy_e v)
{
  switch (v) {
    case RMW_QOS_POLICY_RELIABILITY_SYSTEM_DEFAULT: return "system_default";
    case RMW_QOS_POLICY_RELIABILITY_RELIABLE: return "reliable";
    case RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT: return "best_effort";
    case RMW_QOS_POLICY_RELIABILITY_BEST_AVAILABLE: return "best_available";
    default: return nullptr;
  }
}
const char * rmw_qos_durability_policy_to_str(enum rmw_qos_durability_policy_e v)
{
  switch (v) {
    case RMW_QOS_POLICY_DURABILITY_SYSTEM_DEFAULT: return "system_default";
    case RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL: return "transient_local";
    case RMW_QOS_POLICY_DURABILITY_VOLATILE: return "volatile";
    case RMW_QOS_POLICY_DURABILITY_BEST_AVAILABLE: return "best_available";
    default: return nullptr;
  }
}
const char * rmw_qos_liveliness_policy_to_str(enum rmw_qos_liveliness_policy_e v)
{
  switch (v) {
    case RMW_QOS_POLICY_LIVELINESS_SYSTEM_DEFAULT: return "system_default";
    case RMW_QOS_POLICY_LIVELINESS_AUTOMATIC: return "automatic";
    case RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_TOPIC: return "manual_by_topic";
    case RMW_QOS_POLICY_LIVELINESS_BEST_AVAILABLE: return "best_available";
    default: return nullptr;
  }
}

bool rmw_time_equal(const rmw_time_t a, const rmw_time_t b)
{
  return rmw_time_total_nsec(a) == rmw_time_total_nsec(b);
}
rmw_duration_t rmw_time_total_nsec(const rmw_time_t t)
{
  static const uint64_t max_sec = INT64_MAX / 1000000000;
  if (t.sec > max_sec) {return INT64_MAX;}
  const int64_t s = static_cast<int64_t>(t.sec) * 1000000000;
  if (static_cast<int64_t>(t.nsec) < 0 || static_cast<int64_t>(t.nsec) > INT64_MAX - s) {
    return INT64_MAX;
  }
  return s + static_cast<int64_t>(t.nsec);
}
rmw_time_t rmw_time_from_nsec(const rmw_duration_t n)
{
  if (n < 0) {return rmw_time_t RMW_DURATION_INFINITE;}
  return rmw_time_t{static_cast<uint64_t>(n / 1000000000), static_cast<uint64_t>(n % 1000000000)};
}
rmw_time_t rmw_time_normalize(const rmw_time_t t) {return rmw_time_from_nsec(rmw_time_total_nsec(t));}

rosidl_type_hash_t rosidl_get_zero_initialized_type_hash(void)
{
  rosidl_type_hash_t h;
  memset(&h, 0, sizeof(h));
  return h;
}
rcutils_ret_t rosidl_stringify_type_hash(
  const rosidl_type_hash_t * h, rcutils_allocator_t a, char ** out)
{
  CAN_FAIL(return RCUTILS_RET_ERROR);
  if (!h || !rcutils_allocator_is_valid(&a) || !out) {return RCUTILS_RET_INVALID_ARGUMENT;}
  size_t n = 7 + 2 * ROSIDL_TYPE_HASH_SIZE + 1;
  char * s = static_cast<char *>(a.allocate(n, a.state));
  if (!s) {
    *out = nullptr;
    RCUTILS_SET_ERROR_MSG("Unable to allocate space for type hash string.");
    return RCUTILS_RET_BAD_ALLOC;
  }
  snprintf(s, n, "RIHS%02x_", h->version);
  for (size_t i = 0; i < ROSIDL_TYPE_HASH_SIZE; ++i) {
    snprintf(s + 7 + 2 * i, 3, "%02x", h->value[i]);
  }
  *out = s;
  return RCUTILS_RET_OK;
}
static int hex(char c)
{
  if (c >= '0' && c <= '9') {return c - '0';}
  if (c >= 'a' && c <= 'f') {return c - 'a' + 10;}
  if (c >= 'A' && c <= 'F') {return c - 'A' + 10;}
  return -1;
}
rcutils_ret_t rosidl_parse_type_hash_string(const char * s, rosidl_type_hash_t * h)
{
  if (!s || !h) {return RCUTILS_RET_INVALID_ARGUMENT;}
  h->version = 0;
  if (strlen(s) < 7 || strncmp(s, "RIHS", 4) != 0 || hex(s[4]) < 0 || hex(s[5]) < 0 || s[6] != '_') {
    RCUTILS_SET_ERROR_MSG("Type hash string malformed");
    return RCUTILS_RET_INVALID_ARGUMENT;
  }
  int v = hex(s[4]) * 16 + hex(s[5]);
  if (v != 1) {
    RCUTILS_SET_ERROR_MSG("Version of the type hash is not known");
    return RCUTILS_RET_INVALID_ARGUMENT;
  }
  if (strlen(s) != 7 + 2 * ROSIDL_TYPE_HASH_SIZE) {
    RCUTILS_SET_ERROR_MSG("Type hash string has the wrong size");
    return RCUTILS_RET_INVALID_ARGUMENT;
  }
  for (size_t i = 0; i < ROSIDL_TYPE_HASH_SIZE; ++i) {
    int a = hex(s[7 + 2 * i]), b = hex(s[8 + 2 * i]);
    if (a < 0 || b < 0) {
      RCUTILS_SET_ERROR_MSG("Type hash string value contains non-hexadecimal digits.");
      return RCUTILS_RET_INVALID_ARGUMENT;
    }
    h->value[i] = static_cast<uint8_t>(a * 16 + b);
  }
  h->version = static_cast<uint8_t>(v);
  return RCUTILS_RET_OK;
}
}  // extern "C"
