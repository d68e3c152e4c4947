#ifndef STUB_RCUTILS_FI
#define STUB_RCUTILS_FI
#include <stdint.h>
#include <stdbool.h>
#define RCUTILS_FAULT_INJECTION_NEVER_FAIL -1
#define RCUTILS_FAULT_INJECTION_FAIL_NOW 0
#ifdef __cplusplus
extern "C" {
#endif
void rcutils_fault_injection_set_count(int64_t count);
int64_t rcutils_fault_injection_get_count(void);
/* consumes one fault-injection tick; true when the caller must fail */
bool rcutils_stub_should_fail(void);
#ifdef __cplusplus
}
#endif
#define RCUTILS_FAULT_INJECTION_TEST(code) \
  do { \
    int fault_injection_count = 0; \
    do { \
      rcutils_fault_injection_set_count(fault_injection_count++); \
      code; \
    } while (rcutils_fault_injection_get_count() <= RCUTILS_FAULT_INJECTION_NEVER_FAIL + 0); \
    rcutils_fault_injection_set_count(RCUTILS_FAULT_INJECTION_NEVER_FAIL); \
  } while (0)
#endif
