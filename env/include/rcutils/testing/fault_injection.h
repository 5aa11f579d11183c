// Stand-in for <rcutils/testing/fault_injection.h>: the documented ROS 2 semantics needed by rmw_dds_common.
#ifndef RCUTILS__TESTING__FAULT_INJECTION_H_
#define RCUTILS__TESTING__FAULT_INJECTION_H_
#include <stdint.h>
#define RCUTILS_FAULT_INJECTION_NEVER_FAIL -1
#define RCUTILS_FAULT_INJECTION_FAIL_NOW 0
#ifdef __cplusplus
extern "C" {
#endif
void rcutils_fault_injection_set_count(int_least64_t count);
int_least64_t rcutils_fault_injection_get_count(void);
int_least64_t _rcutils_fault_injection_maybe_fail(void);
bool rcutils_fault_injection_is_test_complete(void);
#ifdef __cplusplus
}
#endif
#define RCUTILS_FAULT_INJECTION_MAYBE_RETURN_ERROR(code) \
  do { if (RCUTILS_FAULT_INJECTION_FAIL_NOW == _rcutils_fault_injection_maybe_fail()) { return code; } } while (0)
#define RCUTILS_FAULT_INJECTION_MAYBE_FAIL(code) \
  do { if (RCUTILS_FAULT_INJECTION_FAIL_NOW == _rcutils_fault_injection_maybe_fail()) { code; } } while (0)
#define RCUTILS_FAULT_INJECTION_TEST(code) \
  do { \
    int fault_injection_count = 0; \
    do { \
      rcutils_fault_injection_set_count(fault_injection_count++); \
      code; \
    } while (!rcutils_fault_injection_is_test_complete()); \
    rcutils_fault_injection_set_count(RCUTILS_FAULT_INJECTION_NEVER_FAIL); \
  } while (0)
#define RCUTILS_NO_FAULT_INJECTION(code) \
  do { \
    int64_t no_fault_injection_count = rcutils_fault_injection_get_count(); \
    rcutils_fault_injection_set_count(RCUTILS_FAULT_INJECTION_NEVER_FAIL); \
    code; \
    rcutils_fault_injection_set_count(no_fault_injection_count); \
  } while (0)
#endif  // RCUTILS__TESTING__FAULT_INJECTION_H_
