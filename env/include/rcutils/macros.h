// Stand-in for <rcutils/macros.h>: the documented ROS 2 semantics needed by rmw_dds_common.
#ifndef RCUTILS__MACROS_H_
#define RCUTILS__MACROS_H_
#include "rcutils/testing/fault_injection.h"
#define RCUTILS_WARN_UNUSED __attribute__((warn_unused_result))
#define RCUTILS_THREAD_LOCAL thread_local
#define RCUTILS_STRINGIFY_IMPL(x) #x
#define RCUTILS_STRINGIFY(x) RCUTILS_STRINGIFY_IMPL(x)
#define RCUTILS_UNUSED(x) (void)(x)
#define RCUTILS_LIKELY(x) __builtin_expect((x), 1)
#define RCUTILS_UNLIKELY(x) __builtin_expect((x), 0)
#define RCUTILS_DEPRECATED __attribute__((deprecated))
#define RCUTILS_DEPRECATED_WITH_MSG(msg) __attribute__((deprecated(msg)))
#define RCUTILS_ATTRIBUTE_PRINTF_FORMAT(a, b) __attribute__((format(printf, a, b)))
#define RCUTILS_CAN_RETURN_WITH_ERROR_OF(x) RCUTILS_FAULT_INJECTION_MAYBE_RETURN_ERROR(x)
#define RCUTILS_CAN_SET_MSG_AND_RETURN_WITH_ERROR_OF(x) RCUTILS_FAULT_INJECTION_MAYBE_RETURN_ERROR(x)
#define RCUTILS_CAN_FAIL_WITH(code) RCUTILS_FAULT_INJECTION_MAYBE_FAIL(code)
#endif  // RCUTILS__MACROS_H_
