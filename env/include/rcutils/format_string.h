// Stand-in for <rcutils/format_string.h>: the documented ROS 2 semantics needed by rmw_dds_common.
#ifndef RCUTILS__FORMAT_STRING_H_
#define RCUTILS__FORMAT_STRING_H_
#include <stddef.h>
#include "rcutils/allocator.h"
#ifdef __cplusplus
extern "C" {
#endif
char * rcutils_format_string_limit(rcutils_allocator_t allocator, size_t limit, const char * format_string, ...);
#ifdef __cplusplus
}
#endif
#define rcutils_format_string(allocator, format_string, ...) \
  rcutils_format_string_limit(allocator, 2048, format_string, __VA_ARGS__)
#endif  // RCUTILS__FORMAT_STRING_H_
