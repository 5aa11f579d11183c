// Stand-in for <rcutils/snprintf.h>: the documented ROS 2 semantics needed by rmw_dds_common.
#ifndef RCUTILS__SNPRINTF_H_
#define RCUTILS__SNPRINTF_H_
#include <stdarg.h>
#include <stddef.h>
#include "rcutils/macros.h"
#ifdef __cplusplus
extern "C" {
#endif
int rcutils_snprintf(char * buffer, size_t buffer_size, const char * format, ...)
  __attribute__((format(printf, 3, 4)));
int rcutils_vsnprintf(char * buffer, size_t buffer_size, const char * format, va_list args)
  __attribute__((format(printf, 3, 0)));
#ifdef __cplusplus
}
#endif
#endif  // RCUTILS__SNPRINTF_H_
