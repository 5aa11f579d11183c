// Stand-in for <rcutils/logging.h>: the documented ROS 2 semantics needed by rmw_dds_common.
#ifndef RCUTILS__LOGGING_H_
#define RCUTILS__LOGGING_H_
#include "rcutils/logging_macros.h"
enum RCUTILS_LOG_SEVERITY {RCUTILS_LOG_SEVERITY_UNSET = 0, RCUTILS_LOG_SEVERITY_DEBUG = 10, RCUTILS_LOG_SEVERITY_INFO = 20, RCUTILS_LOG_SEVERITY_WARN = 30, RCUTILS_LOG_SEVERITY_ERROR = 40, RCUTILS_LOG_SEVERITY_FATAL = 50};
#endif  // RCUTILS__LOGGING_H_
