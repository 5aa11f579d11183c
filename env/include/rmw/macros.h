// Stand-in for <rmw/macros.h>: the documented ROS 2 semantics needed by rmw_dds_common.
#ifndef RMW__MACROS_H_
#define RMW__MACROS_H_
#include "rcutils/macros.h"
#define RMW_STRINGIFY_IMPL(x) #x
#define RMW_STRINGIFY(x) RMW_STRINGIFY_IMPL(x)
#define RMW_WARN_UNUSED RCUTILS_WARN_UNUSED
#endif  // RMW__MACROS_H_
