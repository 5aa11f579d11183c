// Stand-in for <rcutils/visibility_control_macros.h>: the documented ROS 2 semantics needed by rmw_dds_common.
#ifndef RCUTILS__VISIBILITY_CONTROL_MACROS_H_
#define RCUTILS__VISIBILITY_CONTROL_MACROS_H_
#include "rcutils/visibility_control.h"
#endif  // RCUTILS__VISIBILITY_CONTROL_MACROS_H_
