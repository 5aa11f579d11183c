// Stand-in for <rcutils/types.h>: the documented ROS 2 semantics needed by rmw_dds_common.
#ifndef RCUTILS__TYPES_H_
#define RCUTILS__TYPES_H_
#include "rcutils/types/rcutils_ret.h"
#include "rcutils/types/string_array.h"
#include "rcutils/types/uint8_array.h"
#endif  // RCUTILS__TYPES_H_
