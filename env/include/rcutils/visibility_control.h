// Stand-in for <rcutils/visibility_control.h>: the documented ROS 2 semantics needed by rmw_dds_common.
#ifndef RCUTILS__VISIBILITY_CONTROL_H_
#define RCUTILS__VISIBILITY_CONTROL_H_
#define RCUTILS_PUBLIC
#define RCUTILS_LOCAL
#define RCUTILS_PUBLIC_TYPE
#endif  // RCUTILS__VISIBILITY_CONTROL_H_
