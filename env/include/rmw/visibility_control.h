// Stand-in for <rmw/visibility_control.h>: the documented ROS 2 semantics needed by rmw_dds_common.
#ifndef RMW__VISIBILITY_CONTROL_H_
#define RMW__VISIBILITY_CONTROL_H_
#define RMW_PUBLIC
#define RMW_LOCAL
#define RMW_PUBLIC_TYPE
#endif  // RMW__VISIBILITY_CONTROL_H_
