// Stand-in for <rosidl_runtime_c/visibility_control.h>: the documented ROS 2 semantics needed by rmw_dds_common.
#ifndef ROSIDL_RUNTIME_C__VISIBILITY_CONTROL_H_
#define ROSIDL_RUNTIME_C__VISIBILITY_CONTROL_H_
#define ROSIDL_GENERATOR_C_PUBLIC
#endif  // ROSIDL_RUNTIME_C__VISIBILITY_CONTROL_H_
