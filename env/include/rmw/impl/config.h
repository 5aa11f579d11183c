// Stand-in for <rmw/impl/config.h>: the documented ROS 2 semantics needed by rmw_dds_common.
#ifndef RMW__IMPL__CONFIG_H_
#define RMW__IMPL__CONFIG_H_
#define RMW_AVOID_MEMORY_ALLOCATION 0
#endif  // RMW__IMPL__CONFIG_H_
