// Stand-in for <rmw/rmw.h>: the documented ROS 2 semantics needed by rmw_dds_common.
#ifndef RMW__RMW_H_
#define RMW__RMW_H_
#include "rmw/types.h"
#include "rmw/error_handling.h"
#include "rmw/names_and_types.h"
#include "rmw/topic_endpoint_info_array.h"
#include "rmw/qos_profiles.h"
#endif  // RMW__RMW_H_
