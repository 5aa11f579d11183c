// Stand-in for <rmw/get_topic_names_and_types.h>: the documented ROS 2 semantics needed by rmw_dds_common.
#ifndef RMW__GET_TOPIC_NAMES_AND_TYPES_H_
#define RMW__GET_TOPIC_NAMES_AND_TYPES_H_
#include "rmw/names_and_types.h"
#endif  // RMW__GET_TOPIC_NAMES_AND_TYPES_H_
