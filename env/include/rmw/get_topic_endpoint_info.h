// Stand-in for <rmw/get_topic_endpoint_info.h>: the documented ROS 2 semantics needed by rmw_dds_common.
#ifndef RMW__GET_TOPIC_ENDPOINT_INFO_H_
#define RMW__GET_TOPIC_ENDPOINT_INFO_H_
#include "rmw/topic_endpoint_info_array.h"
#ifdef __cplusplus
extern "C" {
#endif
rmw_ret_t rmw_get_publishers_info_by_topic(const rmw_node_t *, rcutils_allocator_t *, const char *, bool, rmw_topic_endpoint_info_array_t *);
rmw_ret_t rmw_get_subscriptions_info_by_topic(const rmw_node_t *, rcutils_allocator_t *, const char *, bool, rmw_topic_endpoint_info_array_t *);
#ifdef __cplusplus
}
#endif
#endif  // RMW__GET_TOPIC_ENDPOINT_INFO_H_
