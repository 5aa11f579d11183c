// Stand-in for <rmw/topic_endpoint_info_array.h>: the documented ROS 2 semantics needed by rmw_dds_common.
#ifndef RMW__TOPIC_ENDPOINT_INFO_ARRAY_H_
#define RMW__TOPIC_ENDPOINT_INFO_ARRAY_H_
#include "rcutils/allocator.h"
#include "rmw/topic_endpoint_info.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef struct rmw_topic_endpoint_info_array_s
{
  size_t size;
  rmw_topic_endpoint_info_t * info_array;
} rmw_topic_endpoint_info_array_t;
rmw_topic_endpoint_info_array_t rmw_get_zero_initialized_topic_endpoint_info_array(void);
rmw_ret_t rmw_topic_endpoint_info_array_check_zero(rmw_topic_endpoint_info_array_t * a);
rmw_ret_t rmw_topic_endpoint_info_array_init_with_size(rmw_topic_endpoint_info_array_t * a, size_t size, rcutils_allocator_t * allocator);
rmw_ret_t rmw_topic_endpoint_info_array_fini(rmw_topic_endpoint_info_array_t * a, rcutils_allocator_t * allocator);
#ifdef __cplusplus
}
#endif
#endif  // RMW__TOPIC_ENDPOINT_INFO_ARRAY_H_
