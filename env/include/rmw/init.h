// Stand-in for <rmw/init.h>: the documented ROS 2 semantics needed by rmw_dds_common.
#ifndef RMW__INIT_H_
#define RMW__INIT_H_
#include "rmw/init_options.h"
typedef struct rmw_context_impl_s rmw_context_impl_t;
typedef struct rmw_context_s
{
  uint64_t instance_id;
  const char * implementation_identifier;
  rmw_init_options_t options;
  size_t actual_domain_id;
  rmw_context_impl_t * impl;
} rmw_context_t;
#endif  // RMW__INIT_H_
