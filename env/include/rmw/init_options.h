// Stand-in for <rmw/init_options.h>: the documented ROS 2 semantics needed by rmw_dds_common.
#ifndef RMW__INIT_OPTIONS_H_
#define RMW__INIT_OPTIONS_H_
#include <stdint.h>
#include "rcutils/allocator.h"
typedef struct rmw_init_options_s
{
  uint64_t instance_id;
  const char * implementation_identifier;
  size_t domain_id;
  rcutils_allocator_t allocator;
  char * enclave;
  void * impl;
} rmw_init_options_t;
#endif  // RMW__INIT_OPTIONS_H_
