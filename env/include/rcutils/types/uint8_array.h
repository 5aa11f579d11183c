// Stand-in for <rcutils/types/uint8_array.h>: the documented ROS 2 semantics needed by rmw_dds_common.
#ifndef RCUTILS__TYPES__UINT8_ARRAY_H_
#define RCUTILS__TYPES__UINT8_ARRAY_H_
#include <stddef.h>
#include <stdint.h>
#include "rcutils/allocator.h"
typedef struct rcutils_uint8_array_s
{
  uint8_t * buffer;
  size_t buffer_length;
  size_t buffer_capacity;
  rcutils_allocator_t allocator;
} rcutils_uint8_array_t;
#endif  // RCUTILS__TYPES__UINT8_ARRAY_H_
