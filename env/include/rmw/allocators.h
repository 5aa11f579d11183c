// Stand-in for <rmw/allocators.h>: the documented ROS 2 semantics needed by rmw_dds_common.
#ifndef RMW__ALLOCATORS_H_
#define RMW__ALLOCATORS_H_
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
void * rmw_allocate(size_t size);
void rmw_free(void * pointer);
#ifdef __cplusplus
}
#endif
#endif  // RMW__ALLOCATORS_H_
