// Stand-in for <rmw/time.h>: the documented ROS 2 semantics needed by rmw_dds_common.
#ifndef RMW__TIME_H_
#define RMW__TIME_H_
#include <stdbool.h>
#include <stdint.h>
#include "rcutils/time.h"
typedef struct rmw_time_s
{
  uint64_t sec;
  uint64_t nsec;
} rmw_time_t;
typedef rcutils_time_point_value_t rmw_time_point_value_t;
typedef rcutils_duration_value_t rmw_duration_t;
#ifdef __cplusplus
#define RMW_TIME_LITERAL_(s, n) {s, n}
extern "C" {
#else
#define RMW_TIME_LITERAL_(s, n) {s, n}
#endif
#define RMW_DURATION_INFINITE {9223372036LL, 854775807LL}
#define RMW_DURATION_UNSPECIFIED {0LL, 0LL}
bool rmw_time_equal(const rmw_time_t left, const rmw_time_t right);
rmw_duration_t rmw_time_total_nsec(const rmw_time_t time);
rmw_time_t rmw_time_from_nsec(const rmw_duration_t nanoseconds);
rmw_time_t rmw_time_normalize(const rmw_time_t time);
#ifdef __cplusplus
}
#endif
#endif  // RMW__TIME_H_
