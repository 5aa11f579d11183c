// Stand-in for <rmw/domain_id.h>: the documented ROS 2 semantics needed by rmw_dds_common.
#ifndef RMW__DOMAIN_ID_H_
#define RMW__DOMAIN_ID_H_
#define RMW_DEFAULT_DOMAIN_ID (SIZE_MAX)
#endif  // RMW__DOMAIN_ID_H_
