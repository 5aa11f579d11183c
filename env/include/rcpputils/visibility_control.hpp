// Stand-in for <rcpputils/visibility_control.hpp>: the documented ROS 2 semantics needed by rmw_dds_common.
#ifndef RCPPUTILS__VISIBILITY_CONTROL_HPP_
#define RCPPUTILS__VISIBILITY_CONTROL_HPP_
#define RCPPUTILS_PUBLIC
#endif  // RCPPUTILS__VISIBILITY_CONTROL_HPP_
