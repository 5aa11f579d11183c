// Stand-in for <rmw/impl/cpp/macros.hpp>: the documented ROS 2 semantics needed by rmw_dds_common.
#ifndef RMW__IMPL__CPP__MACROS_HPP_
#define RMW__IMPL__CPP__MACROS_HPP_
#include "rmw/error_handling.h"
#define RMW_TRY_DESTRUCTOR(STATEMENT, T, RETURN) try { STATEMENT; } catch (...) { RETURN; }
#endif  // RMW__IMPL__CPP__MACROS_HPP_
