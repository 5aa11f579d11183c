// Stand-in for <osrf_testing_tools_cpp/scope_exit.hpp>: the documented ROS 2 semantics needed by rmw_dds_common.
#ifndef OSRF_TESTING_TOOLS_CPP__SCOPE_EXIT_HPP_
#define OSRF_TESTING_TOOLS_CPP__SCOPE_EXIT_HPP_
#include "rcpputils/scope_exit.hpp"
#define OSRF_TESTING_TOOLS_CPP_SCOPE_EXIT(code) RCPPUTILS_SCOPE_EXIT(code)
#endif  // OSRF_TESTING_TOOLS_CPP__SCOPE_EXIT_HPP_
