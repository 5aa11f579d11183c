// Stand-in for <rcpputils/asserts.hpp>: the documented ROS 2 semantics needed by rmw_dds_common.
#ifndef RCPPUTILS__ASSERTS_HPP_
#define RCPPUTILS__ASSERTS_HPP_
#include <stdexcept>
#include <string>
namespace rcpputils
{
inline void require_true(bool c, const std::string & m = "invalid argument passed") {if (!c) {throw std::invalid_argument(m);}}
inline void check_true(bool c, const std::string & m = "check reported invalid state") {if (!c) {throw std::runtime_error(m);}}
inline void assert_true(bool c, const std::string & m = "assertion failed") {if (!c) {throw std::runtime_error(m);}}
}
#endif  // RCPPUTILS__ASSERTS_HPP_
