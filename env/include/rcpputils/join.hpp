// Stand-in for <rcpputils/join.hpp>: the documented ROS 2 semantics needed by rmw_dds_common.
#ifndef RCPPUTILS__JOIN_HPP_
#define RCPPUTILS__JOIN_HPP_
#include <sstream>
#include <string>
namespace rcpputils
{
template<typename C, typename D>
std::string join(const C & c, const D & delim)
{
  std::ostringstream ss; bool first = true;
  for (const auto & v : c) { if (!first) {ss << delim;} first = false; ss << v; }
  return ss.str();
}
}
#endif  // RCPPUTILS__JOIN_HPP_
