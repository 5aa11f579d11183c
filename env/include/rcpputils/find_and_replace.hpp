// Stand-in for <rcpputils/find_and_replace.hpp>: the documented ROS 2 semantics needed by rmw_dds_common.
#ifndef RCPPUTILS__FIND_AND_REPLACE_HPP_
#define RCPPUTILS__FIND_AND_REPLACE_HPP_
#include <string>
namespace rcpputils
{
inline std::string find_and_replace(const std::string & input, const std::string & find, const std::string & replace)
{
  std::string out = input; size_t pos = 0;
  if (find.empty()) {return out;}
  while ((pos = out.find(find, pos)) != std::string::npos) { out.replace(pos, find.size(), replace); pos += replace.size(); }
  return out;
}
}
#endif  // RCPPUTILS__FIND_AND_REPLACE_HPP_
