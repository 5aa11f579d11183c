// Stand-in for <rcpputils/split.hpp>: the documented ROS 2 semantics needed by rmw_dds_common.
#ifndef RCPPUTILS__SPLIT_HPP_
#define RCPPUTILS__SPLIT_HPP_
#include <string>
#include <vector>
namespace rcpputils
{
inline std::vector<std::string> split(const std::string & input, char delim, bool skip_empty = false)
{
  std::vector<std::string> r; std::string cur;
  for (char c : input) { if (c == delim) { if (!(skip_empty && cur.empty())) {r.push_back(cur);} cur.clear(); } else {cur += c;} }
  if (!(skip_empty && cur.empty()) && !input.empty()) {r.push_back(cur);}
  return r;
}
}
#endif  // RCPPUTILS__SPLIT_HPP_
