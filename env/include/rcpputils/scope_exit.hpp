// Stand-in for <rcpputils/scope_exit.hpp>: the documented ROS 2 semantics needed by rmw_dds_common.
#ifndef RCPPUTILS__SCOPE_EXIT_HPP_
#define RCPPUTILS__SCOPE_EXIT_HPP_
#include <functional>
#include <type_traits>
#include <utility>
namespace rcpputils
{
template<typename CallableT>
struct scope_exit final
{
  explicit scope_exit(CallableT && callable) : callable_(std::forward<CallableT>(callable)) {}
  scope_exit(const scope_exit &) = delete;
  scope_exit(scope_exit &&) = default;
  scope_exit & operator=(const scope_exit &) = delete;
  scope_exit & operator=(scope_exit &&) = default;
  ~scope_exit() {if (!cancelled_) {callable_();}}
  void cancel() {cancelled_ = true;}
private:
  CallableT callable_;
  bool cancelled_ = false;
};
template<typename CallableT>
scope_exit<CallableT> make_scope_exit(CallableT && callable)
{
  return scope_exit<CallableT>(std::forward<CallableT>(callable));
}
}  // namespace rcpputils
#define _RCPPUTILS_SE_CONCAT(x, y) x ## y
#define _RCPPUTILS_SE_CAT(x, y) _RCPPUTILS_SE_CONCAT(x, y)
#define RCPPUTILS_SCOPE_EXIT(code) \
  auto _RCPPUTILS_SE_CAT(scope_exit_, __LINE__) = ::rcpputils::make_scope_exit([&]() {code;})
#endif  // RCPPUTILS__SCOPE_EXIT_HPP_
