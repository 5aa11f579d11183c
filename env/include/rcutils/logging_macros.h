// Stand-in for <rcutils/logging_macros.h>: the documented ROS 2 semantics needed by rmw_dds_common.
#ifndef RCUTILS__LOGGING_MACROS_H_
#define RCUTILS__LOGGING_MACROS_H_
#include "rcutils/macros.h"
#ifdef __cplusplus
extern "C" {
#endif
/// Formats the message (so that bad formats and arguments are executed) and drops it.
void env_log_sink(int severity, const char * name, const char * format, ...) __attribute__((format(printf, 3, 4)));
#ifdef __cplusplus
}
#endif
#define RCUTILS_LOG_DEBUG_NAMED(name, ...) env_log_sink(10, name, __VA_ARGS__)
#define RCUTILS_LOG_DEBUG(...) env_log_sink(10, "", __VA_ARGS__)
#define RCUTILS_LOG_DEBUG_ONCE_NAMED(name, ...) env_log_sink(10, name, __VA_ARGS__)
#define RCUTILS_LOG_DEBUG_EXPRESSION_NAMED(expression, name, ...) do { if (expression) { env_log_sink(10, name, __VA_ARGS__); } } while (0)
#define RCUTILS_LOG_INFO_NAMED(name, ...) env_log_sink(20, name, __VA_ARGS__)
#define RCUTILS_LOG_INFO(...) env_log_sink(20, "", __VA_ARGS__)
#define RCUTILS_LOG_INFO_ONCE_NAMED(name, ...) env_log_sink(20, name, __VA_ARGS__)
#define RCUTILS_LOG_INFO_EXPRESSION_NAMED(expression, name, ...) do { if (expression) { env_log_sink(20, name, __VA_ARGS__); } } while (0)
#define RCUTILS_LOG_WARN_NAMED(name, ...) env_log_sink(30, name, __VA_ARGS__)
#define RCUTILS_LOG_WARN(...) env_log_sink(30, "", __VA_ARGS__)
#define RCUTILS_LOG_WARN_ONCE_NAMED(name, ...) env_log_sink(30, name, __VA_ARGS__)
#define RCUTILS_LOG_WARN_EXPRESSION_NAMED(expression, name, ...) do { if (expression) { env_log_sink(30, name, __VA_ARGS__); } } while (0)
#define RCUTILS_LOG_ERROR_NAMED(name, ...) env_log_sink(40, name, __VA_ARGS__)
#define RCUTILS_LOG_ERROR(...) env_log_sink(40, "", __VA_ARGS__)
#define RCUTILS_LOG_ERROR_ONCE_NAMED(name, ...) env_log_sink(40, name, __VA_ARGS__)
#define RCUTILS_LOG_ERROR_EXPRESSION_NAMED(expression, name, ...) do { if (expression) { env_log_sink(40, name, __VA_ARGS__); } } while (0)
#define RCUTILS_LOG_FATAL_NAMED(name, ...) env_log_sink(50, name, __VA_ARGS__)
#define RCUTILS_LOG_FATAL(...) env_log_sink(50, "", __VA_ARGS__)
#define RCUTILS_LOG_FATAL_ONCE_NAMED(name, ...) env_log_sink(50, name, __VA_ARGS__)
#define RCUTILS_LOG_FATAL_EXPRESSION_NAMED(expression, name, ...) do { if (expression) { env_log_sink(50, name, __VA_ARGS__); } } while (0)
#endif  // RCUTILS__LOGGING_MACROS_H_
