// Stand-in for <rcutils/error_handling.h>: the documented ROS 2 semantics needed by rmw_dds_common.
#ifndef RCUTILS__ERROR_HANDLING_H_
#define RCUTILS__ERROR_HANDLING_H_
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include "rcutils/allocator.h"
#include "rcutils/macros.h"
#include "rcutils/snprintf.h"
#include "rcutils/types/rcutils_ret.h"
#define RCUTILS_ERROR_MESSAGE_MAX_LENGTH 1024
#ifdef __cplusplus
extern "C" {
#endif
typedef struct rcutils_error_string_s { char str[RCUTILS_ERROR_MESSAGE_MAX_LENGTH]; } rcutils_error_string_t;
typedef struct rcutils_error_state_s { char message[768]; char file[229]; uint64_t line_number; } rcutils_error_state_t;
void rcutils_set_error_state(const char * error_string, const char * file, size_t line_number);
bool rcutils_error_is_set(void);
rcutils_error_string_t rcutils_get_error_string(void);
const rcutils_error_state_t * rcutils_get_error_state(void);
void rcutils_reset_error(void);
#ifdef __cplusplus
}
#endif
#define RCUTILS_SET_ERROR_MSG(msg) \
  do {rcutils_set_error_state(msg, __FILE__, __LINE__);} while (0)
#define RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING(format_string, ...) \
  do { \
    char output_msg[RCUTILS_ERROR_MESSAGE_MAX_LENGTH]; \
    int ret_ = rcutils_snprintf(output_msg, sizeof(output_msg), format_string, __VA_ARGS__); \
    (void)ret_; \
    RCUTILS_SET_ERROR_MSG(output_msg); \
  } while (0)
#define RCUTILS_CHECK_FOR_NULL_WITH_MSG(value, msg, error_statement) \
  do { if (NULL == value) { RCUTILS_SET_ERROR_MSG(msg); error_statement; } } while (0)
#define RCUTILS_CHECK_ARGUMENT_FOR_NULL(argument, error_return_type) \
  RCUTILS_CHECK_FOR_NULL_WITH_MSG(argument, #argument " argument is null", return error_return_type)
#define RCUTILS_SAFE_FWRITE_TO_STDERR(msg) do {(void)(msg);} while (0)
#endif  // RCUTILS__ERROR_HANDLING_H_
