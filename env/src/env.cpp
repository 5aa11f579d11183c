// Stand-ins for the parts of rcutils, rmw and rosidl_runtime_c used by rmw_dds_common, written from
// their documented behaviour.  They hold no global state except the thread-local error string and
// the fault-injection counter.
#include <atomic>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>

#include "rcutils/allocator.h"
#include "rcutils/error_handling.h"
#include "rcutils/format_string.h"
#include "rcutils/logging_macros.h"
#include "rcutils/snprintf.h"
#include "rcutils/strdup.h"
#include "rcutils/types.h"
#include "rmw/allocators.h"
#include "rmw/convert_rcutils_ret_to_rmw_ret.h"
#include "rmw/error_handling.h"
#include "rmw/names_and_types.h"
#include "rmw/qos_string_conversions.h"
#include "rmw/sanity_checks.h"
#include "rmw/topic_endpoint_info_array.h"
#include "rosidl_runtime_c/type_hash.h"

// --- fault injection: with count n the (n+1)-th fallible library call from now fails, once.
static std::atomic<int_least64_t> g_fault_count{-1};
extern "C" {
void rcutils_fault_injection_set_count(int_least64_t count) {g_fault_count = count;}
int_least64_t rcutils_fault_injection_get_count(void) {return g_fault_count;}
bool rcutils_fault_injection_is_test_complete(void) {return g_fault_count > RCUTILS_FAULT_INJECTION_NEVER_FAIL;}
int_least64_t _rcutils_fault_injection_maybe_fail(void)
{
  int_least64_t c = g_fault_count.load();
  while (c > -1 && !g_fault_count.compare_exchange_strong(c, c - 1)) {
  }
  return c;
}

static void * dflt_alloc(size_t n, void *) {return malloc(n);}
static void dflt_free(void * p, void *) {free(p);}
static void * dflt_realloc(void * p, size_t n, void *) {return realloc(p, n);}
static void * dflt_calloc(size_t n, size_t s, void *) {return calloc(n, s);}
rcutils_allocator_t rcutils_get_zero_initialized_allocator(void)
{
  rcutils_allocator_t a; memset(&a, 0, sizeof a); return a;
}
rcutils_allocator_t rcutils_get_default_allocator(void)
{
  rcutils_allocator_t a;
  a.allocate = dflt_alloc; a.deallocate = dflt_free; a.reallocate = dflt_realloc;
  a.zero_allocate = dflt_calloc; a.state = nullptr;
  return a;
}
bool rcutils_allocator_is_valid(const rcutils_allocator_t * a)
{
  return a && a->allocate && a->deallocate && a->zero_allocate && a->reallocate;
}
void * rcutils_reallocf(void * pointer, size_t size, rcutils_allocator_t * a)
{
  if (!a || !a->reallocate || !a->deallocate) {return nullptr;}
  void * p = a->reallocate(pointer, size, a->state);
  if (!p) {a->deallocate(pointer, a->state);}
  return p;
}

static thread_local char g_err[RCUTILS_ERROR_MESSAGE_MAX_LENGTH];
static thread_local bool g_err_set;
static thread_local rcutils_error_state_t g_err_state;
void rcutils_set_error_state(const char * s, const char * file, size_t line)
{
  if (!s) {return;}
  snprintf(g_err_state.message, sizeof g_err_state.message, "%s", s);
  snprintf(g_err_state.file, sizeof g_err_state.file, "%s", file ? file : "");
  g_err_state.line_number = line;
  snprintf(g_err, sizeof g_err, "%s, at %s:%zu", g_err_state.message, g_err_state.file, line);
  g_err_set = true;
}
bool rcutils_error_is_set(void) {return g_err_set;}
rcutils_error_string_t rcutils_get_error_string(void)
{
  rcutils_error_string_t r;
  snprintf(r.str, sizeof r.str, "%s", g_err_set ? g_err : "error not set");
  return r;
}
const rcutils_error_state_t * rcutils_get_error_state(void) {return &g_err_state;}
void rcutils_reset_error(void) {g_err_set = false; g_err[0] = 0;}

int rcutils_vsnprintf(char * buffer, size_t size, const char * format, va_list args)
{
  if (!format) {return -1;}
  if (!buffer && size == 0) {return vsnprintf(nullptr, 0, format, args);}
  if (!buffer || size == 0) {return -1;}
  RCUTILS_CAN_RETURN_WITH_ERROR_OF(-1);
  return vsnprintf(buffer, size, format, args);
}
int rcutils_snprintf(char * buffer, size_t size, const char * format, ...)
{
  va_list args; va_start(args, format);
  int r = rcutils_vsnprintf(buffer, size, format, args);
  va_end(args);
  return r;
}
void env_log_sink(int, const char * name, const char * format, ...)
{
  char buf[256];
  va_list args; va_start(args, format);
  vsnprintf(buf, sizeof buf, format, args);
  va_end(args);
  (void)name;
}
char * rcutils_strndup(const char * str, size_t n, rcutils_allocator_t a)
{
  if (!str) {return nullptr;}
  char * p = static_cast<char *>(a.allocate(n + 1, a.state));
  if (!p) {return nullptr;}
  memcpy(p, str, n); p[n] = 0;
  return p;
}
char * rcutils_strdup(const char * str, rcutils_allocator_t a)
{
  return str ? rcutils_strndup(str, strlen(str), a) : nullptr;
}
char * rcutils_format_string_limit(rcutils_allocator_t a, size_t limit, const char * fmt, ...)
{
  if (!fmt) {return nullptr;}
  va_list ap, ap2; va_start(ap, fmt); va_copy(ap2, ap);
  int n = vsnprintf(nullptr, 0, fmt, ap); va_end(ap);
  if (n < 0) {va_end(ap2); return nullptr;}
  size_t sz = static_cast<size_t>(n) + 1; if (sz > limit) {sz = limit;}
  char * p = static_cast<char *>(a.allocate(sz, a.state));
  if (p) {vsnprintf(p, sz, fmt, ap2);}
  va_end(ap2);
  return p;
}

rcutils_string_array_t rcutils_get_zero_initialized_string_array(void)
{
  rcutils_string_array_t a; memset(&a, 0, sizeof a); return a;
}
rcutils_ret_t rcutils_string_array_init(rcutils_string_array_t * sa, size_t size, const rcutils_allocator_t * a)
{
  RCUTILS_CAN_SET_MSG_AND_RETURN_WITH_ERROR_OF(RCUTILS_RET_BAD_ALLOC);
  if (!a) {RCUTILS_SET_ERROR_MSG("allocator is null"); return RCUTILS_RET_INVALID_ARGUMENT;}
  RCUTILS_CHECK_ARGUMENT_FOR_NULL(sa, RCUTILS_RET_INVALID_ARGUMENT);
  sa->size = size;
  sa->data = static_cast<char **>(a->zero_allocate(size, sizeof(char *), a->state));
  if (!sa->data && size != 0) {
    RCUTILS_SET_ERROR_MSG("failed to allocate string array");
    return RCUTILS_RET_BAD_ALLOC;
  }
  sa->allocator = *a;
  return RCUTILS_RET_OK;
}
rcutils_ret_t rcutils_string_array_fini(rcutils_string_array_t * sa)
{
  if (!sa) {RCUTILS_SET_ERROR_MSG("string_array is null"); return RCUTILS_RET_INVALID_ARGUMENT;}
  if (!sa->data) {return RCUTILS_RET_OK;}
  rcutils_allocator_t * a = &sa->allocator;
  if (!rcutils_allocator_is_valid(a)) {RCUTILS_SET_ERROR_MSG("allocator is invalid"); return RCUTILS_RET_INVALID_ARGUMENT;}
  for (size_t i = 0; i < sa->size; ++i) {
    a->deallocate(sa->data[i], a->state);
    sa->data[i] = nullptr;
  }
  a->deallocate(sa->data, a->state);
  sa->data = nullptr; sa->size = 0;
  return RCUTILS_RET_OK;
}
rcutils_ret_t rcutils_string_array_cmp(const rcutils_string_array_t * l, const rcutils_string_array_t * r, int * res)
{
  if (!l || !r || !res) {return RCUTILS_RET_INVALID_ARGUMENT;}
  size_t n = l->size < r->size ? l->size : r->size;
  for (size_t i = 0; i < n; ++i) {
    *res = strcmp(l->data[i], r->data[i]);
    if (*res) {return RCUTILS_RET_OK;}
  }
  *res = l->size < r->size ? -1 : (l->size > r->size ? 1 : 0);
  return RCUTILS_RET_OK;
}
rcutils_ret_t rcutils_string_array_resize(rcutils_string_array_t * sa, size_t n)
{
  if (!sa) {return RCUTILS_RET_INVALID_ARGUMENT;}
  if (n == sa->size) {return RCUTILS_RET_OK;}
  rcutils_allocator_t * a = &sa->allocator;
  if (!rcutils_allocator_is_valid(a)) {return RCUTILS_RET_INVALID_ARGUMENT;}
  for (size_t i = n; i < sa->size; ++i) {a->deallocate(sa->data[i], a->state); sa->data[i] = nullptr;}
  char ** d = static_cast<char **>(a->reallocate(sa->data, n * sizeof(char *), a->state));
  if (!d && n) {return RCUTILS_RET_BAD_ALLOC;}
  for (size_t i = sa->size; i < n; ++i) {d[i] = nullptr;}
  sa->data = d; sa->size = n;
  return RCUTILS_RET_OK;
}

rosidl_type_hash_t rosidl_get_zero_initialized_type_hash(void)
{
  rosidl_type_hash_t h; memset(&h, 0, sizeof h); return h;
}
rcutils_ret_t rosidl_stringify_type_hash(const rosidl_type_hash_t * h, rcutils_allocator_t a, char ** out)
{
  RCUTILS_CAN_SET_MSG_AND_RETURN_WITH_ERROR_OF(RCUTILS_RET_BAD_ALLOC);
  if (!h || !out) {return RCUTILS_RET_INVALID_ARGUMENT;}
  if (!rcutils_allocator_is_valid(&a)) {return RCUTILS_RET_INVALID_ARGUMENT;}
  char * s = static_cast<char *>(a.allocate(7 + 64 + 1, a.state));
  if (!s) {*out = nullptr; return RCUTILS_RET_BAD_ALLOC;}
  memcpy(s, "RIHS01_", 7);
  static const char hex[] = "0123456789abcdef";
  for (int i = 0; i < 32; ++i) {s[7 + 2 * i] = hex[h->value[i] >> 4]; s[8 + 2 * i] = hex[h->value[i] & 15];}
  s[71] = 0;
  *out = s;
  return RCUTILS_RET_OK;
}
static bool xval(char c, uint8_t * o)
{
  if (c >= '0' && c <= '9') {*o = c - '0';} else if (c >= 'a' && c <= 'f') {*o = 10 + c - 'a';} else if (c >= 'A' && c <= 'F') {*o = 10 + c - 'A';} else {return false;}
  return true;
}
rcutils_ret_t rosidl_parse_type_hash_string(const char * s, rosidl_type_hash_t * h)
{
  RCUTILS_CAN_SET_MSG_AND_RETURN_WITH_ERROR_OF(RCUTILS_RET_INVALID_ARGUMENT);
  if (!s || !h) {return RCUTILS_RET_INVALID_ARGUMENT;}
  *h = rosidl_get_zero_initialized_type_hash();
  size_t n = strlen(s);
  uint8_t a, b;
  if (n < 6 || memcmp(s, "RIHS", 4) || !xval(s[4], &a) || !xval(s[5], &b)) {
    RCUTILS_SET_ERROR_MSG("Hash string doesn't start with RIHS and a version"); return RCUTILS_RET_INVALID_ARGUMENT;
  }
  h->version = static_cast<uint8_t>(a * 16 + b);
  if (h->version != 1) {RCUTILS_SET_ERROR_MSG("Do not know how to parse RIHS version"); return RCUTILS_RET_INVALID_ARGUMENT;}
  if (n != 71 || s[6] != '_') {RCUTILS_SET_ERROR_MSG("RIHS string is the incorrect length"); return RCUTILS_RET_INVALID_ARGUMENT;}
  for (int i = 0; i < 32; ++i) {
    if (!xval(s[7 + 2 * i], &a) || !xval(s[8 + 2 * i], &b)) {
      RCUTILS_SET_ERROR_MSG("Type hash string value did not contain hex digits"); return RCUTILS_RET_INVALID_ARGUMENT;
    }
    h->value[i] = static_cast<uint8_t>(a * 16 + b);
  }
  return RCUTILS_RET_OK;
}

void * rmw_allocate(size_t n) {return malloc(n);}
void rmw_free(void * p) {free(p);}
bool rmw_time_equal(const rmw_time_t l, const rmw_time_t r)
{
  return rmw_time_total_nsec(l) == rmw_time_total_nsec(r);
}
rmw_duration_t rmw_time_total_nsec(const rmw_time_t t)
{
  static const uint64_t max_sec = INT64_MAX / 1000000000ull;
  if (t.sec > max_sec) {return INT64_MAX;}
  uint64_t s = t.sec * 1000000000ull;
  if (t.nsec > INT64_MAX - s) {return INT64_MAX;}
  return static_cast<rmw_duration_t>(s + t.nsec);
}
rmw_time_t rmw_time_from_nsec(const rmw_duration_t n)
{
  if (n < 0) {rmw_time_t r = RMW_DURATION_INFINITE; return r;}
  rmw_time_t r; r.sec = n / 1000000000; r.nsec = n % 1000000000; return r;
}
rmw_time_t rmw_time_normalize(const rmw_time_t t) {return rmw_time_from_nsec(rmw_time_total_nsec(t));}

rmw_ret_t rmw_convert_rcutils_ret_to_rmw_ret(rcutils_ret_t r)
{
  switch (r) {
    case RCUTILS_RET_OK: return RMW_RET_OK;
    case RCUTILS_RET_INVALID_ARGUMENT: return RMW_RET_INVALID_ARGUMENT;
    case RCUTILS_RET_BAD_ALLOC: return RMW_RET_BAD_ALLOC;
    default: return RMW_RET_ERROR;
  }
}
rmw_ret_t rmw_check_zero_rmw_string_array(rcutils_string_array_t * a)
{
  if (!a) {RMW_SET_ERROR_MSG("rmw string array is null"); return RMW_RET_ERROR;}
  if (a->size != 0) {RMW_SET_ERROR_MSG("rmw string array size is not zero"); return RMW_RET_ERROR;}
  if (a->data) {RMW_SET_ERROR_MSG("rmw string array data is not null"); return RMW_RET_ERROR;}
  return RMW_RET_OK;
}
rmw_names_and_types_t rmw_get_zero_initialized_names_and_types(void)
{
  rmw_names_and_types_t n; memset(&n, 0, sizeof n); return n;
}
rmw_ret_t rmw_names_and_types_check_zero(rmw_names_and_types_t * n)
{
  if (!n) {RMW_SET_ERROR_MSG("names_and_types is null"); return RMW_RET_INVALID_ARGUMENT;}
  if (n->names.size != 0 || n->names.data || n->types) {
    RMW_SET_ERROR_MSG("names_and_types is not zero initialized"); return RMW_RET_INVALID_ARGUMENT;
  }
  return RMW_RET_OK;
}
rmw_ret_t rmw_names_and_types_init(rmw_names_and_types_t * n, size_t size, rcutils_allocator_t * a)
{
  RCUTILS_CAN_SET_MSG_AND_RETURN_WITH_ERROR_OF(RMW_RET_BAD_ALLOC);
  if (!rcutils_allocator_is_valid(a)) {RMW_SET_ERROR_MSG("allocator is not valid"); return RMW_RET_INVALID_ARGUMENT;}
  if (!n) {RMW_SET_ERROR_MSG("names_and_types is null"); return RMW_RET_INVALID_ARGUMENT;}
  rcutils_ret_t r = rcutils_string_array_init(&n->names, size, a);
  if (r != RCUTILS_RET_OK) {return rmw_convert_rcutils_ret_to_rmw_ret(r);}
  if (size > 0) {
    n->types = static_cast<rcutils_string_array_t *>(a->zero_allocate(size, sizeof(rcutils_string_array_t), a->state));
    if (!n->types) {
      if (rcutils_string_array_fini(&n->names) != RCUTILS_RET_OK) {}
      RMW_SET_ERROR_MSG("failed to allocate memory for types");
      return RMW_RET_BAD_ALLOC;
    }
  } else {
    n->types = nullptr;
  }
  return RMW_RET_OK;
}
rmw_ret_t rmw_names_and_types_fini(rmw_names_and_types_t * n)
{
  if (!n) {RMW_SET_ERROR_MSG("names_and_types is null"); return RMW_RET_INVALID_ARGUMENT;}
  if (n->names.size && !n->types) {RMW_SET_ERROR_MSG("invalid names_and_types: size but no types"); return RMW_RET_INVALID_ARGUMENT;}
  for (size_t i = 0; i < n->names.size; ++i) {
    rcutils_ret_t r = rcutils_string_array_fini(&n->types[i]);
    if (r != RCUTILS_RET_OK) {return rmw_convert_rcutils_ret_to_rmw_ret(r);}
  }
  if (n->types) {
    n->names.allocator.deallocate(n->types, n->names.allocator.state);
    n->types = nullptr;
  }
  rcutils_ret_t r = rcutils_string_array_fini(&n->names);
  if (r != RCUTILS_RET_OK) {return rmw_convert_rcutils_ret_to_rmw_ret(r);}
  return RMW_RET_OK;
}

rmw_topic_endpoint_info_t rmw_get_zero_initialized_topic_endpoint_info(void)
{
  rmw_topic_endpoint_info_t i; memset(&i, 0, sizeof i); return i;
}
static rmw_ret_t set_str(const char ** dst, const char * src, rcutils_allocator_t * a)
{
  RCUTILS_CAN_SET_MSG_AND_RETURN_WITH_ERROR_OF(RMW_RET_BAD_ALLOC);
  if (!src) {RMW_SET_ERROR_MSG("string argument is null"); return RMW_RET_INVALID_ARGUMENT;}
  if (!a) {RMW_SET_ERROR_MSG("allocator is null"); return RMW_RET_INVALID_ARGUMENT;}
  size_t n = strlen(src) + 1;
  char * p = static_cast<char *>(a->allocate(n, a->state));
  if (!p) {RMW_SET_ERROR_MSG("failed to allocate memory for endpoint info string"); return RMW_RET_BAD_ALLOC;}
  memcpy(p, src, n);
  *dst = p;
  return RMW_RET_OK;
}
#define NOTNULL(x) if (!(x)) {RMW_SET_ERROR_MSG(#x " is null"); return RMW_RET_INVALID_ARGUMENT;}
rmw_ret_t rmw_topic_endpoint_info_fini(rmw_topic_endpoint_info_t * i, rcutils_allocator_t * a)
{
  NOTNULL(i) NOTNULL(a)
  a->deallocate(const_cast<char *>(i->node_name), a->state);
  a->deallocate(const_cast<char *>(i->node_namespace), a->state);
  a->deallocate(const_cast<char *>(i->topic_type), a->state);
  *i = rmw_get_zero_initialized_topic_endpoint_info();
  return RMW_RET_OK;
}
rmw_ret_t rmw_topic_endpoint_info_set_topic_type(rmw_topic_endpoint_info_t * i, const char * s, rcutils_allocator_t * a)
{ NOTNULL(i) return set_str(&i->topic_type, s, a); }
rmw_ret_t rmw_topic_endpoint_info_set_node_name(rmw_topic_endpoint_info_t * i, const char * s, rcutils_allocator_t * a)
{ NOTNULL(i) return set_str(&i->node_name, s, a); }
rmw_ret_t rmw_topic_endpoint_info_set_node_namespace(rmw_topic_endpoint_info_t * i, const char * s, rcutils_allocator_t * a)
{ NOTNULL(i) return set_str(&i->node_namespace, s, a); }
rmw_ret_t rmw_topic_endpoint_info_set_topic_type_hash(rmw_topic_endpoint_info_t * i, const rosidl_type_hash_t * h)
{
  RCUTILS_CAN_RETURN_WITH_ERROR_OF(RMW_RET_INVALID_ARGUMENT);
  NOTNULL(i) NOTNULL(h)
  i->topic_type_hash = *h; return RMW_RET_OK;
}
rmw_ret_t rmw_topic_endpoint_info_set_endpoint_type(rmw_topic_endpoint_info_t * i, rmw_endpoint_type_t t)
{
  RCUTILS_CAN_RETURN_WITH_ERROR_OF(RMW_RET_INVALID_ARGUMENT);
  NOTNULL(i) i->endpoint_type = t; return RMW_RET_OK;
}
rmw_ret_t rmw_topic_endpoint_info_set_gid(rmw_topic_endpoint_info_t * i, const uint8_t gid[], size_t size)
{
  RCUTILS_CAN_RETURN_WITH_ERROR_OF(RMW_RET_INVALID_ARGUMENT);
  NOTNULL(i) NOTNULL(gid)
  if (size > RMW_GID_STORAGE_SIZE) {RMW_SET_ERROR_MSG("size is more than RMW_GID_STORAGE_SIZE"); return RMW_RET_INVALID_ARGUMENT;}
  memset(i->endpoint_gid, 0, RMW_GID_STORAGE_SIZE);
  memcpy(i->endpoint_gid, gid, size);
  return RMW_RET_OK;
}
rmw_ret_t rmw_topic_endpoint_info_set_qos_profile(rmw_topic_endpoint_info_t * i, const rmw_qos_profile_t * q)
{
  RCUTILS_CAN_RETURN_WITH_ERROR_OF(RMW_RET_INVALID_ARGUMENT);
  NOTNULL(i) NOTNULL(q) i->qos_profile = *q; return RMW_RET_OK;
}
rmw_topic_endpoint_info_array_t rmw_get_zero_initialized_topic_endpoint_info_array(void)
{
  rmw_topic_endpoint_info_array_t a; a.size = 0; a.info_array = nullptr; return a;
}
rmw_ret_t rmw_topic_endpoint_info_array_check_zero(rmw_topic_endpoint_info_array_t * a)
{
  NOTNULL(a)
  if (a->size != 0 || a->info_array) {RMW_SET_ERROR_MSG("topic_endpoint_info_array is not zeroed"); return RMW_RET_ERROR;}
  return RMW_RET_OK;
}
rmw_ret_t rmw_topic_endpoint_info_array_init_with_size(rmw_topic_endpoint_info_array_t * arr, size_t size, rcutils_allocator_t * a)
{
  RCUTILS_CAN_SET_MSG_AND_RETURN_WITH_ERROR_OF(RMW_RET_BAD_ALLOC);
  NOTNULL(a) NOTNULL(arr)
  arr->info_array = static_cast<rmw_topic_endpoint_info_t *>(a->allocate(sizeof(rmw_topic_endpoint_info_t) * size, a->state));
  if (!arr->info_array) {RMW_SET_ERROR_MSG("failed to allocate memory for info_array"); return RMW_RET_BAD_ALLOC;}
  arr->size = size;
  for (size_t i = 0; i < size; ++i) {arr->info_array[i] = rmw_get_zero_initialized_topic_endpoint_info();}
  return RMW_RET_OK;
}
// Tests and the C20 check can make the release of an array report an error.
std::atomic<int> env_endpoint_array_fini_result{0};
std::atomic<int> env_endpoint_array_fini_calls{0};
rmw_ret_t rmw_topic_endpoint_info_array_fini(rmw_topic_endpoint_info_array_t * arr, rcutils_allocator_t * a)
{
  NOTNULL(a) NOTNULL(arr)
  env_endpoint_array_fini_calls++;
  for (size_t i = 0; i < arr->size; ++i) {
    rmw_ret_t r = rmw_topic_endpoint_info_fini(&arr->info_array[i], a);
    if (r != RMW_RET_OK) {return r;}
  }
  a->deallocate(arr->info_array, a->state);
  arr->info_array = nullptr; arr->size = 0;
  return env_endpoint_array_fini_result.load();
}

const char * rmw_qos_policy_kind_to_str(enum rmw_qos_policy_kind_e) {return nullptr;}
const char * rmw_qos_durability_policy_to_str(enum rmw_qos_durability_policy_e v)
{
  switch (v) {
    case RMW_QOS_POLICY_DURABILITY_SYSTEM_DEFAULT: return "system_default";
    case RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL: return "transient_local";
    case RMW_QOS_POLICY_DURABILITY_VOLATILE: return "volatile";
    case RMW_QOS_POLICY_DURABILITY_BEST_AVAILABLE: return "best_available";
    default: return nullptr;
  }
}
const char * rmw_qos_history_policy_to_str(enum rmw_qos_history_policy_e v)
{
  switch (v) {
    case RMW_QOS_POLICY_HISTORY_SYSTEM_DEFAULT: return "system_default";
    case RMW_QOS_POLICY_HISTORY_KEEP_LAST: return "keep_last";
    case RMW_QOS_POLICY_HISTORY_KEEP_ALL: return "keep_all";
    default: return nullptr;
  }
}
const char * rmw_qos_liveliness_policy_to_str(enum rmw_qos_liveliness_policy_e v)
{
  switch (v) {
    case RMW_QOS_POLICY_LIVELINESS_SYSTEM_DEFAULT: return "system_default";
    case RMW_QOS_POLICY_LIVELINESS_AUTOMATIC: return "automatic";
    case RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_TOPIC: return "manual_by_topic";
    case RMW_QOS_POLICY_LIVELINESS_BEST_AVAILABLE: return "best_available";
    default: return nullptr;
  }
}
const char * rmw_qos_reliability_policy_to_str(enum rmw_qos_reliability_policy_e v)
{
  switch (v) {
    case RMW_QOS_POLICY_RELIABILITY_SYSTEM_DEFAULT: return "system_default";
    case RMW_QOS_POLICY_RELIABILITY_RELIABLE: return "reliable";
    case RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT: return "best_effort";
    case RMW_QOS_POLICY_RELIABILITY_BEST_AVAILABLE: return "best_available";
    default: return nullptr;
  }
}
}  // extern "C"
