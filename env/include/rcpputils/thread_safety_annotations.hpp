// Stand-in for <rcpputils/thread_safety_annotations.hpp>: the documented ROS 2 semantics needed by rmw_dds_common.
#ifndef RCPPUTILS__THREAD_SAFETY_ANNOTATIONS_HPP_
#define RCPPUTILS__THREAD_SAFETY_ANNOTATIONS_HPP_
#define RCPPUTILS_TSA_GUARDED_BY(x)
#define RCPPUTILS_TSA_PT_GUARDED_BY(x)
#define RCPPUTILS_TSA_ACQUIRED_AFTER(x)
#define RCPPUTILS_TSA_ACQUIRED_BEFORE(x)
#define RCPPUTILS_TSA_REQUIRES(...)
#define RCPPUTILS_TSA_EXCLUDES(...)
#define RCPPUTILS_TSA_RETURN_CAPABILITY(...)
#define RCPPUTILS_TSA_ACQUIRE(...)
#define RCPPUTILS_TSA_RELEASE(...)
#define RCPPUTILS_TSA_TRY_ACQUIRE(...)
#define RCPPUTILS_TSA_NO_THREAD_SAFETY_ANALYSIS
#define RCPPUTILS_TSA_SCOPED_CAPABILITY
#define RCPPUTILS_TSA_CAPABILITY(...)
#endif  // RCPPUTILS__THREAD_SAFETY_ANNOTATIONS_HPP_
