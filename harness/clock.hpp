// Stand-ins for the clock functions: real time plus what a history skips.
#pragma once
#include <cstdint>
#include <ctime>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

// the clocks the code under test sees: real time plus what was skipped
static int64_t g_skipped = 0;   // seconds
static int clock_impl(clockid_t id, struct timespec * t)
{
  int r = static_cast<int>(syscall(SYS_clock_gettime, id, t)); if (!r && g_skipped) {t->tv_sec += g_skipped;} return r;
}
extern "C" {
int clock_gettime(clockid_t id, struct timespec * t) noexcept {return clock_impl(id, t);}
int gettimeofday(struct timeval * v, void *) noexcept {struct timespec t; int r = clock_impl(CLOCK_REALTIME, &t); if (v) {v->tv_sec = t.tv_sec; v->tv_usec = t.tv_nsec / 1000;} return r;}
time_t time(time_t * o) noexcept {struct timespec t; clock_impl(CLOCK_REALTIME, &t); if (o) {*o = t.tv_sec;} return t.tv_sec;}
}
