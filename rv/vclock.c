/* LD_PRELOAD clock shim: lets the harness own the wall clock (and, on demand, the
   monotonic clock) of its own process.  Off (real clocks) until vclock_set_* is called. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdint.h>
#include <stdatomic.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
static _Atomic int wall_on = 0;
static _Atomic int64_t wall_ns = 0;      /* absolute virtual wall time */
static int real_gettime(clockid_t c, struct timespec *ts) { return (int)syscall(SYS_clock_gettime, c, ts); }
void vclock_set_wall(int64_t ns) { wall_ns = ns; wall_on = 1; }
void vclock_add_wall(int64_t ns) { wall_ns += ns; }
int64_t vclock_get_wall(void) { return wall_ns; }
void vclock_off(void) { wall_on = 0; }
int clock_gettime(clockid_t c, struct timespec *ts) {
    if (wall_on && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) {
        int64_t v = wall_ns; ts->tv_sec = v / 1000000000LL; ts->tv_nsec = v % 1000000000LL;
        if (ts->tv_nsec < 0) { ts->tv_nsec += 1000000000LL; ts->tv_sec -= 1; }
        return 0;
    }
    return real_gettime(c, ts);
}
int gettimeofday(struct timeval *tv, void *tz) {
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
    return 0;
}
time_t time(time_t *t) {
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
