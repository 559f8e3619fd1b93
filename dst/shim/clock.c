/* A simulated wall clock, below libc.
 *
 * Preloaded into an interpreter.  DST_CLOCK="<seconds since 1970>:<ms per look>:
 * <looks between jumps>:<seconds per jump>": every look at the wall clock moves
 * it on by so much, and every so many looks it jumps (back, if negative).  The
 * monotonic clock is real: only the harness uses it.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/time.h>
#include <time.h>

static int on = -1;
static long long base, step, every, jump, looks;

static long long look(void)
{
    if (on < 0) {
        const char *s = getenv("DST_CLOCK");
        on = s && sscanf(s, "%lld:%lld:%lld:%lld", &base, &step, &every, &jump) == 4;
    }
    looks++;
    return base * 1000 + looks * step + (every ? looks / every * jump * 1000 : 0);
}

long long dst_clock_looks(void) { return looks; }

int clock_gettime(clockid_t id, struct timespec *ts)
{
    static int (*real)(clockid_t, struct timespec *);
    if (!real) real = dlsym(RTLD_NEXT, "clock_gettime");
    if (id != CLOCK_REALTIME && id != CLOCK_REALTIME_COARSE) return real(id, ts);
    long long ms = look();
    if (!on) return real(id, ts);
    long long sec = ms / 1000, rest = ms % 1000;
    if (rest < 0) { rest += 1000; sec--; }
    ts->tv_sec = sec;
    ts->tv_nsec = rest * 1000000;
    return 0;
}

int gettimeofday(struct timeval *tv, void *tz)
{
    struct timespec ts;
    (void)tz;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}

time_t time(time_t *t)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
