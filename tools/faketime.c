/* LD_PRELOAD: clock shifted by FT_OFFSET seconds (or started at FT_START) and running FT_SPEED times as fast. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <poll.h>
#include <stdlib.h>
#include <sys/time.h>
#include <time.h>

static double t0, base, speed = 1;

static double real(void)
{
    struct timespec ts;
    static int (*f)(clockid_t, struct timespec *);
    if (!f) f = (int (*)(clockid_t, struct timespec *)) dlsym(RTLD_NEXT, "clock_gettime");
    f(CLOCK_REALTIME, &ts);
    return ts.tv_sec + ts.tv_nsec / 1e9;
}

static double now(void)
{
    if (!t0) {
        char *s;
        base = t0 = real();
        if ((s = getenv("FT_START"))) base = atof(s);
        if ((s = getenv("FT_SPEED"))) speed = atof(s);
    }
    return base + (real() - t0) * speed;
}

static void __attribute__((constructor)) init(void) { now(); }

time_t time(time_t *p)
{
    time_t t = (time_t) now();
    if (p) *p = t;
    return t;
}

int gettimeofday(struct timeval *tv, void *tz)
{
    double t = now();
    tv->tv_sec = (time_t) t;
    tv->tv_usec = (suseconds_t) ((t - tv->tv_sec) * 1e6);
    return 0;
}

int poll(struct pollfd *fds, nfds_t n, int ms)
{
    static int (*f)(struct pollfd *, nfds_t, int);
    if (!f) f = (int (*)(struct pollfd *, nfds_t, int)) dlsym(RTLD_NEXT, "poll");
    if (ms > 0) {
        ms = ms / speed;
        if (ms < 1) ms = 1;
    }
    return f(fds, n, ms);
}
