/* LD_PRELOAD: time stands still (FIXTIME seconds since 1970), one process number */
#define _GNU_SOURCE
#include <stdlib.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static time_t now(void)
{
    char *p = getenv("FIXTIME");
    return p ? atoll(p) : 1700000000;
}

time_t time(time_t *t)
{
    time_t n = now();
    if (t) *t = n;
    return n;
}

int gettimeofday(struct timeval *tv, void *tz)
{
    if (tv) { tv->tv_sec = now(); tv->tv_usec = 0; }
    return 0;
}

int clock_gettime(clockid_t c, struct timespec *ts)
{
    ts->tv_sec = now(); ts->tv_nsec = 0;
    return 0;
}

pid_t getpid(void) { return 4242; }
