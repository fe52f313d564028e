/* LD_PRELOAD: random delays before file operations, short sleeps,
 * optional SIGKILL of itself before the n-th operation.
 *   SHIM_SEED n     SHIM_DELAY max usec   SHIM_PROB percent of delayed calls
 *   SHIM_SLEEP usec per second slept      SHIM_KILL per million of killed calls
 *   SHIM_LOG file   counts of what happened are appended there at exit */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

static unsigned long long rs;
static long dmax, prob, slp = -1, kil;
static long ncalls, ndelays, nsleep;
static int inited;

static unsigned rnd(void)
{
    rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17;
    return (unsigned)(rs >> 11);
}

static long env(const char *n, long d)
{
    char *p = getenv(n);
    return p ? atol(p) : d;
}

static void init(void)
{
    inited = 1;
    rs = 88172645463325252ULL ^ ((unsigned long long)env("SHIM_SEED", 1) << 20) ^
        ((unsigned long long)getpid() << 1);
    for (int i = 0; i < 20; i++) rnd();
    dmax = env("SHIM_DELAY", 0);
    prob = env("SHIM_PROB", 30);
    slp = env("SHIM_SLEEP", -1);
    kil = env("SHIM_KILL", 0);
}

static void us(long n)
{
    struct timespec ts = { n / 1000000, (n % 1000000) * 1000 };
    nanosleep(&ts, NULL);
}

static void point(void)
{
    int e = errno;
    if (!inited) init();
    ncalls++;
    if (kil && (long)(rnd() % 1000000) < kil)
        raise(SIGKILL);
    if (dmax && (long)(rnd() % 100) < prob) {
        ndelays++;
        us(rnd() % dmax);
    }
    errno = e;
}

__attribute__((destructor)) static void fini(void)
{
    char *f = getenv("SHIM_LOG"), b[100];
    static int (*o)(const char *, int, ...);
    if (!f) return;
    if (!o) o = dlsym(RTLD_NEXT, "open");
    int fd = o(f, O_WRONLY | O_APPEND | O_CREAT, 0666);
    if (fd < 0) return;
    int n = snprintf(b, sizeof b, "%ld %ld %ld\n", ncalls, ndelays, nsleep);
    if (write(fd, b, n) < 0) {}
    close(fd);
}

#define REAL(name) static __typeof__(name) *real; if (!real) real = dlsym(RTLD_NEXT, #name)

unsigned int sleep(unsigned int n)
{
    REAL(sleep);
    if (!inited) init();
    nsleep += n;
    if (slp < 0) return real(n);
    us(slp * n);
    return 0;
}
#define OPEN(name) int name(const char *p, int f, ...) { \
    static int (*real)(const char *, int, ...); if (!real) real = dlsym(RTLD_NEXT, #name); \
    mode_t m = 0; if (f & O_CREAT) { va_list a; va_start(a, f); m = va_arg(a, int); va_end(a); } \
    point(); return real(p, f, m); }
OPEN(open)
OPEN(open64)
FILE *fopen(const char *p, const char *m) { REAL(fopen); point(); return real(p, m); }
FILE *fopen64(const char *p, const char *m)
{ static FILE *(*real)(const char *, const char *); if (!real) real = dlsym(RTLD_NEXT, "fopen64");
  point(); return real(p, m); }
int fclose(FILE *f) { REAL(fclose); point(); return real(f); }
int fflush(FILE *f) { REAL(fflush); point(); return real(f); }
int unlink(const char *p) { REAL(unlink); point(); return real(p); }
int link(const char *a, const char *b) { REAL(link); point(); return real(a, b); }
int rename(const char *a, const char *b) { REAL(rename); point(); return real(a, b); }
/* SHIM_PIDOFF: all processes have higher numbers than they really have */
static pid_t off(void)
{
    static pid_t o = -1;
    char *e;
    if (o < 0) o = (e = getenv("SHIM_PIDOFF")) ? atoi(e) : 0;
    return o;
}
pid_t getpid(void) { REAL(getpid); return real() + off(); }
int kill(pid_t p, int s)
{
    REAL(kill);
    point();
    if (off()) {
        if (s) { errno = EPERM; return -1; }
        if (p > 0 && (p -= off()) <= 0) { errno = ESRCH; return -1; }
    }
    return real(p, s);
}
int mkdir(const char *p, mode_t m) { REAL(mkdir); point(); return real(p, m); }
int fcntl(int fd, int c, ...)
{
    static int (*real)(int, int, ...); if (!real) real = dlsym(RTLD_NEXT, "fcntl");
    va_list a; va_start(a, c); void *x = va_arg(a, void *); va_end(a);
    point(); return real(fd, c, x);
}
int fcntl64(int fd, int c, ...)
{
    static int (*real)(int, int, ...); if (!real) real = dlsym(RTLD_NEXT, "fcntl64");
    va_list a; va_start(a, c); void *x = va_arg(a, void *); va_end(a);
    point(); return real(fd, c, x);
}
