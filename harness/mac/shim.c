/* Interposed libc for purity runs: while the macro expands (between the two markers), everything a process can
 * learn about its environment, the time and randomness is answered differently in every run (SHIM_MODE). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <sys/time.h>
#include <sys/random.h>
#include <unistd.h>
static __thread int on;
static int mode = -1;
static unsigned long calls;
static int m(void) { static char *(*g)(const char *); if (!g) g = dlsym(RTLD_NEXT, "getenv"); if (mode < 0) { char *s = g("SHIM_MODE"); mode = s ? atoi(s) : 0; } return mode; }
static char asked[4096];
static void note(const char *n) { size_t k = strlen(asked); if (k + strlen(n) + 2 < sizeof asked) { strcat(asked, " "); strcat(asked, n); } }
char *getenv(const char *n) {
    static char *(*g)(const char *);
    if (!g) g = dlsym(RTLD_NEXT, "getenv");
    if (!strcmp(n, "MAC_SHIM_ON")) { m(); on = 1; return 0; }
    if (!strcmp(n, "MAC_SHIM_OFF")) { on = 0; return 0; }
    if (!on || !strncmp(n, "RUST_", 5)) return g(n);
    calls++;
    note(n);
    switch (m()) { case 1: return 0; case 2: return "1"; case 3: return "a_shim_value"; case 4: return "true"; case 5: return ""; default: return g(n); }
}
int clock_gettime(clockid_t c, struct timespec *t) {
    static int (*g)(clockid_t, struct timespec *);
    if (!g) g = dlsym(RTLD_NEXT, "clock_gettime");
    int r = g(c, t);
    if (on) { calls++; t->tv_sec += m() * 86400L * 500; t->tv_nsec = (t->tv_nsec + m() * 7919) % 1000000000; }
    return r;
}
int gettimeofday(struct timeval *t, void *z) {
    static int (*g)(struct timeval *, void *);
    if (!g) g = dlsym(RTLD_NEXT, "gettimeofday");
    int r = g(t, z);
    if (on) { calls++; t->tv_sec += m() * 86400L * 500; }
    return r;
}
time_t time(time_t *p) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
ssize_t getrandom(void *b, size_t n, unsigned f) { static ssize_t (*g)(void *, size_t, unsigned); if (!g) g = dlsym(RTLD_NEXT, "getrandom"); ssize_t r = g(b, n, f); if (on) { calls++; memset(b, m() * 37 + 1, n); } return r; }
pid_t getpid(void) { static pid_t (*g)(void); if (!g) g = dlsym(RTLD_NEXT, "getpid"); pid_t r = g(); if (on) { calls++; return r + m() * 1000; } return r; }
char *getcwd(char *b, size_t n) { static char *(*g)(char *, size_t); if (!g) g = dlsym(RTLD_NEXT, "getcwd"); char *r = g(b, n); if (on && r && m() && strlen(r) > 2) { calls++; r[1] = 'a' + m(); } return r; }
/* Files: from the third mode on none can be opened. */
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#define OPEN(name) int name(const char *p, int fl, ...) { \
    static int (*g)(const char *, int, ...); if (!g) g = dlsym(RTLD_NEXT, #name); \
    va_list a; va_start(a, fl); int md = va_arg(a, int); va_end(a); \
    if (on) { calls++; note(p); if (m() >= 2) { errno = ENOENT; return -1; } } \
    return g(p, fl, md); }
OPEN(open)
OPEN(open64)
int gethostname(char *b, size_t n) { static int (*g)(char *, size_t); if (!g) g = dlsym(RTLD_NEXT, "gethostname"); int r = g(b, n); if (on && n > 2) { calls++; b[0] = 'a' + m(); } return r; }
#include <stdio.h>
__attribute__((destructor)) static void fin(void) { if (mode >= 0) fprintf(stderr, "SHIM mode=%d calls=%lu asked=%.300s\n", mode, calls, asked); }
