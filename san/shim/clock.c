/* LD_PRELOAD: shows the process another wall-clock time (FAKE_NOW, seconds) and host. Workload only: a result that
   follows the clock then differs between two runs. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
static long long fake(void) { const char *s = getenv("FAKE_NOW"); return s ? atoll(s) : -1; }
int clock_gettime(clockid_t c, struct timespec *t) {
  static int (*real)(clockid_t, struct timespec *);
  if (!real) real = dlsym(RTLD_NEXT, "clock_gettime");
  int r = real(c, t);
  if (r == 0 && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) && fake() >= 0) t->tv_sec = fake();
  return r;
}
time_t time(time_t *p) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
int gettimeofday(struct timeval *restrict tv, void *restrict z) {
  struct timespec t; clock_gettime(CLOCK_REALTIME, &t);
  if (tv) { tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; }
  (void)z; return 0;
}
int gethostname(char *b, size_t n) { strncpy(b, "elsewhere", n); return 0; }
