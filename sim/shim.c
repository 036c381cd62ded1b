/* LD_PRELOAD shim: simulated clock offset/rate, process id and host name. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <sys/utsname.h>
#include <time.h>
#include <unistd.h>

static long off(void) {
  static int init; static long v;
  if (!init) { const char *s = getenv("SIM_CLOCK_OFFSET"); v = s ? atol(s) : 0; init = 1; }
  return v;
}
int clock_gettime(clockid_t c, struct timespec *t) {
  static int (*real)(clockid_t, struct timespec *);
  if (!real) real = dlsym(RTLD_NEXT, "clock_gettime");
  int r = real(c, t);
  if (!r && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) t->tv_sec += off();
  if (!r && (c == CLOCK_MONOTONIC)) t->tv_sec += off() > 0 ? off() / 7 : 0;
  return r;
}
time_t time(time_t *p) {
  struct timespec t; clock_gettime(CLOCK_REALTIME, &t);
  if (p) *p = t.tv_sec;
  return t.tv_sec;
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
  struct timespec t; clock_gettime(CLOCK_REALTIME, &t);
  if (tv) { tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; }
  return 0;
}
pid_t getpid(void) {
  const char *s = getenv("SIM_PID");
  static pid_t (*real)(void);
  if (!real) real = dlsym(RTLD_NEXT, "getpid");
  return s ? (pid_t)atoi(s) : real();
}
int gethostname(char *n, size_t l) {
  const char *s = getenv("SIM_HOST");
  strncpy(n, s ? s : "host", l);
  return 0;
}
int uname(struct utsname *u) {
  static int (*real)(struct utsname *);
  if (!real) real = dlsym(RTLD_NEXT, "uname");
  int r = real(u);
  const char *s = getenv("SIM_HOST");
  if (!r && s) strncpy(u->nodename, s, sizeof u->nodename - 1);
  return r;
}
