// LD_PRELOAD: the clock of the host, as the driver wants it.
//  CLK_FILE  8-byte little-endian nanoseconds, mapped: the current time
//  CLK_READ  if set, "ns_per_byte numerator denominator step_at step_ns": time advances with bytes read from fd 0
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static volatile int64_t* cell;
static int64_t bytes_read;
static int64_t num, den = 1, step_at = -1, step_ns;
static int rd;

__attribute__((constructor)) static void init(void) {
  const char* f = getenv("CLK_FILE");
  if (f) {
    int fd = open(f, O_RDONLY);
    if (fd >= 0) {
      void* p = mmap(0, 8, PROT_READ, MAP_SHARED, fd, 0);
      if (p != MAP_FAILED) cell = p;
      close(fd);
    }
  }
  const char* r = getenv("CLK_READ");
  if (r) {
    long long a, b, c, d;
    if (sscanf(r, "%lld %lld %lld %lld", &a, &b, &c, &d) == 4) { num = a; den = b; step_at = c; step_ns = d; rd = 1; }
  }
}

ssize_t read(int fd, void* buf, size_t n) {
  static ssize_t (*real)(int, void*, size_t);
  if (!real) real = (ssize_t(*)(int, void*, size_t))dlsym(RTLD_NEXT, "read");
  ssize_t r = real(fd, buf, n);
  if (fd == 0 && r > 0) bytes_read += r;
  return r;
}

static int64_t now_ns(void) {
  int64_t t = *cell;
  if (rd) {
    t += (int64_t)((__int128)bytes_read * num / den);
    if (step_at >= 0 && bytes_read >= step_at) t += step_ns;
  }
  return t;
}

static int (*real_cg)(clockid_t, struct timespec*);
int clock_gettime(clockid_t c, struct timespec* ts) {
  if (!real_cg) real_cg = (int (*)(clockid_t, struct timespec*))dlsym(RTLD_NEXT, "clock_gettime");
  if (!cell || (c != CLOCK_REALTIME && c != CLOCK_REALTIME_COARSE)) return real_cg(c, ts);
  int64_t t = now_ns();
  ts->tv_sec = t / 1000000000;
  ts->tv_nsec = t % 1000000000;
  return 0;
}
int gettimeofday(struct timeval* tv, void* tz) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t* p) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (p) *p = ts.tv_sec;
  return ts.tv_sec;
}
