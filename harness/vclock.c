/* LD_PRELOAD shim: a virtual clock. Time starts at VF_CLOCK (microseconds), moves on by a pseudo-random 0..VF_STEP
   microseconds at each reading and by exactly the requested time at each sleep, so nothing depends on machine load. */
#include <stdlib.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
static unsigned long long now, rs; static long step;
static void tick(void) {
    if (!rs) { const char *c = getenv("VF_CLOCK"), *s = getenv("VF_STEP"); now = c ? strtoull(c, 0, 10) : 1; rs = now | 1; step = s ? atol(s) : 50; }
    rs = rs * 6364136223846793005ULL + 1442695040888963407ULL; now += (rs >> 33) % (step + 1);
}
int gettimeofday(struct timeval *tv, void *tz) { tick(); tv->tv_sec = now / 1000000; tv->tv_usec = now % 1000000; return 0; }
int usleep(useconds_t u) { tick(); now += u; return 0; }
unsigned int sleep(unsigned int s) { tick(); now += s * 1000000ULL; return 0; }
int nanosleep(const struct timespec *t, struct timespec *r) { tick(); now += t->tv_sec * 1000000ULL + t->tv_nsec / 1000; return 0; }
