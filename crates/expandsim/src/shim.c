/* Preloaded into real rustc processes: the randomness, clock and process id
   they see are decided by the simulator. */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdlib.h>
#include <sys/types.h>
#include <time.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>

static uint64_t s;
static int ready;
static uint64_t next(void) {
    if (!ready) {
        const char *e = getenv("SIM_HASH_SEED");
        s = e ? strtoull(e, 0, 10) : 0;
        ready = 1;
    }
    uint64_t z = __atomic_add_fetch(&s, 0x9E3779B97F4A7C15ull, __ATOMIC_RELAXED);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    (void)flags;
    unsigned char *b = buf;
    for (size_t i = 0; i < n; i++) b[i] = (unsigned char)(next() >> 24);
    return (ssize_t)n;
}
int getentropy(void *buf, size_t n) { return getrandom(buf, n, 0) < 0 ? -1 : 0; }
static long shift(void) {
    const char *e = getenv("SIM_CLOCK");
    return e ? atol(e) : 0;
}
int clock_gettime(clockid_t c, struct timespec *t) {
    int r = (int)syscall(SYS_clock_gettime, c, t);
    if (r == 0 && c == CLOCK_REALTIME) t->tv_sec += shift();
    return r;
}
time_t time(time_t *p) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (p) *p = t.tv_sec;
    return t.tv_sec;
}
pid_t getpid(void) {
    const char *e = getenv("SIM_PID");
    return e ? (pid_t)atol(e) : (pid_t)syscall(SYS_getpid);
}
