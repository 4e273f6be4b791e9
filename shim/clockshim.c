/* LD_PRELOAD: CLOCK_REALTIME under the control of the harness.
 * VH_CLOCK names a 16 byte file, mapped shared: int64 mode, int64 nanoseconds.
 * mode 0: real time, 1: frozen at value, 2: real time + value.
 * VH_DELAY="p us": with probability p/1000 a reading of CLOCK_REALTIME takes up to us microseconds
 * longer; the commands read the clock between looking at a key and changing it. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdint.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static volatile int64_t *ctl;
static unsigned delay_p, delay_us;
static __thread uint64_t rnd;

static void delay(void) {
    if (!rnd) rnd = (uint64_t)syscall(SYS_gettid) * 0x9E3779B97F4A7C15ull + 1;
    rnd ^= rnd << 13;
    rnd ^= rnd >> 7;
    rnd ^= rnd << 17;
    if ((rnd >> 20) % 1000 >= delay_p) return;
    unsigned us = (rnd >> 32) % (delay_us + 1);
    struct timespec t = {0, us * 1000L};
    syscall(SYS_nanosleep, &t, 0);
}

__attribute__((constructor)) static void init(void) {
    const char *d = getenv("VH_DELAY");
    if (d) {
        char *e;
        delay_p = strtoul(d, &e, 10);
        delay_us = strtoul(e, 0, 10);
    }
    const char *p = getenv("VH_CLOCK");
    if (!p) return;
    int fd = open(p, O_RDWR);
    if (fd < 0) return;
    void *m = mmap(0, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    if (m != MAP_FAILED) ctl = m;
}

static int real(clockid_t c, struct timespec *t) { return (int)syscall(SYS_clock_gettime, c, t); }

int clock_gettime(clockid_t c, struct timespec *t) {
    if (c == CLOCK_REALTIME && delay_p) delay();
    int r = real(c, t);
    if (r == 0 && c == CLOCK_REALTIME && ctl) {
        int64_t mode = __atomic_load_n(&ctl[0], __ATOMIC_SEQ_CST);
        int64_t v = __atomic_load_n(&ctl[1], __ATOMIC_SEQ_CST);
        if (mode == 1) {
            t->tv_sec = v / 1000000000;
            t->tv_nsec = v % 1000000000;
        } else if (mode == 2) {
            int64_t n = (int64_t)t->tv_sec * 1000000000 + t->tv_nsec + v;
            t->tv_sec = n / 1000000000;
            t->tv_nsec = n % 1000000000;
        }
    }
    return r;
}
