// Interposes libc calls of the server under test (linked with -Wl,--wrap=...).
// A control page shared with the driver holds the virtual clock, the reported
// resident size and the fault to inject.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

struct ctl {
    _Atomic int64_t magic;      // 0
    _Atomic int64_t vclock;     // 1: use the virtual clock
    _Atomic int64_t boot_ns;    // 2
    _Atomic int64_t real_ns;    // 3
    _Atomic int64_t rss_pages;  // 4: 0 = real
    _Atomic int64_t ticks;      // 5: sleep(1) calls so far
    _Atomic int64_t alloced;    // 6: live heap bytes at the last tick
    _Atomic int64_t f_mode;     // 7: 0 none 1 error 2 short 3 kill before 4 kill half way 5 kill after 6 error from here on
    _Atomic int64_t f_at;       // 8: index of the call to fail (from 1)
    _Atomic int64_t f_errno;    // 9
    _Atomic int64_t f_count;    // 10: calls seen
    _Atomic int64_t f_fired;    // 11
    _Atomic int64_t f_arm;      // 12: count and inject only when set
    _Atomic int64_t th_fail;    // 13: fail this many of the next pthread_create calls
    _Atomic int64_t th_skip;    // 14: after letting this many pass
    _Atomic int64_t th_fired;   // 15
    _Atomic int64_t sleepers;   // 16: threads in a virtual sleep >= 2 s
    _Atomic int64_t maxrd;      // 17: largest read() on a socket when > 0
    _Atomic int64_t rss_reads;  // 18: times the resident size was read
    _Atomic int64_t spare[13];
    char f_kinds[512];          // letters of the calls seen
    char f_path[512];           // only files whose path contains this
};

static struct ctl *C;
static struct ctl none;
static unsigned char tracked[65536];
size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));

__attribute__((constructor)) static void init(void) {
    C = &none;
    const char *p = getenv("POGO_CTL");
    if (!p) return;
    int fd = open(p, O_RDWR);
    if (fd < 0) return;
    void *m = mmap(0, 4096, PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    if (m != MAP_FAILED) C = m;
}

int __real_clock_gettime(clockid_t c, struct timespec *ts);
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) {
    if (!C || !C->vclock || (c != CLOCK_BOOTTIME && c != CLOCK_REALTIME &&
        c != CLOCK_MONOTONIC && c != CLOCK_MONOTONIC_RAW && c != CLOCK_REALTIME_COARSE && c != CLOCK_MONOTONIC_COARSE))
        return __real_clock_gettime(c, ts);
    int64_t t = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? C->real_ns : C->boot_ns;
    ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000;
    return 0;
}
time_t __real_time(time_t *t);
time_t __wrap_time(time_t *t) {
    if (!C->vclock) return __real_time(t);
    time_t x = C->real_ns / 1000000000;
    if (t) *t = x;
    return x;
}
int __real_gettimeofday(struct timeval *tv, void *tz);
int __wrap_gettimeofday(struct timeval *tv, void *tz) {
    if (!C->vclock) return __real_gettimeofday(tv, tz);
    tv->tv_sec = C->real_ns / 1000000000; tv->tv_usec = C->real_ns / 1000 % 1000000;
    return 0;
}
int __real_usleep(useconds_t us);
static void vsleep(double secs) {
    int64_t until = C->boot_ns + (int64_t)(secs*1e9);
    C->sleepers++;
    while (C->boot_ns < until) __real_usleep(500);
    C->sleepers--;
}
unsigned __real_sleep(unsigned n);
unsigned __wrap_sleep(unsigned n) {
    if (C == &none) return __real_sleep(n);
    if (n >= 2 && C->vclock) { vsleep(n); return 0; }
    if (__sanitizer_get_current_allocated_bytes) C->alloced = __sanitizer_get_current_allocated_bytes();
    __real_usleep(2000);
    C->ticks++;
    return 0;
}
int __wrap_usleep(useconds_t us) { return __real_usleep(C != &none && us > 2000 ? 2000 : us); }
int __wrap_nanosleep(const struct timespec *r, struct timespec *m) {
    (void)m; 
    if (C != &none && r->tv_sec >= 2 && C->vclock) { vsleep(r->tv_sec + r->tv_nsec/1e9); return 0; }
    uint64_t us = r->tv_sec*1000000ull + r->tv_nsec/1000;
    if (C != &none && us > 2000) { us = 2000; C->ticks += r->tv_sec == 1; }
    return __real_usleep(us);
}
int __wrap_clock_nanosleep(clockid_t c, int fl, const struct timespec *r, struct timespec *m) {
    (void)c; (void)fl;
    return __wrap_nanosleep(r, m);
}

// faults ---------------------------------------------------------------------
static int hit(char kind) { // returns the mode when this call is to fail
    if (!C->f_arm) return 0;
    int64_t n = ++C->f_count;
    if (n < (int64_t)sizeof(C->f_kinds)) C->f_kinds[n-1] = kind;
    int64_t m = C->f_mode;
    if (!m) return 0;
    if (n == C->f_at || (m == 6 && n >= C->f_at)) { C->f_fired++; return m == 6 ? 1 : m; }
    return 0;
}
static void die(void) { kill(getpid(), SIGKILL); for (;;) __real_usleep(1000); }
#define FAULT(kind, half) do { int m_ = hit(kind); \
    if (m_ == 1) { errno = C->f_errno; return -1; } \
    if (m_ == 3) die(); \
    if (m_ == 4) { half; die(); } \
    dieafter = m_ == 5; shortw = m_ == 2; } while (0)

static int is_tracked_path(const char *p) { return C->f_path[0] && strstr(p, C->f_path); }
static int is_tracked(int fd) { return fd >= 0 && fd < 65536 && tracked[fd]; }

static int memfile(const char *p) {
    if (!C->rss_pages || strncmp(p, "/proc/self/stat", 15)) return -1;
    char b[2048];
    if (!strcmp(p, "/proc/self/statm")) snprintf(b, sizeof b, "%lld %lld 0 0 0 0 0\n", (long long)C->rss_pages*4, (long long)C->rss_pages);
    else if (!strcmp(p, "/proc/self/status")) snprintf(b, sizeof b, "VmSize:\t%lld kB\nVmRSS:\t%lld kB\n", (long long)C->rss_pages*16, (long long)C->rss_pages*4);
    else return -1;
    int fd = memfd_create("rss", 0);
    C->rss_reads++;
    if (fd < 0 || write(fd, b, strlen(b)) < 0 || lseek(fd, 0, SEEK_SET) < 0) return -1;
    return fd;
}
FILE *__real_fopen(const char *p, const char *m);
FILE *__wrap_fopen(const char *p, const char *m) {
    int fd = memfile(p);
    if (fd >= 0) return fdopen(fd, m);
    return __real_fopen(p, m);
}
static int open_common(const char *p, int fd, int dieafter) {
    if (fd >= 0 && fd < 65536) tracked[fd] = is_tracked_path(p) != 0;
    if (dieafter) die();
    return fd;
}
int __real_open(const char *p, int fl, mode_t mode);
int __wrap_open(const char *p, int fl, ...) {
    va_list ap; va_start(ap, fl); mode_t mode = fl & (O_CREAT|O_TMPFILE) ? va_arg(ap, int) : 0; va_end(ap);
    int mf = memfile(p), dieafter = 0, shortw = 0;
    if (mf >= 0) return mf;
    if (is_tracked_path(p)) FAULT('o', );
    (void)shortw;
    return open_common(p, __real_open(p, fl, mode), dieafter);
}
int __wrap_open64(const char *p, int fl, ...) {
    va_list ap; va_start(ap, fl); mode_t mode = fl & (O_CREAT|O_TMPFILE) ? va_arg(ap, int) : 0; va_end(ap);
    return __wrap_open(p, fl, mode);
}
int __real_openat(int d, const char *p, int fl, mode_t mode);
int __wrap_openat(int d, const char *p, int fl, ...) {
    va_list ap; va_start(ap, fl); mode_t mode = fl & (O_CREAT|O_TMPFILE) ? va_arg(ap, int) : 0; va_end(ap);
    int dieafter = 0, shortw = 0; (void)shortw;
    if (is_tracked_path(p)) FAULT('o', );
    return open_common(p, __real_openat(d, p, fl, mode), dieafter);
}
int __real_creat(const char *p, mode_t mode);
int __wrap_creat(const char *p, mode_t mode) { return __wrap_open(p, O_CREAT|O_WRONLY|O_TRUNC, mode); }
ssize_t __real_write(int fd, const void *b, size_t n);
ssize_t __wrap_write(int fd, const void *b, size_t n) {
    int dieafter = 0, shortw = 0;
    if (is_tracked(fd)) FAULT('w', __real_write(fd, b, n/2) < 0);
    if (shortw && n > 1) n = n/2;
    ssize_t r = __real_write(fd, b, n);
    if (dieafter) die();
    return r;
}
ssize_t __real_pwrite(int fd, const void *b, size_t n, off_t o);
ssize_t __wrap_pwrite(int fd, const void *b, size_t n, off_t o) {
    int dieafter = 0, shortw = 0;
    if (is_tracked(fd)) FAULT('w', __real_pwrite(fd, b, n/2, o) < 0);
    if (shortw && n > 1) n = n/2;
    ssize_t r = __real_pwrite(fd, b, n, o);
    if (dieafter) die();
    return r;
}
ssize_t __real_writev(int fd, const struct iovec *v, int k);
ssize_t __wrap_writev(int fd, const struct iovec *v, int k) {
    int dieafter = 0, shortw = 0;
    if (is_tracked(fd)) FAULT('w', );
    if (shortw && k > 1) k = k/2;
    ssize_t r = __real_writev(fd, v, k);
    if (dieafter) die();
    return r;
}
ssize_t __real_read(int fd, void *b, size_t n);
ssize_t __wrap_read(int fd, void *b, size_t n) {
    if (is_tracked(fd)) {
        int dieafter = 0, shortw = 0;
        FAULT('r', );
        if (shortw && n > 1) n = n/2;
        (void)dieafter;
    } else if (C->maxrd > 0 && n > (size_t)C->maxrd && n >= 4096) {
        n = C->maxrd;
    }
    return __real_read(fd, b, n);
}
int __real_fsync(int fd);
int __wrap_fsync(int fd) {
    int dieafter = 0, shortw = 0; (void)shortw;
    if (is_tracked(fd)) FAULT('s', );
    int r = __real_fsync(fd);
    if (dieafter) die();
    return r;
}
int __real_fdatasync(int fd);
int __wrap_fdatasync(int fd) {
    int dieafter = 0, shortw = 0; (void)shortw;
    if (is_tracked(fd)) FAULT('s', );
    int r = __real_fdatasync(fd);
    if (dieafter) die();
    return r;
}
int __real_ftruncate(int fd, off_t n);
int __wrap_ftruncate(int fd, off_t n) {
    int dieafter = 0, shortw = 0; (void)shortw;
    if (is_tracked(fd)) FAULT('t', );
    int r = __real_ftruncate(fd, n);
    if (dieafter) die();
    return r;
}
int __real_rename(const char *a, const char *b);
int __wrap_rename(const char *a, const char *b) {
    int dieafter = 0, shortw = 0; (void)shortw;
    if (is_tracked_path(a) || is_tracked_path(b)) FAULT('n', );
    int r = __real_rename(a, b);
    if (dieafter) die();
    return r;
}
int __real_unlink(const char *a);
int __wrap_unlink(const char *a) {
    int dieafter = 0, shortw = 0; (void)shortw;
    if (is_tracked_path(a)) FAULT('u', );
    int r = __real_unlink(a);
    if (dieafter) die();
    return r;
}
int __real_close(int fd);
int __wrap_close(int fd) {
    int dieafter = 0, shortw = 0; (void)shortw;
    int t = is_tracked(fd);
    if (fd >= 0 && fd < 65536) tracked[fd] = 0;
    if (t) {
        int m = hit('c');
        if (m == 1) { __real_close(fd); errno = C->f_errno; return -1; }
        if (m == 3 || m == 4) die();
        dieafter = m == 5;
    }
    int r = __real_close(fd);
    if (dieafter) die();
    return r;
}
int __real_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void*), void *u);
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void*), void *u) {
    if (C->th_fail > 0) {
        if (C->th_skip > 0) C->th_skip--;
        else { C->th_fail--; C->th_fired++; return EAGAIN; }
    }
    return __real_pthread_create(t, a, f, u);
}
