/* The compiler's world: entropy, clocks, identity and address layout, all decided by SIM_WORLD.
   Preloaded into rustc, whose process also runs the procedural macros. */
#define _GNU_SOURCE
#include <errno.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <sched.h>

static uint64_t seed, state;
static long long clock_base, clock_step, now_;
static int short_reads, again, pid_, env_, cpus_;
static unsigned long n_random, n_short, n_again, n_clock, n_pid, n_env;
static int lock_;
static void lock(void) { while (__atomic_exchange_n(&lock_, 1, __ATOMIC_ACQUIRE)) ; }
static void unlock(void) { __atomic_store_n(&lock_, 0, __ATOMIC_RELEASE); }

static uint64_t next(void) {
    state += 0x9e3779b97f4a7c15ull;
    uint64_t z = state;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

extern char **environ;
static char *real_env(const char *name) {
    size_t n = strlen(name);
    for (char **e = environ; e && *e; e++)
        if (!strncmp(*e, name, n) && (*e)[n] == '=')
            return *e + n + 1;
    return 0;
}

/* Variables nobody set: this world has some of them, whatever they are called. Those that configure the compiler it has not. */
char *getenv(const char *name) {
    static char *const values[] = {"1", "0", "", "true", "/nonexistent", "release", "sim"};
    static const char *const own[] = {"RUST", "LD_", "SIM_", "MALLOC", "LLVM", "PATH", "TMP", "LC_", "LANG", "GLIBC", "CARGO_ENCODED",
                                      "SOURCE_DATE", "UNSTABLE", "SDKROOT", "TERM", "COLUMNS", "NO_COLOR"};
    char *v = real_env(name);
    if (v || !env_)
        return v;
    for (size_t i = 0; i < sizeof own / sizeof *own; i++)
        if (!strncmp(name, own[i], strlen(own[i])))
            return 0;
    uint64_t h = seed ^ 0xcbf29ce484222325ull;
    for (const char *c = name; *c; c++)
        h = (h ^ (unsigned char)*c) * 0x100000001b3ull;
    h ^= h >> 29;
    if (h % 2)
        return 0;
    __atomic_add_fetch(&n_env, 1, __ATOMIC_RELAXED);
    return values[(h >> 8) % (sizeof values / sizeof *values)];
}
char *secure_getenv(const char *name) { return getenv(name); }

int sched_getaffinity(pid_t pid, size_t size, cpu_set_t *set) {
    (void)pid;
    memset(set, 0, size);
    for (int i = 0; i < (cpus_ ? cpus_ : 4) && (size_t)i < size * 8; i++)
        CPU_SET_S(i, size, set);
    return 0;
}
int gethostname(char *name, size_t len) {
    snprintf(name, len, "sim%d", (int)(seed % 1000));
    return 0;
}
uid_t getuid(void) { return seed % 3 ? 1000 : 0; }

__attribute__((constructor)) static void start(void) {
    const char *w = real_env("SIM_WORLD");
    unsigned long long s = 1, shift = 0;
    clock_base = 1000000000;
    clock_step = 1;
    if (w)
        sscanf(w, "%llu,%d,%d,%lld,%lld,%d,%llu,%d,%d", &s, &short_reads, &again, &clock_base, &clock_step, &pid_, &shift, &env_, &cpus_);
    seed = state = s;
    now_ = 0;
    /* everything mapped from here on lies elsewhere */
    if (shift)
        mmap(0, (size_t)shift * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (shift)
        sbrk((intptr_t)(shift % 257) * 4096);
}

__attribute__((destructor)) static void report(void) {
    const char *f = real_env("SIM_REPORT");
    if (!f)
        return;
    int fd = open(f, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd < 0)
        return;
    dprintf(fd, "%lu %lu %lu %lu %lu %lu\n", n_random, n_short, n_again, n_clock, n_pid, n_env);
    close(fd);
}

ssize_t getrandom(void *buf, size_t len, unsigned flags) {
    (void)flags;
    lock();
    n_random++;
    if (again > 0) {
        again--;
        n_again++;
        unlock();
        errno = EINTR;
        return -1;
    }
    if (short_reads && len > 1) {
        len = 1 + next() % (len - 1);
        n_short++;
    }
    unsigned char *p = buf;
    for (size_t i = 0; i < len; i++)
        p[i] = (unsigned char)(next() >> 32);
    unlock();
    return (ssize_t)len;
}
int getentropy(void *buf, size_t len) {
    lock();
    n_random++;
    for (size_t i = 0; i < len; i++)
        ((unsigned char *)buf)[i] = (unsigned char)(next() >> 32);
    unlock();
    return 0;
}
/* Nanoseconds since the epoch of this world: steps by itself, jumps now and then. */
static long long tick(void) {
    lock();
    n_clock++;
    now_ += clock_step;
    long long t = clock_base * 1000000000ll + now_;
    if (t < 0)
        t = 0;
    unlock();
    return t;
}
int clock_gettime(clockid_t c, struct timespec *t) {
    long long n = tick();
    (void)c;
    t->tv_sec = n / 1000000000;
    t->tv_nsec = n % 1000000000;
    return 0;
}
int gettimeofday(struct timeval *t, void *z) {
    long long n = tick();
    (void)z;
    t->tv_sec = n / 1000000000;
    t->tv_usec = n % 1000000000 / 1000;
    return 0;
}
time_t time(time_t *t) {
    time_t n = tick() / 1000000000;
    if (t)
        *t = n;
    return n;
}
pid_t getpid(void) {
    __atomic_add_fetch(&n_pid, 1, __ATOMIC_RELAXED);
    return pid_ ? pid_ : 4242;
}
