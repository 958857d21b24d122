/* What the extension learns from the C library about its surroundings, replaced by something odd. Loaded before
 * everything else (LD_PRELOAD); only calls whose return address lies in the extension are answered by this file,
 * Python's own go through. Each kind of question, with its name, is written once to the file SURROUNDINGS_LOG.
 *
 * All answers are ones that a machine could give: variables that are set, files that exist, clocks that were set
 * to another year, other process and user numbers, more or fewer processors. */
#undef _FORTIFY_SOURCE
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

#define EXPORT __attribute__((visibility("default")))
#define NEXT(type, name, ...) \
    static type (*next)(__VA_ARGS__); \
    if (!next) next = (type (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)
#define ASKED() extension(__builtin_return_address(0))

static unsigned seed;
static const char *watched = "unicode_intervals";
static int on, log_fd = -1;
static char asked[256][64];
static unsigned n_asked;

static const char *const TEXTS[] = {"1", "0", "", "true", "9.0.0", "12.1.0", "9.0.0", "Lu", "13.0.0", "\xff\xfe", "-1", "a=b", "99999999999999999999", "/"};
enum { N_TEXTS = sizeof TEXTS / sizeof *TEXTS };

/* What canary.c asks is answered, but not written down. */
static __thread int canary;

static unsigned mix(unsigned x) {
    x ^= seed * 2654435761u;
    x ^= x >> 16;
    x *= 0x7feb352du;
    x ^= x >> 15;
    x *= 0x846ca68bu;
    return x ^ x >> 16;
}

static unsigned of_text(const char *s) {
    unsigned h = 5381;
    while (*s) h = h * 33 + (unsigned char)*s++;
    return mix(h);
}

static int extension(const void *address) {
    /* The text of the extension does not move once it is there. */
    static size_t known[64]; /* page, and the answer in the lowest bits */
    if (!on) return 0;
    size_t page = (size_t)address & ~(size_t)4095;
    size_t *slot = &known[page >> 12 & 63];
    size_t now = __atomic_load_n(slot, __ATOMIC_RELAXED);
    if ((now & ~(size_t)4095) == page) {
        canary = now >> 1 & 1;
        return (int)(now & 1);
    }
    Dl_info info;
    int saved = errno;
    int answer = dladdr(address, &info) && info.dli_fname && strstr(info.dli_fname, watched) != NULL;
    errno = saved;
    canary = answer && strstr(info.dli_fname, "canary");
    __atomic_store_n(slot, page | (size_t)answer | (size_t)canary << 1, __ATOMIC_RELAXED);
    return answer;
}

static void note(const char *kind, const char *name) {
    char line[64];
    if (canary) return;
    snprintf(line, sizeof line - 1, "%s %.40s", kind, name);
    for (unsigned i = 0; i < 256 && i < n_asked; i++)
        if (!strcmp(asked[i], line)) return;
    unsigned at = __atomic_fetch_add(&n_asked, 1, __ATOMIC_RELAXED);
    if (at >= 256) return;
    strcpy(asked[at], line);
    if (log_fd >= 0) {
        int saved = errno;
        strcat(line, "\n");
        if (write(log_fd, line, strlen(line)) < 0) errno = saved;
        errno = saved;
    }
}

__attribute__((constructor)) static void start(void) {
    const char *s = getenv("SURROUNDINGS_SEED"), *path = getenv("SURROUNDINGS_LOG"), *name = getenv("SURROUNDINGS_NAME");
    if (!s) return;
    seed = (unsigned)atol(s);
    if (name) watched = name;
    if (path) {
        int fd = open(path, O_WRONLY | O_CREAT | O_APPEND, 0600);
        if (fd >= 0) {
            log_fd = fcntl(fd, F_DUPFD_CLOEXEC, 900);
            close(fd);
        }
    }
    on = 1;
}

static char *variable(const char *name, char *real) {
    note("variable", name);
    /* The size of stacks is no matter of taste. */
    if (!strcmp(name, "RUST_MIN_STACK")) return real;
    if (real && mix(of_text(name)) % 2) return real;
    unsigned k = of_text(name) % (N_TEXTS + 1);
    return k == N_TEXTS ? NULL : (char *)TEXTS[k];
}

EXPORT char *getenv(const char *name) {
    NEXT(char *, getenv, const char *);
    char *real = next(name);
    return ASKED() ? variable(name, real) : real;
}

EXPORT char *secure_getenv(const char *name) {
    NEXT(char *, secure_getenv, const char *);
    char *real = next(name);
    return ASKED() ? variable(name, real) : real;
}

static long long year(void) {
    /* 1970, 1999, today, 2038, 2106, 2500. */
    static const long long TIMES[] = {1, 915148800, 0, 2147483650LL, 4294967300LL, 16725225600LL};
    return TIMES[mix(7) % 6];
}

EXPORT int clock_gettime(clockid_t id, struct timespec *t) {
    NEXT(int, clock_gettime, clockid_t, struct timespec *);
    int rc = next(id, t);
    if (rc == 0 && ASKED()) {
        static __thread unsigned calls;
        static __thread long long jumps;
        note("clock", id == CLOCK_REALTIME ? "of the day" : "other");
        jumps += mix(calls++) % 4 ? 0 : 1000000;
        if (id == CLOCK_REALTIME) {
            if (year()) t->tv_sec = year();
        } else {
            t->tv_sec += jumps;
        }
    }
    return rc;
}

EXPORT time_t time(time_t *out) {
    NEXT(time_t, time, time_t *);
    time_t t = next(NULL);
    if (ASKED()) {
        note("clock", "time");
        if (year()) t = year();
    }
    if (out) *out = t;
    return t;
}

EXPORT int gettimeofday(struct timeval *restrict t, void *restrict zone) {
    NEXT(int, gettimeofday, struct timeval *, void *);
    int rc = next(t, zone);
    if (rc == 0 && ASKED()) {
        note("clock", "gettimeofday");
        if (year()) t->tv_sec = year();
    }
    return rc;
}

#define NUMBER(type, name) \
    EXPORT type name(void) { \
        NEXT(type, name, void); \
        type real = next(); \
        if (!ASKED()) return real; \
        note("number", #name); \
        static const type ODD[] = {(type)1, (type)2, (type)65535, (type)4194303, (type)1000}; \
        unsigned k = mix((unsigned)sizeof #name) % 6; \
        return k == 5 ? real : ODD[k]; \
    }
NUMBER(pid_t, getpid)
NUMBER(pid_t, getppid)
NUMBER(uid_t, getuid)
NUMBER(uid_t, geteuid)
NUMBER(gid_t, getgid)

EXPORT int sched_getaffinity(pid_t pid, size_t size, cpu_set_t *set) {
    NEXT(int, sched_getaffinity, pid_t, size_t, cpu_set_t *);
    int rc = next(pid, size, set);
    if (rc >= 0 && ASKED()) {
        static const unsigned MANY[] = {1, 2, 3, 64, 256};
        unsigned n = MANY[mix(11) % 5];
        note("processors", "affinity");
        memset(set, 0, size);
        for (unsigned i = 0; i < n && i < size * 8; i++) ((unsigned char *)set)[i / 8] |= (unsigned char)(1 << i % 8);
    }
    return rc;
}

EXPORT int isatty(int fd) {
    NEXT(int, isatty, int);
    int real = next(fd);
    if (!ASKED()) return real;
    note("terminal", "isatty");
    return mix((unsigned)fd + 90) % 2;
}

EXPORT ssize_t getrandom(void *p, size_t n, unsigned flags) {
    NEXT(ssize_t, getrandom, void *, size_t, unsigned);
    ssize_t got = next(p, n, flags);
    if (got > 0 && ASKED()) {
        note("random bytes", "getrandom");
        if (mix(13) % 3) memset(p, mix(13) % 3 == 1 ? 0 : 0xff, (size_t)got);
    }
    return got;
}

static int invented(const char *path, int real) {
    note(real < 0 ? "missing file" : "file", path);
    if (real >= 0 || errno != ENOENT || !(of_text(path) % 2)) return real;
    int fd = memfd_create("surroundings", MFD_CLOEXEC);
    const char *text = TEXTS[of_text(path) / 2 % N_TEXTS];
    if (fd >= 0 && (write(fd, text, strlen(text)) < 0 || lseek(fd, 0, SEEK_SET) < 0)) return fd;
    return fd;
}

#define OPEN(name) \
    EXPORT int name(const char *path, int flags, ...) { \
        NEXT(int, name, const char *, int, ...); \
        va_list rest; \
        va_start(rest, flags); \
        int mode = flags & (O_CREAT | O_TMPFILE) ? va_arg(rest, int) : 0; \
        va_end(rest); \
        int fd = next(path, flags, mode); \
        return ASKED() && !(flags & O_CREAT) ? invented(path, fd) : fd; \
    }
OPEN(open)
OPEN(open64)

EXPORT int statx(int dir, const char *restrict path, int flags, unsigned mask, struct statx *restrict s) {
    NEXT(int, statx, int, const char *, int, unsigned, struct statx *);
    int rc = next(dir, path, flags, mask, s);
    if (rc < 0 && errno == ENOENT && ASKED() && *path) {
        note("missing file", path);
        if (of_text(path) % 2) rc = next(AT_FDCWD, "/dev/null", 0, mask, s);
    }
    return rc;
}
