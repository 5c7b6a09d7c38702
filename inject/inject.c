/* LD_PRELOAD stand-ins for write(2), writev(2), getrandom(2) and everything a process can learn
 * about its surroundings, steered by the environment.
 *
 *   INJECT_PLAN  comma-separated FD:K:WHAT.  The K-th call (from 0) that writes to descriptor FD (or a duplicate of it)
 *                  Sn       transfers only n bytes (if it has more than n)
 *                  Hn       transfers all but n bytes (if it has more than n)
 *                  En       fails with errno n and transfers nothing
 *                  Z        returns 0
 *                K may be "*" (every call), "n+" (from the n-th on) or "%m" (every call whose
 *                number is a multiple of m)
 *   INJECT_LOG   a file to which a line "FD K LEN RESULT INJECTED" is added for every such call
 *   INJECT_SEED  a number from which every getrandom(2) answer is derived
 *   INJECT_ASKED a file to which a line is added for everything the process asks about:
 *                "env NAME", "file PATH", "time", "pid", "uid", "cpus", "host", "cwd", "window"
 *   INJECT_WORLD a number: time, process and user number, processors, host name, current directory
 *                and window size are those of an imaginary world of that number
 *   INJECT_FILES a text: every file that cannot be found exists and contains it
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <sched.h>
#include <stdarg.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/utsname.h>
#include <time.h>
#include <sys/uio.h>
#include <unistd.h>

static const char *own(const char *name);
enum { MAX = 64 };
static struct { int fd; char how; long k; char what; long arg; } plan[MAX];
static int n_plan, ready, log_fd = -1;
static long count[3];

static void setup(void) {
    if (ready) return;
    ready = 1;
    const char *p = own("INJECT_PLAN");
    while (p && *p && n_plan < MAX) {
        char *e;
        plan[n_plan].fd = (int)strtol(p, &e, 10);
        p = e + 1;
        if (*p == '*') { plan[n_plan].how = '*'; p++; }
        else if (*p == '%') { plan[n_plan].how = '%'; plan[n_plan].k = strtol(p + 1, &e, 10); p = e; }
        else {
            plan[n_plan].k = strtol(p, &e, 10);
            p = e;
            if (*p == '+') { plan[n_plan].how = '+'; p++; } else plan[n_plan].how = '=';
        }
        p++;
        plan[n_plan].what = *p++;
        plan[n_plan].arg = strtol(p, &e, 10);
        p = e;
        n_plan++;
        if (*p == ',') p++;
    }
    const char *l = own("INJECT_LOG");
    if (l) log_fd = (int)syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
}

/* 1 or 2 for a descriptor of the same file as standard output or standard error, however it was
 * come by (dup(2), /dev/stdout, /proc/self/fd); the two are different files here. */
static struct stat std_file[3];
static int std_known;
static int stream(int fd) {
    if (fd == 1 || fd == 2) return fd;
    if (fd < 0 || fd == log_fd) return 0;
    if (!std_known) {
        std_known = 1;
        for (int i = 1; i <= 2; i++)
            if (fstat(i, &std_file[i])) memset(&std_file[i], 0, sizeof std_file[i]);
    }
    struct stat st;
    int e = errno, r = 0;
    if (!fstat(fd, &st))
        for (int i = 1; i <= 2 && !r; i++)
            if (st.st_ino && st.st_ino == std_file[i].st_ino && st.st_dev == std_file[i].st_dev) r = i;
    errno = e;
    return r;
}

static ssize_t deliver(int real_fd, const struct iovec *v, int n) {
    setup();
    int fd = stream(real_fd);
    if (!fd) return syscall(SYS_writev, real_fd, v, (long)n);
    long k = count[fd]++;
    size_t len = 0;
    for (int i = 0; i < n; i++) len += v[i].iov_len;
    size_t want = len;
    int hit = 0, err = 0, zero = 0;
    if (len)
        for (int i = 0; i < n_plan && !hit; i++) {
            if (plan[i].fd != fd) continue;
            if (plan[i].how == '=' && k != plan[i].k) continue;
            if (plan[i].how == '+' && k < plan[i].k) continue;
            if (plan[i].how == '%' && (plan[i].k < 1 || k % plan[i].k)) continue;
            switch (plan[i].what) {
            case 'S': if (len > (size_t)plan[i].arg) { want = (size_t)plan[i].arg; hit = 1; } break;
            case 'H': if (len > (size_t)plan[i].arg) { want = len - (size_t)plan[i].arg; hit = 1; } break;
            case 'E': err = (int)plan[i].arg; hit = 1; break;
            case 'Z': zero = 1; hit = 1; break;
            }
        }
    ssize_t r;
    if (err) r = -1;
    else if (zero) r = 0;
    else {
        char small[4096], *buf = want <= sizeof small ? small : malloc(want);
        size_t at = 0;
        for (int i = 0; i < n && at < want; i++) {
            size_t c = v[i].iov_len < want - at ? v[i].iov_len : want - at;
            memcpy(buf + at, v[i].iov_base, c);
            at += c;
        }
        r = syscall(SYS_write, real_fd, buf, want);
        if (r < 0) err = errno;
        if (buf != small) free(buf);
    }
    if (log_fd >= 0) {
        char line[96];
        int m = snprintf(line, sizeof line, "%d %ld %zu %zd %d\n", fd, k, len, r, hit);
        syscall(SYS_write, log_fd, line, (long)m);
    }
    if (r < 0) errno = err;
    return r;
}

ssize_t write(int fd, const void *buf, size_t len) {
    struct iovec v = {(void *)buf, len};
    return deliver(fd, &v, 1);
}
ssize_t writev(int fd, const struct iovec *v, int n) { return deliver(fd, v, n); }
/* At a place of its own: the files are opened for appending, so only the bytes count. */
ssize_t pwrite(int fd, const void *buf, size_t len, off_t at) {
    setup();
    if (!stream(fd)) return syscall(SYS_pwrite64, fd, buf, len, at);
    return write(fd, buf, len);
}
ssize_t pwrite64(int fd, const void *buf, size_t len, off_t at) { return pwrite(fd, buf, len, at); }
ssize_t getrandom(void *buf, size_t len, unsigned flags) {
    const char *s = own("INJECT_SEED");
    if (!s) return syscall(SYS_getrandom, buf, len, flags);
    unsigned long long x = strtoull(s, NULL, 10);
    unsigned char *b = buf;
    for (size_t i = 0; i < len; i++) {
        if (i % 8 == 0) {
            /* splitmix64 */
            unsigned long long z = (x += 0x9e3779b97f4a7c15ULL);
            z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
            z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
            z ^= z >> 31;
            memcpy(b + i, &z, len - i < 8 ? len - i : 8);
        }
    }
    return (ssize_t)len;
}

/* ---- the surroundings */

extern char **environ;
static const char *own(const char *name) {
    size_t n = strlen(name);
    for (char **e = environ; e && *e; e++)
        if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
    return NULL;
}
static int asked_fd = -2;
static void asked(const char *what, const char *name) {
    int e = errno;
    if (asked_fd == -2) {
        const char *f = own("INJECT_ASKED");
        asked_fd = f ? (int)syscall(SYS_openat, AT_FDCWD, f, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600) : -1;
    }
    if (asked_fd >= 0) {
        char line[512];
        int m = snprintf(line, sizeof line, "%s %s\n", what, name);
        if (m >= (int)sizeof line) m = sizeof line - 1;
        syscall(SYS_write, asked_fd, line, (long)m);
    }
    errno = e;
}
/* -1: the real world */
static long world(void) {
    const char *w = own("INJECT_WORLD");
    return w ? strtol(w, NULL, 10) : -1;
}

char *getenv(const char *name) {
    if (strncmp(name, "INJECT_", 7)) asked("env", name);
    return (char *)own(name);
}
char *secure_getenv(const char *name) { return getenv(name); }

int clock_gettime(clockid_t id, struct timespec *ts) {
    asked("time", "");
    long w = world();
    if (w < 0) return (int)syscall(SYS_clock_gettime, id, ts);
    static const long long start[] = {0, 1, 951782399, 1078012800, 1700000000, 2147483647, 4102444799, 253402300799};
    static const long nano[] = {0, 999999999, 1, 500000000, 123456789};
    static const long long step[] = {0, 1, 3600, 86400 * 366};
    static long calls;
    ts->tv_sec = start[w % 8] + step[w / 8 % 4] * calls;
    ts->tv_nsec = nano[w % 5];
    calls++;
    return 0;
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
    struct timespec ts;
    (void)tz;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *t) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}

static const int numbers[] = {1, 2, 3, 1000, 1001, 4194303, 65536, 32767};
pid_t getpid(void) {
    asked("pid", "");
    long w = world();
    return w < 0 ? (pid_t)syscall(SYS_getpid) : numbers[w % 8];
}
pid_t getppid(void) {
    asked("pid", "parent");
    long w = world();
    return w < 0 ? (pid_t)syscall(SYS_getppid) : numbers[(w + 3) % 8];
}
#define ID(f, call)                                              \
    unsigned f(void) {                                           \
        asked("uid", "");                                        \
        long w = world();                                        \
        return w < 0 ? (unsigned)syscall(call) : w % 2 ? 0 : 1000; \
    }
ID(getuid, SYS_getuid)
ID(geteuid, SYS_geteuid)
ID(getgid, SYS_getgid)
ID(getegid, SYS_getegid)

int sched_getaffinity(pid_t pid, size_t size, cpu_set_t *set) {
    asked("cpus", "");
    long w = world();
    if (w < 0) {
        long r = syscall(SYS_sched_getaffinity, pid, size, set);
        if (r < 0) return -1;
        if ((size_t)r < size) memset((char *)set + r, 0, size - (size_t)r);
        return 0;
    }
    memset(set, 0, size);
    for (long i = 0; i <= w % 3 * 7 && i < (long)size * 8; i++) ((unsigned char *)set)[i / 8] |= (unsigned char)(1 << i % 8);
    return 0;
}

int gethostname(char *name, size_t len) {
    asked("host", "");
    struct utsname u;
    if (uname(&u)) return -1;
    snprintf(name, len, "%s", u.nodename);
    return 0;
}
int uname(struct utsname *u) {
    asked("host", "");
    long w = world();
    if (syscall(SYS_uname, u)) return -1;
    if (w >= 0) snprintf(u->nodename, sizeof u->nodename, "host%ld", w);
    return 0;
}

char *getcwd(char *buf, size_t size) {
    asked("cwd", "");
    long w = world();
    if (w < 0 || !buf) {
        char own_buf[4096];
        if (!buf) { buf = malloc(size ? size : 4096); if (!size) size = 4096; }
        long r = syscall(SYS_getcwd, own_buf, sizeof own_buf);
        if (r < 0) return NULL;
        if ((size_t)r > size) { errno = ERANGE; return NULL; }
        memcpy(buf, own_buf, (size_t)r);
        return buf;
    }
    static const char *dirs[] = {"/", "/home/user", "/10.0.0.0/8", "/tmp/-m"};
    const char *d = dirs[w % 4];
    if (strlen(d) >= size) { errno = ERANGE; return NULL; }
    return strcpy(buf, d);
}

int ioctl(int fd, unsigned long req, ...) {
    va_list ap;
    va_start(ap, req);
    void *arg = va_arg(ap, void *);
    va_end(ap);
    if (req == TIOCGWINSZ) {
        asked("window", "");
        long w = world();
        if (w >= 0) {
            static const unsigned short cols[] = {80, 1, 0, 40, 132, 65535};
            struct winsize ws = {(unsigned short)(w % 2 ? 24 : 1), cols[w % 6], 0, 0};
            *(struct winsize *)arg = ws;
            return 0;
        }
    }
    return (int)syscall(SYS_ioctl, fd, req, arg);
}

static int imaginary(void) {
    const char *text = own("INJECT_FILES");
    if (!text) return -1;
    int fd = (int)syscall(SYS_memfd_create, "imaginary", MFD_CLOEXEC);
    if (fd < 0) return -1;
    syscall(SYS_write, fd, text, strlen(text));
    syscall(SYS_lseek, fd, 0L, SEEK_SET);
    return fd;
}
static int opened(int dir, const char *path, int flags, mode_t mode) {
    asked("file", path);
    long fd = syscall(SYS_openat, dir, path, flags, mode);
    if (fd < 0 && errno == ENOENT && (flags & O_ACCMODE) == O_RDONLY) {
        int i = imaginary();
        if (i >= 0) return i;
        errno = ENOENT;
    }
    return (int)fd;
}
#define MODE(last)                                  \
    mode_t mode = 0;                                \
    if (flags & (O_CREAT | __O_TMPFILE)) {          \
        va_list ap;                                 \
        va_start(ap, last);                         \
        mode = (mode_t)va_arg(ap, int);             \
        va_end(ap);                                 \
    }
int open(const char *path, int flags, ...) { MODE(flags) return opened(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE(flags) return opened(AT_FDCWD, path, flags, mode); }
int openat(int dir, const char *path, int flags, ...) { MODE(flags) return opened(dir, path, flags, mode); }
int openat64(int dir, const char *path, int flags, ...) { MODE(flags) return opened(dir, path, flags, mode); }

int statx(int dir, const char *restrict path, int flags, unsigned mask, struct statx *restrict st) {
    if (path && *path) asked("file", path);
    long r = syscall(SYS_statx, dir, path, flags, mask, st);
    if (r < 0 && errno == ENOENT) {
        int i = imaginary();
        if (i >= 0) {
            r = syscall(SYS_statx, i, "", AT_EMPTY_PATH, mask, st);
            syscall(SYS_close, i);
        } else errno = ENOENT;
    }
    return (int)r;
}
