// Preloaded into the decoder program (P05): its calls on the given file, on standard output and for
// memory are numbered in their order and written to a log; those a plan names fail as it says.
//
//   FAULTS_FILE   last part of the given file's name
//   FAULTS_LOG    path of the log: one line "CLASS RESULT" per call, CLASS one of o r w s m
//   FAULTS_CLASS  the classes that are counted
//   FAULTS_PLAN   "INDEX ACTION[+],..." with ACTION eN (fails with errno N), sN (does at most N octets),
//                 z (does nothing), k (the process is killed); + also at every later call of the class
//   FAULTS_ANSWER every variable the program asks for has this value (P03)
//   FAULTS_TTY    1: every descriptor is said to be a terminal, 0: none (P03)
//   FAULTS_EACH   i: every call is interrupted once first; 1: every read and write does one octet
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <asm/termbits.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);

#define MAX 16
static struct { long at; char act; long arg; int on; char class; } plan[MAX];
static int n_plan, on, log_fd = -1, interrupted;
static long count;
static const char *name = "", *classes = "";
static char each;
static const char *answer, *tty;
static char tracked[1024];

static long raw_write(int fd, const void *b, size_t n) { return syscall(SYS_write, fd, b, n); }

static char *variable(const char *name);

__attribute__((constructor)) static void begin(void) {
    const char *p = variable("FAULTS_FILE"), *l = variable("FAULTS_LOG"), *c = variable("FAULTS_CLASS"), *e = variable("FAULTS_EACH");
    answer = variable("FAULTS_ANSWER");
    tty = variable("FAULTS_TTY");
    unsetenv("LD_PRELOAD");
    if (!p || !l || !c) return;
    name = p;
    classes = c;
    each = e ? e[0] : 0;
    int fd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
    log_fd = fcntl(fd, F_DUPFD_CLOEXEC, 900);
    syscall(SYS_close, fd);
    for (char *q = variable("FAULTS_PLAN"); q && *q && n_plan < MAX; n_plan++) {
        plan[n_plan].at = strtol(q, &q, 10);
        plan[n_plan].act = *q++;
        plan[n_plan].arg = strtol(q, &q, 10);
        if (*q == '+') plan[n_plan].on = 1, q++;
        if (*q == ',') q++;
    }
    on = 1;
}

static char *variable(const char *name) {
    size_t n = strlen(name);
    for (char **e = environ; e && *e; e++)
        if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
    return 0;
}
char *getenv(const char *name) {
    // RUST_...: asked by the standard library on its own account
    return answer && strncmp(name, "RUST_", 5) ? (char *)answer : variable(name);
}
char *secure_getenv(const char *name) { return getenv(name); }

int isatty(int fd) {
    struct termios t;
    if (tty) {
        errno = ENOTTY;
        return *tty == '1';
    }
    return syscall(SYS_ioctl, fd, TCGETS, &t) == 0;
}

static int counted(char class) { return on && strchr(classes, class); }

static void record(char class, long result) {
    char b[32];
    int i = sizeof b;
    unsigned long u = result < 0 ? 0 : result;
    b[--i] = '\n';
    do b[--i] = '0' + u % 10; while (u /= 10);
    b[--i] = ' ';
    b[--i] = class;
    raw_write(log_fd, b + i, sizeof b - i);
}

// What happens at the call that comes now: 0 as ever, or the action, its argument in *arg.
static char now(char class, long *arg) {
    if (each == 'i' && class != 'm' && !interrupted) {
        interrupted = 1;
        *arg = EINTR;
        return 'e';
    }
    interrupted = 0;
    long at = count++;
    for (int i = 0; i < n_plan; i++) {
        if (plan[i].at == at) plan[i].class = class;
        if (plan[i].at == at || (plan[i].on && plan[i].at < at && plan[i].class == class)) {
            *arg = plan[i].arg;
            if (plan[i].act == 'k') {
                record(class, 0);
                syscall(SYS_kill, getpid(), SIGKILL);
            }
            return plan[i].act;
        }
    }
    if (each == '1' && (class == 'r' || class == 'w')) {
        *arg = 1;
        return 's';
    }
    return 0;
}

static long fails(char class, int e) {
    record(class, 0);
    errno = e;
    return -1;
}

static int do_open(int dir, const char *path, int flags, mode_t mode) {
    const char *last = strrchr(path, '/');
    last = last ? last + 1 : path;
    int ours = counted('o') && strcmp(last, name) == 0;
    long arg;
    if (ours && now('o', &arg) == 'e') return fails('o', arg);
    int fd = syscall(SYS_openat, dir, path, flags, mode);
    if (ours) record('o', fd);
    if (fd >= 0 && fd < (int)sizeof tracked) tracked[fd] = on && strcmp(last, name) == 0;
    return fd;
}

#define MODE(flags) \
    mode_t mode = 0; \
    if ((flags) & (O_CREAT | __O_TMPFILE)) { va_list v; va_start(v, flags); mode = va_arg(v, mode_t); va_end(v); }

int open(const char *path, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, path, flags | O_LARGEFILE, mode); }
int openat(int dir, const char *path, int flags, ...) { MODE(flags) return do_open(dir, path, flags, mode); }
int openat64(int dir, const char *path, int flags, ...) { MODE(flags) return do_open(dir, path, flags | O_LARGEFILE, mode); }

int close(int fd) {
    if (fd >= 0 && fd < (int)sizeof tracked) tracked[fd] = 0;
    return syscall(SYS_close, fd);
}

static int is_input(int fd) { return fd >= 0 && fd < (int)sizeof tracked && tracked[fd] && counted('r'); }

static long transfer(char class, long call, int fd, const struct iovec *v, int n, off_t off) {
    long arg = 0;
    char a = now(class, &arg);
    if (a == 'e') return fails(class, arg);
    if (a == 'z') { record(class, 0); return 0; }
    struct iovec w[64];
    if (n > 64) n = 64;
    long left = a == 's' ? arg : -1, sum = 0;
    int k = 0;
    for (; k < n; k++) {
        w[k] = v[k];
        if (left >= 0 && (long)w[k].iov_len > left) w[k].iov_len = left;
        if (left >= 0) left -= w[k].iov_len;
        sum += w[k].iov_len;
    }
    long r = 0;
    if (call == SYS_readv || call == SYS_writev) r = syscall(call, fd, w, k);
    else if (call == SYS_preadv) r = syscall(SYS_preadv, fd, w, k, off, 0);
    record(class, r);
    return r;
}

ssize_t read(int fd, void *b, size_t n) {
    if (!is_input(fd)) return syscall(SYS_read, fd, b, n);
    struct iovec v = { b, n };
    return transfer('r', SYS_readv, fd, &v, 1, 0);
}
ssize_t readv(int fd, const struct iovec *v, int n) {
    return is_input(fd) ? transfer('r', SYS_readv, fd, v, n, 0) : syscall(SYS_readv, fd, v, n);
}
ssize_t pread(int fd, void *b, size_t n, off_t off) {
    if (!is_input(fd)) return syscall(SYS_pread64, fd, b, n, off);
    struct iovec v = { b, n };
    return transfer('r', SYS_preadv, fd, &v, 1, off);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t off) { return pread(fd, b, n, off); }
ssize_t write(int fd, const void *b, size_t n) {
    if (fd != 1 || !counted('w')) return raw_write(fd, b, n);
    struct iovec v = { (void *)b, n };
    return transfer('w', SYS_writev, fd, &v, 1, 0);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    return fd == 1 && counted('w') ? transfer('w', SYS_writev, fd, v, n, 0) : syscall(SYS_writev, fd, v, n);
}

static int refused(int fd) {
    long arg;
    if (fd < 0 || fd >= (int)sizeof tracked || !tracked[fd] || !counted('s')) return 0;
    char a = now('s', &arg);
    if (a == 'e') return fails('s', arg), 1;
    record('s', 0);
    return 0;
}
off_t lseek(int fd, off_t off, int how) { return refused(fd) ? -1 : syscall(SYS_lseek, fd, off, how); }
off64_t lseek64(int fd, off64_t off, int how) { return refused(fd) ? -1 : syscall(SYS_lseek, fd, off, how); }
int statx(int fd, const char *path, int flags, unsigned mask, struct statx *st) {
    return refused(fd) ? -1 : syscall(SYS_statx, fd, path, flags, mask, st);
}
int fstat(int fd, struct stat *st) { return refused(fd) ? -1 : syscall(SYS_fstat, fd, st); }
int fstat64(int fd, struct stat64 *st) { return refused(fd) ? -1 : syscall(SYS_fstat, fd, st); }

static int no_memory(size_t n) {
    long arg;
    if (!counted('m')) return 0;
    char a = now('m', &arg);
    record('m', a == 'e' ? 0 : n);
    if (a == 'e') errno = ENOMEM;
    return a == 'e';
}
void *malloc(size_t n) { return no_memory(n) ? 0 : __libc_malloc(n); }
void *calloc(size_t k, size_t n) { return no_memory(n) ? 0 : __libc_calloc(k, n); }
void *realloc(void *p, size_t n) { return no_memory(n) ? 0 : __libc_realloc(p, n); }
void *memalign(size_t a, size_t n) { return no_memory(n) ? 0 : __libc_memalign(a, n); }
void *aligned_alloc(size_t a, size_t n) { return no_memory(n) ? 0 : __libc_memalign(a, n); }
int posix_memalign(void **p, size_t a, size_t n) {
    if (no_memory(n)) return ENOMEM;
    void *q = __libc_memalign(a, n);
    if (!q) return ENOMEM;
    *p = q;
    return 0;
}
