// Preloaded into the coverage command: numbers its file-system and process calls, logs those that matter and
// lets the chosen ones fail or crash the process.
//   SIM_FAULTS   list of n:what, where what is an errno, "before" (crash before the call) or "after"
//   SIM_LOG      event log
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <spawn.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>

static int active, count, logfd = -1;
static pid_t self;
static const char *faults = "";

static void say(const char *fmt, ...) {
    char b[4096];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b - 1, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof b - 2) n = sizeof b - 2;
    b[n++] = '\n';
    syscall(SYS_write, logfd, b, n);
}

__attribute__((constructor)) static void start(void) {
    char exe[4096];
    ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
    if (n < 6) return;
    exe[n] = 0;
    if (strcmp(exe + n - 6, "/xtask")) return;
    const char *l = getenv("SIM_LOG");
    if (!l) return;
    logfd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_APPEND | O_CLOEXEC);
    if (logfd < 0) return;
    // out of the way of the descriptors the command uses
    int hi = fcntl(logfd, F_DUPFD_CLOEXEC, 900);
    if (hi >= 0) { syscall(SYS_close, logfd); logfd = hi; }
    if (getenv("SIM_FAULTS")) faults = strdup(getenv("SIM_FAULTS"));
    self = getpid();
    active = 1;
}

static void crash(int n, const char *when) {
    say("crash %d %s", n, when);
    kill(self, SIGKILL);
    for (;;) pause();
}

// Returns the number of the call, or 0 if it is not simulated; an errno to fail with goes to *fail.
static int point(const char *name, const char *arg, int *fail, int *after) {
    *fail = *after = 0;
    if (!active || getpid() != self) return 0;
    int n = ++count;
    const char *p = faults;
    while (*p) {
        int k = atoi(p);
        const char *c = strchr(p, ':');
        if (!c) break;
        if (k == n) {
            if (!strncmp(c + 1, "before", 6)) { say("call %d %s %s", n, name, arg); crash(n, "before"); }
            else if (!strncmp(c + 1, "after", 5)) *after = 1;
            else *fail = atoi(c + 1);
        }
        p = strchr(c, ',');
        if (!p) break;
        p++;
    }
    say("call %d %s %s%s", n, name, arg, *fail ? " fails" : "");
    return n;
}

#define REAL(f) static __typeof__(f) *real; if (!real) real = (__typeof__(f) *)dlsym(RTLD_NEXT, #f)
#define WRAP(type, f, params, args, arg)                       \
    type f params {                                            \
        REAL(f);                                               \
        int fail, after, n = point(#f, arg, &fail, &after);    \
        if (fail) { errno = fail; return (type)-1; }           \
        type r = real args;                                    \
        int e = errno;                                         \
        if (after) crash(n, "after");                          \
        errno = e;                                             \
        return r;                                              \
    }

WRAP(int, mkdir, (const char *p, mode_t m), (p, m), p)
WRAP(int, unlink, (const char *p), (p), p)
WRAP(int, unlinkat, (int d, const char *p, int fl), (d, p, fl), p)
WRAP(int, rmdir, (const char *p), (p), p)
WRAP(int, rename, (const char *a, const char *b), (a, b), a)
WRAP(int, remove, (const char *p), (p), p)

DIR *opendir(const char *p) {
    REAL(opendir);
    int fail, after, n = point("opendir", p, &fail, &after);
    if (fail) { errno = fail; return 0; }
    DIR *r = real(p);
    if (after) crash(n, "after");
    return r;
}

struct dirent64 *readdir64(DIR *d) {
    REAL(readdir64);
    int fail, after, n = point("readdir", "", &fail, &after);
    if (fail) { errno = fail; return 0; }
    struct dirent64 *r = real(d);
    if (after) crash(n, "after");
    return r;
}

int open64(const char *p, int fl, ...) {
    va_list ap;
    va_start(ap, fl);
    int mode = va_arg(ap, int);
    va_end(ap);
    static int (*real)(const char *, int, ...);
    if (!real) real = (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open64");
    if ((fl & O_ACCMODE) == O_RDONLY) return real(p, fl, mode);
    int fail, after, n = point("open", p, &fail, &after);
    if (fail) { errno = fail; return -1; }
    int r = real(p, fl, mode);
    if (after) crash(n, "after");
    return r;
}

ssize_t write(int fd, const void *b, size_t len) {
    REAL(write);
    if (fd != 1) return real(fd, b, len);
    int fail, after, n = point("write", "stdout", &fail, &after);
    if (fail) { errno = fail; return -1; }
    ssize_t r = real(fd, b, len);
    if (after) crash(n, "after");
    return r;
}

// Logging is ordered by letting a child end before the parent's next event is recorded.
static void ended(idtype_t t, id_t id) {
    static int (*real)(idtype_t, id_t, siginfo_t *, int);
    if (!real) real = (int (*)(idtype_t, id_t, siginfo_t *, int))dlsym(RTLD_NEXT, "waitid");
    siginfo_t i;
    while (real(t, id, &i, WEXITED | WNOWAIT) < 0 && errno == EINTR) {}
}

int posix_spawnp(pid_t *pid, const char *f, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const a[], char *const e[]) {
    REAL(posix_spawnp);
    const char *base = strrchr(f, '/');
    int fail, after, n = point("spawn", base ? base + 1 : f, &fail, &after);
    if (fail) return fail;
    int r = real(pid, f, fa, at, a, e);
    if (after) {
        // what a child does when its parent is gone would depend on the real scheduler
        if (r == 0) ended(P_PID, *pid);
        crash(n, "after");
    }
    return r;
}

pid_t fork(void) {
    REAL(fork);
    int fail, after, n = point("fork", "", &fail, &after);
    if (fail) { errno = fail; return -1; }
    pid_t r = real();
    if (r > 0 && after) {
        ended(P_PID, r);
        crash(n, "after");
    }
    return r;
}

pid_t waitpid(pid_t p, int *st, int o) {
    REAL(waitpid);
    int fail, after = 0, n = 0;
    if (active && getpid() == self && !(o & WNOHANG)) {
        ended(p > 0 ? P_PID : P_ALL, p > 0 ? p : 0);
        n = point("wait", "", &fail, &after);
    }
    pid_t r = real(p, st, o);
    int e = errno;
    if (n && after) crash(n, "after");
    errno = e;
    return r;
}

int waitid(idtype_t t, id_t id, siginfo_t *i, int o) {
    REAL(waitid);
    int fail, after = 0, n = 0;
    if (active && getpid() == self && !(o & WNOHANG)) {
        ended(t, id);
        n = point("wait", "", &fail, &after);
    }
    int r = real(t, id, i, o);
    int e = errno;
    if (n && after) crash(n, "after");
    errno = e;
    return r;
}
