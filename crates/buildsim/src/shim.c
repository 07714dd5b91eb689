/* Preloaded into the real build script: every file-system and process
   operation asks the simulator first (descriptor 200), which lets it happen,
   makes it fail, or ends the process there. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <spawn.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

#define CTL 200
static int active;
static pid_t owner;
static int lock;

static void *next(const char *name) { return dlsym(RTLD_NEXT, name); }

__attribute__((constructor)) static void start(void) {
    active = getenv("SIM_SHIM_ON") != 0;
    owner = (pid_t)syscall(SYS_getpid);
    unsetenv("SIM_SHIM_ON");
    unsetenv("LD_PRELOAD");
}

/* 0: go on; otherwise the errno to fail with */
static int ask(const char *op, const char *a, const char *b) {
    if (!active) return 0;
    int saved = errno;
    char msg[9000], ans[64];
    int n = snprintf(msg, sizeof msg, "%s\n%s\n%s", op, a ? a : "", b ? b : "");
    if (n >= (int)sizeof msg) n = sizeof msg - 1;
    while (__atomic_exchange_n(&lock, 1, __ATOMIC_ACQUIRE)) { }
    ssize_t r;
    do r = syscall(SYS_sendto, CTL, msg, (size_t)n, MSG_NOSIGNAL, 0, 0); while (r < 0 && errno == EINTR);
    if (r >= 0) do r = syscall(SYS_recvfrom, CTL, ans, sizeof ans - 1, 0, 0, 0); while (r < 0 && errno == EINTR);
    __atomic_store_n(&lock, 0, __ATOMIC_RELEASE);
    errno = saved;
    if (r <= 0) syscall(SYS_exit_group, 250);
    ans[r] = 0;
    if (ans[0] == 'k') {
        syscall(SYS_kill, owner, SIGKILL);
        for (;;) syscall(SYS_pause);
    }
    return ans[0] == 'e' ? atoi(ans + 1) : 0;
}
__attribute__((destructor)) static void fini(void) { if (active && syscall(SYS_getpid) == owner) ask("fini", 0, 0); }

static const char *at(int dfd, const char *p, char *buf) {
    char link[64];
    ssize_t n;
    if (!p) p = "";
    if (p[0] == '/') { snprintf(buf, PATH_MAX, "%s", p); return buf; }
    if (dfd == AT_FDCWD) {
        if (!getcwd(buf, PATH_MAX)) strcpy(buf, "?");
    } else {
        snprintf(link, sizeof link, "/proc/self/fd/%d", dfd);
        n = readlink(link, buf, PATH_MAX - 1);
        buf[n < 0 ? 0 : n] = 0;
    }
    size_t l = strlen(buf);
    if (*p) snprintf(buf + l, PATH_MAX - l, "/%s", p);
    return buf;
}
static int outside(const char *p) {
    return !strncmp(p, "/proc", 5) || !strncmp(p, "/sys", 4) || !strncmp(p, "/dev", 4) || !strncmp(p, "/etc", 4) || !strncmp(p, "/lib", 4) || !strncmp(p, "/usr", 4);
}
static int path_op(const char *op, int dfd, const char *p, int d2, const char *p2) {
    char a[PATH_MAX + 4], b[PATH_MAX + 4];
    at(dfd, p, a);
    if (p2) at(d2, p2, b); else b[0] = 0;
    if (outside(a)) return 0;
    int e = ask(op, a, b);
    if (e) errno = e;
    return e;
}
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = next(name)

int mkdir(const char *p, mode_t m) { REAL(int, "mkdir", const char *, mode_t); return path_op("mkdir", AT_FDCWD, p, 0, 0) ? -1 : real(p, m); }
int mkdirat(int d, const char *p, mode_t m) { REAL(int, "mkdirat", int, const char *, mode_t); return path_op("mkdir", d, p, 0, 0) ? -1 : real(d, p, m); }
int rmdir(const char *p) { REAL(int, "rmdir", const char *); return path_op("rmdir", AT_FDCWD, p, 0, 0) ? -1 : real(p); }
int unlink(const char *p) { REAL(int, "unlink", const char *); return path_op("unlink", AT_FDCWD, p, 0, 0) ? -1 : real(p); }
int unlinkat(int d, const char *p, int f) { REAL(int, "unlinkat", int, const char *, int); return path_op(f & AT_REMOVEDIR ? "rmdir" : "unlink", d, p, 0, 0) ? -1 : real(d, p, f); }
int remove(const char *p) { REAL(int, "remove", const char *); return path_op("unlink", AT_FDCWD, p, 0, 0) ? -1 : real(p); }
int rename(const char *a, const char *b) { REAL(int, "rename", const char *, const char *); return path_op("rename", AT_FDCWD, a, AT_FDCWD, b) ? -1 : real(a, b); }
int renameat(int d, const char *a, int e, const char *b) { REAL(int, "renameat", int, const char *, int, const char *); return path_op("rename", d, a, e, b) ? -1 : real(d, a, e, b); }
int renameat2(int d, const char *a, int e, const char *b, unsigned f) { REAL(int, "renameat2", int, const char *, int, const char *, unsigned); return path_op("rename", d, a, e, b) ? -1 : real(d, a, e, b, f); }
int symlink(const char *a, const char *b) { REAL(int, "symlink", const char *, const char *); return path_op("symlink", AT_FDCWD, b, 0, 0) ? -1 : real(a, b); }
int symlinkat(const char *a, int d, const char *b) { REAL(int, "symlinkat", const char *, int, const char *); return path_op("symlink", d, b, 0, 0) ? -1 : real(a, d, b); }
int link(const char *a, const char *b) { REAL(int, "link", const char *, const char *); return path_op("link", AT_FDCWD, b, 0, 0) ? -1 : real(a, b); }
int linkat(int d, const char *a, int e, const char *b, int f) { REAL(int, "linkat", int, const char *, int, const char *, int); return path_op("link", e, b, 0, 0) ? -1 : real(d, a, e, b, f); }
int chmod(const char *p, mode_t m) { REAL(int, "chmod", const char *, mode_t); return path_op("chmod", AT_FDCWD, p, 0, 0) ? -1 : real(p, m); }
int truncate64(const char *p, off64_t n) { REAL(int, "truncate64", const char *, off64_t); return path_op("write", AT_FDCWD, p, 0, 0) ? -1 : real(p, n); }

static const char *kind(int fl) {
    if ((fl & O_ACCMODE) != O_RDONLY || (fl & (O_CREAT | O_TRUNC))) return "write";
    return fl & O_DIRECTORY ? "opendir" : "read";
}
#define OPEN(name, call, sig, args, dfd) \
    int name sig { \
        mode_t m = 0; \
        if (fl & (O_CREAT | O_TMPFILE)) { va_list v; va_start(v, fl); m = va_arg(v, mode_t); va_end(v); } \
        static int (*real) call; if (!real) real = next(#name); \
        return path_op(kind(fl), dfd, p, 0, 0) ? -1 : real args; }
OPEN(open, (const char *, int, ...), (const char *p, int fl, ...), (p, fl, m), AT_FDCWD)
OPEN(open64, (const char *, int, ...), (const char *p, int fl, ...), (p, fl, m), AT_FDCWD)
OPEN(openat, (int, const char *, int, ...), (int d, const char *p, int fl, ...), (d, p, fl, m), d)
OPEN(openat64, (int, const char *, int, ...), (int d, const char *p, int fl, ...), (d, p, fl, m), d)
DIR *opendir(const char *p) { REAL(DIR *, "opendir", const char *); return path_op("opendir", AT_FDCWD, p, 0, 0) ? 0 : real(p); }

#define STAT(name, dfd, sig, call) int name sig { static int (*real) sig; if (!real) real = next(#name); return path_op("stat", dfd, p, 0, 0) ? -1 : real call; }
STAT(statx, d, (int d, const char *p, int f, unsigned m, struct statx *b), (d, p, f, m, b))
STAT(stat64, AT_FDCWD, (const char *p, struct stat64 *b), (p, b))
STAT(lstat64, AT_FDCWD, (const char *p, struct stat64 *b), (p, b))
STAT(fstatat64, d, (int d, const char *p, struct stat64 *b, int f), (d, p, b, f))
STAT(access, AT_FDCWD, (const char *p, int m), (p, m))

int pipe2(int f[2], int fl) { REAL(int, "pipe2", int *, int); int e = ask("pipe", 0, 0); if (e) { errno = e; return -1; } return real(f, fl); }

static int spawned(int r, pid_t *pid) {
    char n[32];
    snprintf(n, sizeof n, "%d", r ? -r : (int)*pid);
    ask("spawned", n, 0);
    return r;
}
#define SPAWN(name) int name(pid_t *pid, const char *p, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at_, char *const av[], char *const ev[]) { \
    static int (*real)(pid_t *, const char *, const posix_spawn_file_actions_t *, const posix_spawnattr_t *, char *const[], char *const[]); \
    if (!real) real = next(#name); \
    int e = ask("spawn", p, 0); \
    return e ? e : spawned(real(pid, p, fa, at_, av, ev), pid); }
SPAWN(posix_spawn)
SPAWN(posix_spawnp)
pid_t fork(void) {
    REAL(pid_t, "fork", void);
    int e = ask("spawn", "fork", 0);
    if (e) { errno = e; return -1; }
    pid_t p = real();
    if (p == 0) active = 0;
    if (p > 0) spawned(0, &p);
    if (p < 0) { pid_t x = 0; e = errno; spawned(e, &x); errno = e; }
    return p;
}
pid_t waitpid(pid_t p, int *st, int f) { REAL(pid_t, "waitpid", pid_t, int *, int); int e = ask("wait", 0, 0); if (e) { errno = e; return -1; } return real(p, st, f); }
int waitid(idtype_t t, id_t i, siginfo_t *s, int f) { REAL(int, "waitid", idtype_t, id_t, siginfo_t *, int); int e = ask("wait", 0, 0); if (e) { errno = e; return -1; } return real(t, i, s, f); }
int chdir(const char *p) { REAL(int, "chdir", const char *); return path_op("chdir", AT_FDCWD, p, 0, 0) ? -1 : real(p); }
ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, "write", int, const void *, size_t);
    if (fd == 1) ask("print", 0, 0);
    return real(fd, b, n);
}

/* directory order is the file system's whim: make it alphabetical */
#define DIRS 16
static struct listing { DIR *d; struct dirent64 **e; int n, at; } dirs[DIRS];
static int by_name(const void *a, const void *b) { return strcmp((*(struct dirent64 *const *)a)->d_name, (*(struct dirent64 *const *)b)->d_name); }
static struct listing *listing(DIR *d) {
    static struct dirent64 *(*real)(DIR *);
    struct listing *f = 0;
    if (!real) real = next("readdir64");
    for (int i = 0; i < DIRS; i++) {
        if (dirs[i].d == d) return &dirs[i];
        if (!dirs[i].d && !f) f = &dirs[i];
    }
    if (!f) return 0;
    memset(f, 0, sizeof *f);
    f->d = d;
    struct dirent64 *e;
    while ((e = real(d))) {
        struct dirent64 *c = malloc(sizeof *c);
        memcpy(c, e, e->d_reclen < sizeof *c ? e->d_reclen : sizeof *c);
        f->e = realloc(f->e, sizeof *f->e * (size_t)(f->n + 1));
        f->e[f->n++] = c;
    }
    if (f->n) qsort(f->e, (size_t)f->n, sizeof *f->e, by_name);
    return f;
}
struct dirent64 *readdir64(DIR *d) {
    struct listing *f = active ? listing(d) : 0;
    if (!f) { REAL(struct dirent64 *, "readdir64", DIR *); return real(d); }
    return f->at < f->n ? f->e[f->at++] : 0;
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
int closedir(DIR *d) {
    REAL(int, "closedir", DIR *);
    for (int i = 0; i < DIRS; i++)
        if (dirs[i].d == d) {
            for (int k = 0; k < dirs[i].n; k++) free(dirs[i].e[k]);
            free(dirs[i].e);
            dirs[i].d = 0;
        }
    return real(d);
}
