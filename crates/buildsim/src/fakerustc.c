/* The simulated compiler or compiler wrapper: reports how it was called on
   descriptor 201 and does what the simulator says. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <unistd.h>
#define CTL 201
extern char **environ;
static char buf[200000];
static size_t len;
static void put(const char *s) {
    size_t n = strlen(s) + 1;
    if (len + n < sizeof buf) { memcpy(buf + len, s, n); len += n; }
}
int main(int argc, char **argv) {
    char cwd[5000], pid[16];
    int p = (int)getpid(), k = 15;
    pid[k] = 0;
    do pid[--k] = (char)('0' + p % 10); while (p /= 10);
    put(pid + k);
    put(getcwd(cwd, sizeof cwd) ? cwd : "?");
    for (int i = 0; i < argc; i++) put(argv[i]);
    put("\1");
    for (char **e = environ; *e; e++) put(*e);
    if (send(CTL, buf, len, MSG_NOSIGNAL) < 0) return 251;
    for (;;) {
        ssize_t n = recv(CTL, buf, sizeof buf - 1, 0);
        if (n < 0 && errno == EINTR) continue;
        if (n <= 0) return 252;
        buf[n] = 0;
        if (buf[0] == 'o') { /* text on standard output */
            ssize_t w = write(1, buf + 1, (size_t)n - 1);
            (void)w;
        } else if (buf[0] == 'r') {
            ssize_t w = write(2, buf + 1, (size_t)n - 1);
            (void)w;
        } else if (buf[0] == 's') {
            struct rlimit none = {0, 0};
            setrlimit(RLIMIT_CORE, &none);
            int sig = atoi(buf + 1);
            if (send(CTL, "bye", 3, MSG_NOSIGNAL) < 0) return 253;
            signal(sig, SIG_DFL);
            kill(getpid(), sig);
            for (;;) pause();
        } else {
            int code = atoi(buf + 1);
            if (send(CTL, "bye", 3, MSG_NOSIGNAL) < 0) return 253;
            _exit(code);
        }
        if (send(CTL, "ok", 2, MSG_NOSIGNAL) < 0) return 254;
    }
}
