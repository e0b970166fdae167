/*  Program run by a process console under test: reports argv/env/descriptors to the driver on a
 *  unix socket, then relays socket <-> stdin/stdout until either side closes.
 *  usage: vproc CTL_SOCKET PAGE_FILE [args...]
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>

void shim_map(const char *path);
int __wrap_poll(struct pollfd *, nfds_t, int);
extern char **environ;

static void all(int fd, const char *b, size_t n)
{
    while (n > 0) {
        ssize_t k = write(fd, b, n);
        if (k < 0 && errno == EAGAIN) { struct pollfd p = { fd, POLLOUT, 0 }; poll(&p, 1, -1); continue; }
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) _exit(3);
        b += k; n -= k;
    }
}
static void esc(char **q, const char *s)
{
    for (; *s; s++) *q += sprintf(*q, "%02x", (unsigned char) *s);
}

/*  SIGUSR1: lose the console but live on.  SIGUSR2: never again look at the console.  */
static volatile sig_atomic_t deaf;
static void usr1(int n) { signal(SIGTERM, SIG_IGN); signal(SIGHUP, SIG_IGN); close(0); close(1); close(2); for (;;) pause(); }
static void usr2(int n) { deaf = 1; }

int main(int argc, char **argv)
{
    static char hdr[1 << 20];
    char *q = hdr, buf[65536], lnk[64], tgt[512];
    struct sockaddr_un a;
    int s, i, n;
    if (argc < 3) return 2;
    char cwd[4096];
    /* descriptors first, before opening our own */
    char fds[4096] = ""; char *f = fds;
    for (i = 0; i < 256; i++) {
        snprintf(lnk, sizeof lnk, "/proc/self/fd/%d", i);
        n = readlink(lnk, tgt, sizeof tgt - 1);
        if (n >= 0) { tgt[n] = 0; f += sprintf(f, "%d:", i); esc(&f, tgt); *f++ = ','; *f = 0; }
        if (f - fds > 3000) break;
    }
    memset(&a, 0, sizeof a); a.sun_family = AF_UNIX;
    snprintf(a.sun_path, sizeof a.sun_path, "%s", argv[1]);
    s = socket(AF_UNIX, SOCK_STREAM, 0);
    if (connect(s, (struct sockaddr *) &a, sizeof a) < 0) return 4;
    q += sprintf(q, "PROC %d %d %d ", getpid(), getppid(), getpgrp());
    for (i = 0; i < argc; i++) { esc(&q, argv[i]); *q++ = ','; }
    *q++ = ' ';
    for (i = 0; environ[i]; i++) { esc(&q, environ[i]); *q++ = ','; }
    q += sprintf(q, " %s ", fds);
    if (!getcwd(cwd, sizeof cwd)) cwd[0] = 0;
    esc(&q, cwd);
    *q++ = '\n';
    all(s, hdr, q - hdr);
    signal(SIGUSR1, usr1);
    signal(SIGUSR2, usr2);
    if (strcmp(argv[2], "-") != 0) shim_map(argv[2]);
    for (;;) {
        struct pollfd p[2] = { { deaf ? -1 : 0, POLLIN, 0 }, { s, POLLIN, 0 } };
        if (__wrap_poll(p, 2, -1) < 0) { if (errno == EINTR) continue; return 5; }
        if (p[0].revents) {
            n = read(0, buf, sizeof buf);
            if (n > 0) all(s, buf, n);
            else if (n == 0) return 0;
            else if (errno != EAGAIN && errno != EINTR) return 6;
        }
        if (p[1].revents) {
            n = read(s, buf, sizeof buf);
            if (n > 0) all(1, buf, n);
            else if (n == 0) { if (deaf) for (;;) pause(); return 0; }
            else if (errno != EAGAIN && errno != EINTR) return 7;
        }
    }
}
