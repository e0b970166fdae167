/*  Link-time shim (-Wl,--wrap=...) for conmand: a virtual clock owned by the test
 *  driver, an idle counter published from the main thread's poll(), client-thread
 *  counters, and injection of behaviour the kernel may legally show (short reads and
 *  writes, EINTR, spurious EAGAIN, EMFILE on accept, scheduling delays).
 *
 *  Everything is controlled through a page of shared memory (file named by VSHIM).
 *  Without VSHIM every wrapper passes straight through.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <syslog.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <termios.h>
#include <time.h>
#include <unistd.h>

struct page {
    _Atomic int64_t  magic;         /*  0 set by the shim once mapped          */
    _Atomic int64_t  vbase;         /*  1 virtual time in us, 0 = real clock   */
    _Atomic int64_t  vtick;         /*  2 us added by reads of the clock       */
    _Atomic int64_t  idle_seq;      /*  3 polls of the main thread with nothing ready */
    _Atomic int64_t  poll_seq;      /*  4 polls entered by the main thread     */
    _Atomic int64_t  thr_started;   /*  5 */
    _Atomic int64_t  thr_finished;  /*  6 */
    _Atomic int64_t  deadline;      /*  7 virtual us at which the current poll ends, -1 none */
    _Atomic int64_t  rnd;           /*  8 state of the injection generator     */
    _Atomic int64_t  max_read;      /*  9 cap of a single read (0 = none)      */
    _Atomic int64_t  max_write;     /* 10 cap of a single write/writev         */
    _Atomic int64_t  p_eintr;       /* 11 per mille of read/write/poll calls failing EINTR */
    _Atomic int64_t  p_eagain;      /* 12 per mille of nonblocking read/write failing EAGAIN */
    _Atomic int64_t  accept_fail;   /* 13 number of accept calls to fail with EMFILE */
    _Atomic int64_t  thread_fail;   /* 14 number of pthread_create calls to fail with EAGAIN */
    _Atomic int64_t  lock_delay;    /* 15 max us slept before/after mutex ops in non-main threads */
    _Atomic int64_t  poll_delay;    /* 16 us slept by main thread just before it blocks in poll */
    _Atomic int64_t  sndbuf;        /* 17 SO_SNDBUF for sockets the daemon creates/accepts */
    _Atomic int64_t  in_delay;      /* 18 incremented when the poll_delay sleep starts */
    _Atomic int64_t  kills;         /* 19 number of kill() calls */
    _Atomic int64_t  mlock_delay;   /* 20 as lock_delay, for the main thread */
    _Atomic int64_t  conn_seq;      /* 21 number of connect() calls          */
    _Atomic int64_t  sock_fail;     /* 22 number of socket() calls of the main thread to fail with EMFILE */
    _Atomic int64_t  p_chld;        /* 23 per mille of failed I/O calls followed at once by a SIGCHLD */
    _Atomic int64_t  term_read;     /* 24 SIGTERM once this many reads of more than one byte have succeeded */
    _Atomic int64_t  short_log;     /* 25 max_write holds for regular files as well */
    _Atomic int64_t  count;         /* 26 count what read() returns           */
    _Atomic int64_t  in_bytes;      /* 27 ... on standard input               */
    _Atomic int64_t  net_bytes;     /* 28 ... on sockets                      */
    _Atomic int64_t  term_wait;     /* 29 SIGTERM just before this (-th) select() */
    _Atomic int64_t  nodns;         /* 30 hosts vhostN that cannot be resolved: bit N */
    _Atomic int64_t  acl;           /* 31 clients 127.0.0.N that the access rules refuse: bit N */
    _Atomic int64_t  hang;          /* 32 connections over TCP stay incomplete while this is set */
    int64_t          pad[95];
    struct { int64_t t, key; } conn[128];   /* at 1024: time and address hash of the latest connects */
    struct { int64_t dev, c, io, l; } tty[31];  /* at 3072: the latest tcsetattr calls: device, cflag, iflag and oflag, lflag with VMIN and VTIME */
    _Atomic int64_t  tty_seq;       /* at 4064 */
};

static struct page *pg;
static char *syslog_file, *acl_file;  /* copied before conmand replaces its environment */

void shim_map(const char *f)
{
    int fd;
    if ((fd = open(f, O_RDWR | O_CLOEXEC)) < 0) return;
    void *p = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    if (p == MAP_FAILED) return;
    pg = p;
    pg->magic = 1;
}

__attribute__((constructor(101))) static void shim_init(void)
{
    const char *f = getenv("VSHIM");
    if (!f) return;
    shim_map(f);
    unsetenv("VSHIM");
    const char *a = getenv("SHIM_ACL");
    if (a) { acl_file = strdup(a); unsetenv("SHIM_ACL"); }
    if ((a = getenv("SHIM_SYSLOG"))) { syslog_file = strdup(a); unsetenv("SHIM_SYSLOG"); }
}

static uint32_t rnd(void)
{
    uint64_t x = (uint64_t) atomic_fetch_add(&pg->rnd, 0x9E3779B97F4A7C15ULL) + 0x9E3779B97F4A7C15ULL;
    x ^= x >> 30; x *= 0xBF58476D1CE4E5B9ULL;
    x ^= x >> 27; x *= 0x94D049BB133111EBULL;
    return (uint32_t) (x ^ (x >> 31));
}

static int chance(int64_t permille)
{
    return permille > 0 && (int64_t) (rnd() % 1000) < permille;
}

static int is_main(void) { return (pid_t) syscall(SYS_gettid) == getpid(); }

/* ---- clock ---- */

static int64_t vnow(int tick)
{
    int64_t t = tick ? atomic_fetch_add(&pg->vtick, 1) : pg->vtick;
    return pg->vbase + t;
}

int __real_gettimeofday(struct timeval *tv, void *tz);
int __wrap_gettimeofday(struct timeval *tv, void *tz)
{
    if (!pg || !pg->vbase) return __real_gettimeofday(tv, tz);
    int64_t t = vnow(1);
    tv->tv_sec = t / 1000000; tv->tv_usec = t % 1000000;
    return 0;
}
time_t __real_time(time_t *t);
time_t __wrap_time(time_t *tp)
{
    if (!pg || !pg->vbase) return __real_time(tp);
    time_t t = vnow(0) / 1000000;
    if (tp) *tp = t;
    return t;
}
int __real_clock_gettime(clockid_t c, struct timespec *ts);
int __wrap_clock_gettime(clockid_t c, struct timespec *ts)
{
    if (!pg || !pg->vbase) return __real_clock_gettime(c, ts);
    int64_t t = vnow(1);
    ts->tv_sec = t / 1000000; ts->tv_nsec = (t % 1000000) * 1000;
    return 0;
}

/* ---- poll ---- */

int __real_poll(struct pollfd *fds, nfds_t n, int timeout);
/* Connections that stay incomplete: connect() is made in earnest once pg->hang is cleared. */
static struct { int on, err; struct sockaddr_in a; } hung[1024];
static int nhung;
static int nonblk(int fd);
int __real_connect(int fd, const struct sockaddr *a, socklen_t l);
int __real_close(int fd);
int __real_getsockopt(int fd, int level, int name, void *v, socklen_t *l);

static void unhang(int fd)
{
    if (fd >= 0 && fd < 1024 && hung[fd].on) { hung[fd].on = 0; nhung--; }
}

int __wrap_close(int fd)
{
    if (nhung) unhang(fd);
    return __real_close(fd);
}

int __wrap_getsockopt(int fd, int level, int name, void *v, socklen_t *l)
{
    int r = __real_getsockopt(fd, level, name, v, l);
    if (nhung && r == 0 && level == SOL_SOCKET && name == SO_ERROR && fd < 1024 && hung[fd].on == 2) { *(int *) v = hung[fd].err; unhang(fd); }
    return r;
}

static int hpoll(struct pollfd *fds, nfds_t n, const struct timespec *t, const sigset_t *mask)
{
    struct timespec zero = { 0, 0 };
    int r, forced = 0, fd;
    nfds_t i;
    if (!nhung) return ppoll(fds, n, t, mask);
    for (i = 0; i < n; i++) {
        if ((fd = fds[i].fd) <= 0 || fd >= 1024 || !hung[fd].on) continue;
        if (hung[fd].on == 1 && !pg->hang) {
            if (__real_connect(fd, (struct sockaddr *) &hung[fd].a, sizeof(hung[fd].a)) == 0 || errno == EINPROGRESS) { unhang(fd); continue; }
            hung[fd].on = 2;
            hung[fd].err = errno;
        }
        if (hung[fd].on == 2) forced++;
        fds[i].fd = ~fd;
    }
    r = ppoll(fds, n, forced ? &zero : t, mask);
    for (i = 0; i < n; i++) {
        if (fds[i].fd >= -1) continue;
        fds[i].fd = fd = ~fds[i].fd;
        fds[i].revents = 0;
        if (fd < 1024 && hung[fd].on == 2 && r >= 0) { fds[i].revents = (fds[i].events & (POLLIN | POLLOUT)) | POLLERR | POLLHUP; r++; }
    }
    return r;
}

int __wrap_poll(struct pollfd *fds, nfds_t n, int timeout)
{
    int r;
    if (!pg || !is_main()) return __real_poll(fds, n, timeout);
    atomic_fetch_add(&pg->poll_seq, 1);
    if (chance(pg->p_eintr)) { errno = EINTR; return -1; }
    if (pg->poll_delay) {
        struct timespec d = { pg->poll_delay / 1000000, (pg->poll_delay % 1000000) * 1000 };
        struct timespec rem;
        atomic_fetch_add(&pg->in_delay, 1);
        while (nanosleep(&d, &rem) < 0 && errno == EINTR) d = rem;   /* not a cancellation of poll */
    }
    /* The wait is done in slices; signals are let in only while really waiting, as in one long poll(). */
    sigset_t all, orig;
    struct timespec zero = { 0, 0 }, slice;
    int64_t left = timeout, end = -1;
    sigfillset(&all);
    pthread_sigmask(SIG_SETMASK, &all, &orig);
    if (pg->vbase) {
        end = timeout >= 0 ? vnow(0) + (int64_t) timeout * 1000 : -1;
        pg->deadline = end;
    }
    r = hpoll(fds, n, &zero, &orig);
    while (r == 0) {
        if (pg->vbase) {
            if (end >= 0 && vnow(0) >= end) break;
            slice = (struct timespec) { 0, 1000000 };
        }
        else {
            if (timeout >= 0 && left <= 0) break;
            int ms = (timeout >= 0 && left < 2) ? (int) left : 2;
            left -= ms;
            slice = (struct timespec) { 0, ms * 1000000L };
        }
        atomic_fetch_add(&pg->idle_seq, 1);
        r = hpoll(fds, n, &slice, &orig);
    }
    int e = errno;
    pthread_sigmask(SIG_SETMASK, &orig, NULL);
    errno = e;
    return r;
}

/* not pselect(), which is wrapped in some links */
static int psel(int n, fd_set *r, fd_set *w, fd_set *e, const struct timespec *tmo, const sigset_t *mask)
{
    struct timespec t;
    struct { const sigset_t *m; size_t n; } d = { mask, 8 };
    if (tmo) t = *tmo;
    return (int) syscall(SYS_pselect6, n, r, w, e, tmo ? &t : NULL, &d);
}

/* select() and pselect() of the client program; used only where linked with --wrap for them */
int shim_select(int n, fd_set *r, fd_set *w, fd_set *e, const struct timespec *tmo, const sigset_t *mask)
{
    sigset_t all, orig;
    struct timespec zero = { 0, 0 }, slice = { 0, 1000000 };
    fd_set a, b, c;
    int64_t left = tmo ? tmo->tv_sec * 1000 + (tmo->tv_nsec + 999999) / 1000000 : -1;
    int k;
    if (!pg) return psel(n, r, w, e, tmo, mask);
    atomic_fetch_add(&pg->poll_seq, 1);
    if (pg->term_wait > 0 && --pg->term_wait == 0) raise(SIGTERM);
    if (chance(pg->p_eintr)) { errno = EINTR; return -1; }
    if (r) a = *r;
    if (w) b = *w;
    if (e) c = *e;
    sigfillset(&all);
    pthread_sigmask(SIG_SETMASK, &all, &orig);
    if (!mask) mask = &orig;
    k = psel(n, r, w, e, &zero, mask);
    while (k == 0 && left != 0) {
        if (left > 0) left--;
        atomic_fetch_add(&pg->idle_seq, 1);
        if (r) *r = a;
        if (w) *w = b;
        if (e) *e = c;
        k = psel(n, r, w, e, &slice, mask);
    }
    int err = errno;
    pthread_sigmask(SIG_SETMASK, &orig, NULL);
    errno = err;
    return k;
}

/* ---- threads ---- */

struct tramp { void *(*f)(void *); void *a; };
static pthread_key_t tkey;
static pthread_once_t tonce = PTHREAD_ONCE_INIT;
static void tdone(void *x) { (void) x; if (pg) atomic_fetch_add(&pg->thr_finished, 1); }
static void tinit(void) { pthread_key_create(&tkey, tdone); }
static void *tmain(void *p)
{
    struct tramp t = *(struct tramp *) p;
    free(p);
    pthread_setspecific(tkey, (void *) 1);      /* destructor runs however the thread ends */
    return t.f(t.a);
}
int __real_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg);
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg)
{
    if (!pg || !is_main()) return __real_pthread_create(t, a, f, arg);
    if (pg->thread_fail > 0) { atomic_fetch_sub(&pg->thread_fail, 1); return EAGAIN; }
    pthread_once(&tonce, tinit);
    struct tramp *x = malloc(sizeof *x);
    x->f = f; x->a = arg;
    atomic_fetch_add(&pg->thr_started, 1);
    int rc = __real_pthread_create(t, a, tmain, x);
    if (rc) { free(x); atomic_fetch_add(&pg->thr_finished, 1); }
    return rc;
}

static void jitter(void)
{
    int64_t m = is_main() ? pg->mlock_delay : pg->lock_delay;
    if (m <= 0) return;
    uint32_t r = rnd();
    if (r % 4 == 0) return;
    struct timespec d = { 0, (long) ((r >> 3) % m) * 1000 };
    nanosleep(&d, NULL);
}
int __real_pthread_mutex_lock(pthread_mutex_t *m);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
    if (pg) { int e = errno; jitter(); errno = e; }
    return __real_pthread_mutex_lock(m);
}

/* ---- sockets and I/O ---- */

static void small_bufs(int fd)
{
    if (fd >= 0 && pg) {        /* no Nagle delays in the daemon's TCP streams: the barrier relies on it */
        int e = errno, v = 1;
        setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &v, sizeof v);
        errno = e;
    }
    if (fd >= 0 && pg && pg->sndbuf > 0) {
        int e = errno, v = (int) pg->sndbuf;
        setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &v, sizeof v);
        errno = e;
    }
}
int __real_accept(int fd, struct sockaddr *a, socklen_t *l);
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *l)
{
    if (pg && pg->accept_fail > 0) {
        struct pollfd p = { fd, POLLIN, 0 };
        if (__real_poll(&p, 1, 0) == 1) { atomic_fetch_sub(&pg->accept_fail, 1); errno = EMFILE; return -1; }
    }
    int s = __real_accept(fd, a, l);
    small_bufs(s);
    return s;
}
int __real_accept4(int fd, struct sockaddr *a, socklen_t *l, int fl);
int __wrap_accept4(int fd, struct sockaddr *a, socklen_t *l, int fl)
{
    int s = __real_accept4(fd, a, l, fl);
    small_bufs(s);
    return s;
}
int __real_connect(int fd, const struct sockaddr *a, socklen_t l);
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t l)
{
    if (pg) {
        int64_t k = 0, n = pg->conn_seq;
        if (a->sa_family == AF_INET) k = ntohs(((const struct sockaddr_in *) a)->sin_port);
        else {
            const char *s = ((const struct sockaddr_un *) a)->sun_path;
            for (k = 7; *s; s++) k = (k * 31 + (unsigned char) *s) & 0x7fffffffffffLL;
        }
        pg->conn[n % 128].t = vnow(0);
        pg->conn[n % 128].key = k;
        pg->conn_seq = n + 1;
        if (pg->hang && a->sa_family == AF_INET && l == sizeof(hung[0].a) && fd < 1024 && is_main() && nonblk(fd)) {
            if (!hung[fd].on) nhung++;
            hung[fd].on = 1;
            hung[fd].a = *(const struct sockaddr_in *) a;
            errno = EINPROGRESS;
            return -1;
        }
    }
    return __real_connect(fd, a, l);
}
/* ---- name service: vhostN is the loopback address, unless bit N of nodns is set; vhost<anything else> is unknown ---- */

static int vhost(const char *name)
{
    if (!pg || strncmp(name, "vhost", 5)) return 0;
    int n = name[5] - '0';
    return (n < 0 || n > 9 || name[6] || (pg->nodns >> n & 1)) ? -1 : 1;
}

struct hostent *__real_gethostbyname(const char *name);
struct hostent *__wrap_gethostbyname(const char *name)
{
    int v = vhost(name);
    if (v < 0) { h_errno = HOST_NOT_FOUND; return NULL; }
    return __real_gethostbyname(v ? "127.0.0.1" : name);
}
int __real_getaddrinfo(const char *name, const char *serv, const struct addrinfo *h, struct addrinfo **r);
int __wrap_getaddrinfo(const char *name, const char *serv, const struct addrinfo *h, struct addrinfo **r)
{
    int v = name ? vhost(name) : 0;
    return v < 0 ? EAI_NONAME : __real_getaddrinfo(v ? "127.0.0.1" : name, serv, h, r);
}

/* Names of the clients at 127.0.0.N, N > 1: "peerN.sub.test", "peerN", or none, in turn. */
static int peername(const void *addr, socklen_t len, char *dst)
{
    const unsigned char *a = addr;
    if (!pg || len < 4 || a[0] != 127 || a[1] || a[2] || a[3] < 2) return 0;
    if (a[3] % 3 == 2) return -1;
    snprintf(dst, 64, a[3] % 3 ? "peer%d" : "peer%d.sub.test", a[3]);
    return 1;
}

struct hostent *__real_gethostbyaddr(const void *addr, socklen_t len, int type);
struct hostent *__wrap_gethostbyaddr(const void *addr, socklen_t len, int type)
{
    static __thread struct hostent h;
    static __thread char name[64], a4[4], *none[1], *addrs[2];
    int v = type == AF_INET ? peername(addr, len, name) : 0;
    if (!v) return __real_gethostbyaddr(addr, len, type);
    if (v < 0) { h_errno = HOST_NOT_FOUND; return NULL; }
    memcpy(a4, addr, 4);
    addrs[0] = a4;
    h.h_name = name; h.h_aliases = none; h.h_addrtype = AF_INET; h.h_length = 4; h.h_addr_list = addrs;
    return &h;
}
int __real_getnameinfo(const struct sockaddr *sa, socklen_t len, char *host, socklen_t hl, char *serv, socklen_t sl, int flags);
int __wrap_getnameinfo(const struct sockaddr *sa, socklen_t len, char *host, socklen_t hl, char *serv, socklen_t sl, int flags)
{
    char name[64];
    int v = sa->sa_family == AF_INET && host && !(flags & NI_NUMERICHOST) ? peername(&((const struct sockaddr_in *) sa)->sin_addr, 4, name) : 0;
    if (!v) return __real_getnameinfo(sa, len, host, hl, serv, sl, flags);
    if (v < 0 && (flags & NI_NAMEREQD)) return EAI_NONAME;
    int r = __real_getnameinfo(sa, len, host, hl, serv, sl, flags | NI_NUMERICHOST);
    if (r || v < 0) return r;
    if (strlen(name) >= hl) return EAI_OVERFLOW;
    strcpy(host, name);
    return 0;
}

/* The access rules of TCP-Wrappers: each question is written to the file SHIM_ACL, and answered by the mask acl. */
int __real_hosts_ctl(const char *daemon, const char *name, const char *addr, const char *user) __attribute__((weak));
int __wrap_hosts_ctl(const char *daemon, const char *name, const char *addr, const char *user)
{
    char *f, b[2048];
    const char *p = strrchr(addr, '.');
    int n, fd;
    if (!pg || !(f = acl_file)) return __real_hosts_ctl(daemon, name, addr, user);
    n = snprintf(b, sizeof(b), "%s|%s|%s|%s\n", daemon, name, addr, user);
    if ((fd = open(f, O_WRONLY | O_APPEND | O_CREAT, 0600)) >= 0) { syscall(SYS_write, fd, b, n); close(fd); }
    return !(pg->acl >> (p ? atoi(p + 1) & 63 : 0) & 1);
}

/* The system's log: what is sent is written to the file SHIM_SYSLOG. */
void __real_openlog(const char *ident, int opt, int fac) __attribute__((weak));
void __real_closelog(void) __attribute__((weak));
static void to_syslog(const char *b, int n)
{
    int fd, e = errno;
    if ((fd = open(syslog_file, O_WRONLY | O_APPEND | O_CREAT, 0666)) >= 0) { syscall(SYS_write, fd, b, n); close(fd); }
    errno = e;
}
static void v_syslog(int pri, const char *fmt, va_list a)
{
    char b[8192];
    int n = snprintf(b, sizeof(b), "S %d ", pri), m;
    m = vsnprintf(b + n, sizeof(b) - n - 1, fmt, a);
    if (m < 0) m = 0;
    n = n + m < (int) sizeof(b) - 1 ? n + m : (int) sizeof(b) - 2;
    if (b[n - 1] != '\n') b[n++] = '\n';
    to_syslog(b, n);
}
void __wrap_openlog(const char *ident, int opt, int fac)
{
    char b[512];
    if (!pg || !syslog_file) { __real_openlog(ident, opt, fac); return; }
    to_syslog(b, snprintf(b, sizeof(b), "O %s %d %d\n", ident ? ident : "-", opt, fac));
}
void __wrap_closelog(void)
{
    if (!pg || !syslog_file) { __real_closelog(); return; }
    to_syslog("C\n", 2);
}
#define SYSLOG_BODY { va_list a; va_start(a, fmt); if (!pg || !syslog_file) vsyslog(pri, fmt, a); else v_syslog(pri, fmt, a); va_end(a); }
void __wrap_syslog(int pri, const char *fmt, ...) SYSLOG_BODY
void __wrap___syslog_chk(int pri, int flag, const char *fmt, ...) SYSLOG_BODY

int __real_socket(int d, int t, int p);
int __wrap_socket(int d, int t, int p)
{
    if (pg && pg->sock_fail > 0 && is_main()) { atomic_fetch_sub(&pg->sock_fail, 1); errno = EMFILE; return -1; }
    int s = __real_socket(d, t, p);
    small_bufs(s);
    return s;
}

static int nonblk(int fd)
{
    int e = errno, f = fcntl(fd, F_GETFL, 0);
    errno = e;
    return f >= 0 && (f & O_NONBLOCK);
}
static int isreg(int fd)
{
    struct stat s;
    return fstat(fd, &s) == 0 && S_ISREG(s.st_mode);
}
static int issock(int fd)
{
    struct stat st;
    int e = errno, r = fstat(fd, &st) == 0 && (S_ISSOCK(st.st_mode) || S_ISCHR(st.st_mode));
    errno = e;
    return r;
}
/* returns 1 if the call must fail now (errno set) */
static int inject(int fd)
{
    if (!pg || (!pg->p_eintr && !pg->p_eagain)) return 0;
    if (!issock(fd)) return 0;
    if (chance(pg->p_eintr)) { errno = EINTR; return 1; }
    if (pg->p_eagain && nonblk(fd) && chance(pg->p_eagain)) { errno = EAGAIN; return 1; }
    return 0;
}
/* a signal may arrive between the failure of a call and the caller's look at errno */
static ssize_t after(ssize_t r)
{
    if (r < 0 && pg->p_chld && chance(pg->p_chld)) raise(SIGCHLD);
    return r;
}
static size_t cap(int fd, size_t n, int64_t max)
{
    if (max > 0 && (int64_t) n > 1 && issock(fd)) {
        size_t m = 1 + rnd() % max;
        if (n > m) n = m;
    }
    return n;
}
ssize_t __real_read(int fd, void *b, size_t n);
ssize_t __wrap_read(int fd, void *b, size_t n)
{
    if (!pg) return __real_read(fd, b, n);
    if (inject(fd)) return after(-1);
    ssize_t r = after(__real_read(fd, b, pg->max_read ? cap(fd, n, pg->max_read) : n));
    if (r > 0 && pg->count) {
        struct stat st;
        if (fd == 0) atomic_fetch_add(&pg->in_bytes, r);
        else if (fstat(fd, &st) == 0 && S_ISSOCK(st.st_mode)) atomic_fetch_add(&pg->net_bytes, r);
    }
    if (r > 1 && pg->term_read > 0 && --pg->term_read == 0) raise(SIGTERM);
    return r;
}
ssize_t __real_write(int fd, const void *b, size_t n);
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
    if (!pg) return __real_write(fd, b, n);
    if (inject(fd)) return after(-1);
    return after(__real_write(fd, b, pg->max_write ? cap(fd, n, pg->max_write) : n));
}
ssize_t __real_recv(int fd, void *b, size_t n, int fl);
ssize_t __wrap_recv(int fd, void *b, size_t n, int fl)
{
    if (!pg) return __real_recv(fd, b, n, fl);
    if (inject(fd)) return after(-1);
    return after(__real_recv(fd, b, (pg->max_read && !(fl & MSG_PEEK)) ? cap(fd, n, pg->max_read) : n, fl));
}
ssize_t __real_send(int fd, const void *b, size_t n, int fl);
ssize_t __wrap_send(int fd, const void *b, size_t n, int fl)
{
    if (!pg) return __real_send(fd, b, n, fl);
    if (inject(fd)) return after(-1);
    return after(__real_send(fd, b, pg->max_write ? cap(fd, n, pg->max_write) : n, fl));
}
ssize_t __real_writev(int fd, const struct iovec *v, int c);
ssize_t __wrap_writev(int fd, const struct iovec *v, int c)
{
    if (!pg) return __real_writev(fd, v, c);
    if (inject(fd)) return after(-1);
    if (!pg->max_write || c <= 0 || !(issock(fd) || (pg->short_log && isreg(fd)))) return after(__real_writev(fd, v, c));
    struct iovec w[8];
    size_t left = 1 + rnd() % pg->max_write;
    int k = 0;
    while (k < c && k < 8 && left > 0) {
        w[k] = v[k];
        if (w[k].iov_len > left) w[k].iov_len = left;
        left -= w[k].iov_len;
        k++;
    }
    return after(__real_writev(fd, w, k));
}

void shim_busy(int delta)
{
    if (!pg) return;
    if (delta > 0) atomic_fetch_add(&pg->thr_started, 1);
    else atomic_fetch_add(&pg->thr_finished, 1);
}

int __real_tcsetattr(int fd, int how, const struct termios *t);
int __wrap_tcsetattr(int fd, int how, const struct termios *t)
{
    struct stat st;
    if (pg && t && fstat(fd, &st) == 0) {
        int k = pg->tty_seq % 31;
        pg->tty[k].dev = st.st_rdev;
        pg->tty[k].c = t->c_cflag;
        pg->tty[k].io = (int64_t) t->c_iflag << 32 | t->c_oflag;
        pg->tty[k].l = (int64_t) t->c_lflag << 16 | t->c_cc[VMIN] << 8 | t->c_cc[VTIME];
        pg->tty_seq++;
    }
    return __real_tcsetattr(fd, how, t);
}
