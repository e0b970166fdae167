/*  Stand-in for the part of libipmiconsole that talks to a BMC (-Wl,--wrap=ipmiconsole_*).
 *  Host H is emulated by the driver as a unix socket $FAKEIPMI/H: connecting succeeds when it listens.
 *  The first line sent on the connection describes the configuration the daemon passed for H;
 *  a break arrives as a datagram-like line on a second connection ("BREAK\n").
 *  As in the real library the callback is called from an engine thread, never from submit.
 */
#define _GNU_SOURCE
#include <ipmiconsole.h>
#include <pthread.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>

void shim_busy(int delta);
ssize_t __real_write(int fd, const void *b, size_t n);
int __real_socket(int d, int t, int p);
int __real_connect(int fd, const struct sockaddr *a, socklen_t l);
/*  Injected faults are not meant for the stand-in itself. */
#define write __real_write
#define socket __real_socket
#define connect __real_connect

struct fctx {
    char host[256], user[64], pass[64], kg[128];
    int priv, cipher; unsigned wflags;
    int fd, status, err, refs;
    Ipmiconsole_callback cb; void *arg;
};

static const char *dir(void)
{
    static char d[256];
    if (!d[0]) { const char *e = getenv("FAKEIPMI"); snprintf(d, sizeof d, "%s", e ? e : "-"); }
    return d;
}
__attribute__((constructor(102))) static void init(void) { dir(); }

static int dial(const char *host)
{
    struct sockaddr_un a; int s;
    memset(&a, 0, sizeof a); a.sun_family = AF_UNIX;
    snprintf(a.sun_path, sizeof a.sun_path, "%s/%s", dir(), host);
    if ((s = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0)) < 0) return -1;
    if (connect(s, (struct sockaddr *) &a, sizeof a) < 0) { close(s); return -1; }
    return s;
}
static void hex(char *dst, size_t n, const void *src, size_t len)
{
    const unsigned char *p = src; size_t i;
    dst[0] = '-'; dst[1] = 0;
    if (!p) return;
    dst[0] = 'x'; dst[1] = 0;
    for (i = 0; i < len && 2 * i + 3 < n; i++) sprintf(dst + 1 + 2 * i, "%02x", p[i]);
}

int __wrap_ipmiconsole_engine_init(unsigned int n, unsigned int f) { return 0; }
void __wrap_ipmiconsole_engine_teardown(int c) { }

ipmiconsole_ctx_t __wrap_ipmiconsole_ctx_create(const char *host, struct ipmiconsole_ipmi_config *ic,
    struct ipmiconsole_protocol_config *pc, struct ipmiconsole_engine_config *ec)
{
    struct fctx *c = calloc(1, sizeof *c);
    snprintf(c->host, sizeof c->host, "%s", host);
    hex(c->user, sizeof c->user, ic->username, ic->username ? strlen(ic->username) : 0);
    hex(c->pass, sizeof c->pass, ic->password, ic->password ? strlen(ic->password) : 0);
    hex(c->kg, sizeof c->kg, ic->k_g, ic->k_g_len);
    c->priv = ic->privilege_level; c->cipher = ic->cipher_suite_id; c->wflags = ic->workaround_flags;
    c->fd = -1; c->refs = 1; c->status = IPMICONSOLE_CTX_STATUS_NOT_SUBMITTED;
    return (ipmiconsole_ctx_t) c;
}
static void unref(struct fctx *c) { if (__atomic_sub_fetch(&c->refs, 1, __ATOMIC_SEQ_CST) == 0) free(c); }
void __wrap_ipmiconsole_ctx_destroy(ipmiconsole_ctx_t x) { unref((struct fctx *) x); }

static void *engine(void *p)
{
    struct fctx *c = p;
    char b[1024];
    int s = dial(c->host);
    if (s >= 0) {
        int n = snprintf(b, sizeof b, "CONF %s %s %s %d %d %u\n", c->user, c->pass, c->kg, c->priv, c->cipher, c->wflags);
        if (write(s, b, n) != n) { close(s); s = -1; }
    }
    c->fd = s;
    c->status = s >= 0 ? IPMICONSOLE_CTX_STATUS_SOL_ESTABLISHED : IPMICONSOLE_CTX_STATUS_SOL_ERROR;
    c->err = s >= 0 ? 0 : IPMICONSOLE_ERR_SESSION_TIMEOUT;
    c->cb(c->arg);
    unref(c);
    shim_busy(-1);
    return NULL;
}
int __real_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg);
int __wrap_ipmiconsole_engine_submit(ipmiconsole_ctx_t x, Ipmiconsole_callback cb, void *arg)
{
    struct fctx *c = (struct fctx *) x;
    pthread_t t;
    c->cb = cb; c->arg = arg; c->status = IPMICONSOLE_CTX_STATUS_SUBMITTED;
    __atomic_add_fetch(&c->refs, 1, __ATOMIC_SEQ_CST);
    shim_busy(1);
    if (__real_pthread_create(&t, NULL, engine, c)) { shim_busy(-1); unref(c); return -1; }
    pthread_detach(t);
    return 0;
}
ipmiconsole_ctx_status_t __wrap_ipmiconsole_ctx_status(ipmiconsole_ctx_t x) { return ((struct fctx *) x)->status; }
int __wrap_ipmiconsole_ctx_fd(ipmiconsole_ctx_t x) { return ((struct fctx *) x)->fd; }
int __wrap_ipmiconsole_ctx_errnum(ipmiconsole_ctx_t x) { return ((struct fctx *) x)->err; }
int __wrap_ipmiconsole_ctx_generate_break(ipmiconsole_ctx_t x)
{
    int s = dial(((struct fctx *) x)->host);
    if (s < 0) return -1;
    int r = write(s, "BREAK\n", 6) == 6 ? 0 : -1;
    close(s);
    return r;
}
