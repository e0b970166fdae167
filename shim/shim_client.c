/*  The client program waits in select() or pselect(). */
#include <stddef.h>
#include <signal.h>
#include <sys/select.h>

int shim_select(int n, fd_set *r, fd_set *w, fd_set *e, const struct timespec *tmo, const sigset_t *mask);

int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t)
{
    struct timespec s;
    if (t) { s.tv_sec = t->tv_sec; s.tv_nsec = t->tv_usec * 1000; }
    return shim_select(n, r, w, e, t ? &s : NULL, NULL);
}
int __wrap_pselect(int n, fd_set *r, fd_set *w, fd_set *e, const struct timespec *t, const sigset_t *m)
{
    return shim_select(n, r, w, e, t, m);
}
