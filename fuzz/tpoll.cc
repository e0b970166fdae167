// C29: the multiplexor on virtual time and simulated descriptors against a model of timers and event sets.
#include "common.h"
#include <algorithm>
#include <cerrno>
#include <climits>
#include <fcntl.h>
#include <poll.h>
#include <sys/time.h>
extern "C" {
#include "bool.h"
#include "tpoll.h"
}

struct Timer { int id; long long at; long seq; int tag; };
struct Case {
    Input &in;
    tpoll_t tp = nullptr;
    int rfd, wfd, pending = 0;                              // the wake-up pipe
    long long now = 1600000000000000LL, deadline = 0, entry = 0;
    long seq = 0;
    int ms = 0, depth = 0, fired = 0, polls = 0, last_rc = 0, last_ready = 0, ops = 0, next_tag = 0;
    bool stale = false, in_tpoll = false, in_block = false, concurrent = false, first_poll = false;
    std::map<int, short> events, revents, ready;            // ready: state of the world
    std::set<int> unknown;                                  // touched while another thread was polling
    std::vector<Timer> timers;
    Case(Input &i) : in(i) {}
    void op();
    void wait();
    void query();
    Timer *first() { Timer *b = nullptr; for (auto &t : timers) if (!b || t.at < b->at || (t.at == b->at && t.seq < b->seq)) b = &t; return b; }
};
static Case *C;
struct Arg { Case *c; int tag; };
static std::vector<Arg *> args;

extern "C" {
int __real_poll(struct pollfd *, nfds_t, int);
int __real_gettimeofday(struct timeval *, void *);
int __real_pipe(int *);
ssize_t __real_read(int, void *, size_t);
ssize_t __real_write(int, const void *, size_t);
int __real_close(int);
int __real_fcntl(int, int, long);

int __wrap_gettimeofday(struct timeval *tv, void *z)
{
    if (!C) return __real_gettimeofday(tv, z);
    tv->tv_sec = C->now / 1000000;
    tv->tv_usec = C->now % 1000000;
    return 0;
}
int __wrap_pipe(int *p)
{
    if (!C) return __real_pipe(p);
    p[0] = C->rfd; p[1] = C->wfd;
    return 0;
}
int __wrap_fcntl(int fd, int cmd, long x)
{
    if (!C || (fd != C->rfd && fd != C->wfd)) return __real_fcntl(fd, cmd, x);
    return 0;
}
int __wrap_close(int fd)
{
    if (!C || (fd != C->rfd && fd != C->wfd)) return __real_close(fd);
    return 0;
}
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
    if (!C || fd != C->wfd) return __real_write(fd, b, n);
    if (C->in.below(16) == 15) { errno = EINTR; return -1; }
    C->pending += n;
    return n;
}
ssize_t __wrap_read(int fd, void *b, size_t n)
{
    if (!C || fd != C->rfd) return __real_read(fd, b, n);
    if (C->in.below(16) == 15) { errno = EINTR; return -1; }
    if (!C->pending) { errno = EAGAIN; return -1; }
    n = std::min<size_t>(n, C->pending);
    C->pending -= n;
    memset(b, 0, n);
    return n;
}

int __wrap_poll(struct pollfd *fds, nfds_t n, int timeout)
{
    if (!C || !C->in_tpoll) return __real_poll(fds, n, timeout);
    Case &c = *C;
    c.polls++;
    CHECK(c.polls < 3000, "it polls again and again");
    // what it waits for
    std::vector<struct pollfd> orig(fds, fds + n);
    std::map<int, short> snap;
    bool pipe = false;
    for (nfds_t i = 0; i < n; i++) {
        if (fds[i].fd < 0) continue;
        if (fds[i].fd == c.rfd) { pipe = fds[i].events & POLLIN; continue; }
        CHECK(!snap.count(fds[i].fd), "descriptor %d twice", fds[i].fd);
        snap[fds[i].fd] = fds[i].events;
    }
    CHECK(pipe, "it polls without its wake-up pipe");
    if (snap != c.events) {
        for (auto &e : c.events) if (!snap.count(e.first) || snap[e.first] != e.second) fail("polls descriptor %d for 0x%x, expected 0x%x", e.first, snap.count(e.first) ? snap[e.first] : 0, e.second);
        for (auto &e : snap) if (!c.events.count(e.first)) fail("polls descriptor %d for 0x%x, which is not registered", e.first, e.second);
    }
    if (c.first_poll) {
        for (auto &t : c.timers) CHECK(t.at > c.entry, "timer %d was due at the call and did not fire", t.id);
        c.first_poll = false;
    }
    // how long it waits
    Timer *f = c.first();
    if (c.ms == 0) CHECK(timeout == 0, "it blocks for %d ms when asked not to", timeout);
    else if (c.ms < 0 && !f) CHECK(c.events.empty() ? timeout == 0 : timeout < 0, "it waits %d ms with %zu descriptors and no timers", timeout, c.events.size());
    else {
        long long until = c.ms > 0 ? c.deadline : LLONG_MAX;
        if (f) until = std::min(until, f->at);
        long long d = until - c.now;
        if (d <= 0) CHECK(timeout == 0, "it waits %d ms although a timer is due or the time is over", timeout);
        else CHECK(timeout >= 0 && timeout <= d / 1000 + 1 && timeout >= std::min<long long>(d / 1000, 1000) && timeout > 0, "it waits %d ms, %lld us before the next timer or the end", timeout, d);
    }
    trc("[poll %zu fds %d ms", snap.size(), timeout);
    if (c.in.below(24) == 23) { errno = EINTR; c.last_rc = -1; c.stale = true; trc(" EINTR] "); return -1; }
    long long end = timeout < 0 ? LLONG_MAX : c.now + 1000LL * timeout;
    c.concurrent = false;
    auto count = [&]() {
        int k = 0;
        for (auto &s : snap) if (c.ready.count(s.first) && (c.ready[s.first] & (s.second | POLLERR | POLLHUP | POLLNVAL))) k++;
        return k;
    };
    // meanwhile: time passes, descriptors become ready, other threads act
    while (!count() && !c.pending && c.now < end) {
        unsigned k = c.in.empty() ? 9 : c.in.below(10);
        if (k < 2 && !snap.empty()) {
            auto i = snap.begin();
            std::advance(i, c.in.below(snap.size()));
            short r = c.in.pick({POLLIN, POLLOUT, POLLERR, POLLHUP, POLLNVAL, POLLIN | POLLOUT, POLLIN | POLLHUP, POLLPRI});
            c.ready[i->first] |= r;
            trc(" %d ready 0x%x", i->first, r);
        } else if (k < 5) {
            long long left = end == LLONG_MAX ? 10000000 : end - c.now;
            c.now += std::min<long long>(left, c.in.u16() * 10LL);
        } else if (k < 8) {
            c.in_block = true;
            c.concurrent = true;
            trc(" other thread: ");
            c.op();
            c.in_block = false;
        } else if (end != LLONG_MAX) c.now = end;
        else if (c.in.empty() || k == 9) { errno = EINTR; c.last_rc = -1; c.stale = true; trc(" EINTR] "); return -1; }
        if (!c.pending) {
            // nobody woke it, so nothing it must know about may have changed
            for (auto &e : c.events) CHECK(snap.count(e.first) && !(e.second & ~snap[e.first]), "a blocked wait is not told that descriptor %d is wanted for 0x%x", e.first, e.second);
            Timer *g = c.first();
            if (g) CHECK(end != LLONG_MAX && end <= std::max(g->at, c.now) + 2000, "a blocked wait is not told of an earlier timer");
        }
    }
    int rc = 0;
    c.last_ready = 0;
    for (nfds_t i = 0; i < n; i++) {                        // as the kernel: what it copied at the call, into the array that was passed
        int fd = orig[i].fd;
        short r = 0;
        if (fd == c.rfd) r = c.pending ? POLLIN : 0;
        else if (fd >= 0 && c.ready.count(fd)) r = c.ready[fd] & (orig[i].events | POLLERR | POLLHUP | POLLNVAL);
        fds[i].revents = r;
        if (r) { rc++; if (fd != c.rfd) c.last_ready++; }
    }
    for (auto &e : c.events) c.revents[e.first] = snap.count(e.first) && c.ready.count(e.first) ? c.ready[e.first] & (snap[e.first] | POLLERR | POLLHUP | POLLNVAL) : 0;
    if (!c.concurrent) c.unknown.clear();
    c.stale = false;
    c.last_rc = rc;
    trc(" -> %d] ", rc);
    return rc;
}
}

static void fire(void *p)
{
    Arg *a = (Arg *) p;
    Case &c = *a->c;
    Timer *f = c.first();
    CHECK(f, "a timer fires that is not set (number %d)", a->tag);
    auto me = std::find_if(c.timers.begin(), c.timers.end(), [&](Timer &t) { return t.tag == a->tag; });
    CHECK(me != c.timers.end(), "timer number %d fires although it fired before or was cancelled", a->tag);
    CHECK(me->at <= c.now, "timer %d fires %lld us early", me->id, me->at - c.now);
    CHECK(f->tag == a->tag, "timer %d fires before timer %d, which is due earlier", me->id, f->id);
    trc("(timer %d) ", me->id);
    c.timers.erase(me);
    c.fired++;
    if (c.depth < 3 && !c.in.empty() && c.in.below(3) == 0) {
        c.depth++;
        if (c.in.flip()) c.now += c.in.u16();
        trc("in the callback: ");
        c.op();
        cls("operation in a callback");
        c.depth--;
    }
}

void Case::op()
{
    if (++ops > 400) return;
    short ev = (short) in.pick({POLLIN, POLLIN, POLLOUT, POLLIN | POLLOUT, POLLPRI, POLLIN | POLLPRI, 0});
    auto descr = [&]() { int fd = in.below(8) < 6 ? (int) in.below(12) : in.pick({255, 256, 257, 511, 512, 513, 1023, 1024, 2047, 3000}); return fd == rfd || fd == wfd ? fd + 2 : fd; };
    switch (in.below(12)) {
    case 0: case 1: case 2: {
        int fd = descr();
        trc("set %d 0x%x; ", fd, ev);
        CHECK(tpoll_set(tp, fd, ev) == 0, "tpoll_set fails");
        if (ev) { if (!events.count(fd)) revents[fd] = 0; events[fd] |= ev; }
        if (in_block) unknown.insert(fd);
        break;
    }
    case 3: case 4: {
        int fd = descr();
        if (!events.empty() && in.flip()) { auto i = events.begin(); std::advance(i, in.below(events.size())); fd = i->first; }
        if (in.below(3) == 0) ev = POLLIN | POLLOUT | POLLPRI;
        trc("clear %d 0x%x; ", fd, ev);
        CHECK(tpoll_clear(tp, fd, ev) == 0, "tpoll_clear fails");
        if (events.count(fd)) { events[fd] &= ~ev; if (!events[fd]) { events.erase(fd); revents.erase(fd); } }
        if (in_block) unknown.insert(fd);
        break;
    }
    case 5: case 6: case 7: {
        Arg *a = new Arg{this, next_tag++};
        args.push_back(a);
        long long at;
        int id;
        if (in.flip()) {
            int m = in.pick({0, 1, 1, 2, 5, 10, 100, 1000, 60000, -1, 1800000, 2147483647});
            at = now + (m > 0 ? m * 1000LL : 0);
            trc("timer in %d ms; ", m);
            id = tpoll_timeout_relative(tp, fire, a, m);
        } else {
            at = now + in.pick({0, 1, -1, 500, 999, 1000, 1001, 1500, 2000, -1000000, 1000000, 12345678}) + (in.below(4) == 0 ? (long long) in.u32() * 1000 : 0);
            if (!timers.empty() && in.below(3) == 0) at = timers[in.below(timers.size())].at;
            struct timeval tv = {(time_t) (at / 1000000), (suseconds_t) (at % 1000000)};
            trc("timer at %+lld us; ", at - now);
            id = tpoll_timeout_absolute(tp, fire, a, &tv);
        }
        CHECK(id > 0, "timer id %d", id);
        for (auto &t : timers) CHECK(t.id != id, "timer id %d is in use", id);
        timers.push_back({id, at, seq++, a->tag});
        break;
    }
    case 8: case 9: {
        int id = !timers.empty() && in.below(4) ? timers[in.below(timers.size())].id : (int) in.below(40) - 2;
        auto me = std::find_if(timers.begin(), timers.end(), [&](Timer &t) { return t.id == id; });
        int want = id <= 0 ? -1 : me != timers.end();
        trc("cancel %d; ", id);
        int got = tpoll_timeout_cancel(tp, id);
        CHECK(got == want, "cancelling timer %d gives %d, expected %d", id, got, want);
        if (want == 1) { timers.erase(me); cls("cancelled"); }
        break;
    }
    case 10: {
        if (in.below(6)) break;
        int how = in.pick({(int) TPOLL_ZERO_FDS, (int) TPOLL_ZERO_TIMERS, (int) TPOLL_ZERO_ALL, (int) TPOLL_ZERO_ALL, 0, 4, 7, 8});
        trc("zero %d; ", how);
        int got = tpoll_zero(tp, (tpoll_zero_t) how);
        CHECK(got == (how & ~3 ? -1 : 0), "tpoll_zero %d gives %d", how, got);
        if (how & ~3) break;
        if (how & TPOLL_ZERO_FDS) { if (in_block) for (auto &e : events) unknown.insert(e.first); events.clear(); revents.clear(); }
        if (how & TPOLL_ZERO_TIMERS) timers.clear();
        break;
    }
    default:
        if (!in_block) query();
    }
}

void Case::query()
{
    if (stale) return;                                      // nothing is said about events after an interrupted wait
    for (int k = 1 + in.below(4); k; k--) {
        int fd = in.below(12);
        if (!revents.empty() && in.flip()) { auto i = revents.begin(); std::advance(i, in.below(revents.size())); fd = i->first; }
        short m = (short) in.pick({POLLIN, POLLOUT, POLLIN | POLLOUT, POLLERR, POLLHUP | POLLERR | POLLNVAL, POLLPRI, 0xff});
        if (fd == rfd || fd == wfd || unknown.count(fd)) continue;
        int got = tpoll_is_set(tp, fd, m);
        int want = events.count(fd) ? revents[fd] & m : 0;
        CHECK((got > 0) == (want != 0) && got >= 0, "tpoll_is_set %d 0x%x gives %d, expected 0x%x", fd, m, got, want);
    }
}

void Case::wait()
{
    ms = in.pick({0, 0, -1, -1, 1, 5, 10, 1000, 60000, 3600000});
    entry = now;
    deadline = now + 1000LL * ms;
    first_poll = true;
    in_tpoll = true;
    polls = 0;
    last_rc = last_ready = 0;
    trc("tpoll %d: ", ms);
    int rc = tpoll(tp, ms);
    in_tpoll = false;
    trc("= %d; ", rc);
    CHECK(polls > 0 || rc == 0, "tpoll %d returns %d without looking", ms, rc);
    if (last_rc < 0) CHECK(rc == -1, "tpoll returns %d after an interruption", rc);
    else if (rc == 0) {
        CHECK(ms == 0 || (ms > 0 && now >= deadline) || (ms < 0 && events.empty() && timers.empty()), "tpoll %d returns 0 after %lld us with %zu descriptors and %zu timers", ms, now - entry, events.size(), timers.size());
        CHECK(concurrent || !last_ready, "tpoll returns 0 although %d descriptors are ready", last_ready);
    } else {
        CHECK(rc > 0, "tpoll returns %d", rc);
        CHECK(rc == last_ready || (concurrent && rc <= last_ready), "tpoll returns %d, %d descriptors are ready", rc, last_ready);
        cls("descriptors ready");
    }
    if (concurrent) cls("another thread acted during the wait");
    query();
}

bool one(Input &in)
{
    Case c(in);
    static const int pipes[][2] = {{3, 4}, {3, 4}, {10, 11}, {255, 256}, {256, 257}, {400, 401}, {5, 900}};
    int k = in.below(7);
    c.rfd = pipes[k][0];
    c.wfd = pipes[k][1];
    C = &c;
    int n = in.pick({0, 0, 1, 2, 4, 10, 256, 300, -1});
    trc("create %d, pipe %d; ", n, c.rfd);
    c.tp = tpoll_create(n);
    CHECK(c.tp, "tpoll_create fails");
    int waits = 0;
    for (int steps = 0; !in.empty() && steps < 200; steps++) {
        unsigned o = in.below(8);
        if (o < 4) c.op();
        else if (o < 5) {                                   // the world
            int fd = in.below(12);
            short r = (short) in.pick({0, 0, POLLIN, POLLOUT, POLLERR, POLLHUP, POLLIN | POLLOUT});
            trc("%d ready 0x%x; ", fd, r);
            c.ready[fd] = r;
        } else if (o < 6) c.now += in.u16() * 100LL;
        else { c.wait(); waits++; }
        CHECK(tpoll_set(c.tp, -1, POLLIN) == -1 && tpoll_clear(c.tp, -1, POLLIN) == -1 && tpoll_is_set(c.tp, -1, POLLIN) == -1, "a negative descriptor is accepted");
    }
    int before = c.fired;
    tpoll_destroy(c.tp);
    CHECK(c.fired == before, "destroying fires a timer");
    bool nt = waits > 0 && c.fired > 0 && c.ops > 4;
    if (c.fired) cls("timers fired");
    C = nullptr;
    for (Arg *a : args) delete a;
    args.clear();
    return nt;
}
