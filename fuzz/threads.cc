// C28, C29: lists and the multiplexor used by many threads, under ThreadSanitizer.
// usage: threads list|tpoll SEED SECONDS [ITERATIONS]; every iteration is determined by its seed, but for the schedule.
#include <atomic>
#include <chrono>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <poll.h>
#include <fcntl.h>
#include <pthread.h>
#include <random>
#include <sched.h>
#include <set>
#include <string>
#include <sys/syscall.h>
#include <sys/time.h>
#include <thread>
#include <unistd.h>
#include <vector>
extern "C" {
#include "bool.h"
#include "list.h"
#include "tpoll.h"
}

typedef std::mt19937_64 Rng;
static unsigned long long cur;
static std::map<std::string, long> classes;
static long iterations, nontrivial;

[[noreturn]] static void fail(const char *fmt, ...)
{
    va_list v;
    char b[600];
    va_start(v, fmt);
    vsnprintf(b, sizeof b, fmt, v);
    va_end(v);
    char o[800];
    int n = snprintf(o, sizeof o, "ORACLE: %s (seed %llu)\n", b, cur);
    (void) !write(1, o, n);
    _exit(88);
}
#define CHECK(c, ...) do { if (!(c)) fail(__VA_ARGS__); } while (0)

// the kernel's accesses are not the program's
extern "C" int __wrap_poll(struct pollfd *f, nfds_t n, int ms)
{
    return (int) syscall(SYS_poll, f, n, ms);
}
static void jitter(Rng &r)
{
    switch (r() % 8) {
    case 0: sched_yield(); break;
    case 1: { volatile int x = 0; for (int k = r() % 300; k > 0; k--) x = x + 1; break; }
    case 2: if (r() % 16 == 0) usleep(r() % 60); break;
    default: break;
    }
}

// -- lists
struct Item {
    int prod, seq;
    bool stable;
    std::atomic<int> taken{0}, destroyed{0};
};
static void del(void *x)
{
    ((Item *) x)->destroyed++;
}
static int by_key(void *x, void *key)
{
    return ((Item *) x)->prod * 1000 + ((Item *) x)->seq == *(int *) key;
}
static int unstable_mod(void *x, void *key)
{
    Item *i = (Item *) x;
    return !i->stable && i->seq % 7 == *(int *) key;
}
static int order(void *a, void *b)
{
    Item *x = (Item *) a, *y = (Item *) b;
    return x->prod != y->prod ? (x->prod < y->prod ? -1 : 1) : x->seq < y->seq ? -1 : x->seq > y->seq;
}

static void list_round(Rng &r)
{
    int mode = r() % 4;             // 0: queue, 1: anything, 2: iterators over stable items, 3: everything incl. sort
    bool dtor = r() % 4 != 0;
    List l = list_create(dtor ? del : nullptr);
    int nt = 2 + r() % 5, nops = 10 + r() % 150, nstable = mode == 2 ? 1 + r() % 12 : 0;
    std::vector<std::unique_ptr<std::deque<Item>>> made;
    for (int t = 0; t <= nt; t++) made.emplace_back(new std::deque<Item>);
    for (int k = 0; k < nstable; k++) {
        made[nt]->emplace_back();
        Item &i = made[nt]->back();
        i.prod = 900; i.seq = k; i.stable = true;
        CHECK(list_append(l, &i) == &i, "append returned something else");
    }
    std::vector<unsigned long long> seeds;
    for (int t = 0; t < nt; t++) seeds.push_back(r());
    std::atomic<long> mut{0}, iter{0}, go{0}, created{nstable};
    auto body = [&](int t) {
        Rng g(seeds[t]);
        std::map<int, int> last;            // queue: last seen of each producer
        go++;
        while (go < nt) ;
        auto make = [&]() -> Item * {
            made[t]->emplace_back();
            Item &i = made[t]->back();
            i.prod = t; i.seq = (int) made[t]->size(); i.stable = false;
            created++;
            return &i;
        };
        auto took = [&](void *x) {
            if (!x) return;
            Item *i = (Item *) x;
            CHECK(!i->stable || mode != 2, "an item nobody removes was taken");
            CHECK(i->taken++ == 0, "item %d of thread %d was taken twice", i->seq, i->prod);
            CHECK(i->destroyed == 0, "item %d of thread %d was taken and destroyed", i->seq, i->prod);
            if (mode == 0) {
                CHECK(last[i->prod] < i->seq, "queue: item %d of thread %d after item %d", i->seq, i->prod, last[i->prod]);
                last[i->prod] = i->seq;
            }
            mut++;
        };
        for (int k = 0; k < nops; k++) {
            jitter(g);
            int op = g() % (mode == 0 ? 6 : mode == 1 ? 11 : 14);
            if (mode == 2 && (op == 3 || op == 4 || op == 6 || op == 8)) op = 12;        // the stable ones are not to be popped
            switch (op) {
            case 0: case 1: case 2: {
                Item *i = make();
                void *x = g() % 2 ? list_append(l, i) : list_enqueue(l, i);
                CHECK(x == i, "append returned something else");
                mut++;
                break;
            }
            case 3: took(list_pop(l)); break;
            case 4: took(list_dequeue(l)); break;
            case 5: {
                long n = list_count(l);
                CHECK(n >= nstable && n <= created, "count %ld of at most %ld items", n, created.load());
                if (mode == 2) CHECK(!list_is_empty(l), "a list with items is empty");
                list_is_empty(l);
                break;
            }
            case 6: took(list_pop(l)); break;
            case 7: {
                Item *i = make();
                CHECK((g() % 2 ? list_prepend(l, i) : list_push(l, i)) == i, "prepend returned something else");
                mut++;
                break;
            }
            case 8: list_peek(l); break;
            case 9: {
                int key = (g() % nt) * 1000 + g() % (nops + 1);
                Item *i = (Item *) list_find_first(l, by_key, &key);
                if (i) CHECK(i->prod * 1000 + i->seq == key, "find returned another item");
                if (mode == 2) {
                    int q = 900 * 1000 + g() % nstable;
                    i = (Item *) list_find_first(l, by_key, &q);
                    CHECK(i && i->prod == 900, "an item that stays was not found");
                }
                break;
            }
            case 10:
                if (dtor) {
                    int m = g() % 7;
                    int n = list_delete_all(l, unstable_mod, &m);
                    CHECK(n >= 0 && n <= created, "delete_all returned %d", n);
                    mut += n;
                }
                break;
            case 13:
                if (mode == 3) { list_sort(l, order); mut++; break; }
                /* fall through */
            default: {          // a pass of an iterator
                ListIterator it = list_iterator_create(l);
                int want = 0, steps = 0;
                void *x;
                while ((x = list_next(it)) && steps++ < 4000) {
                    Item *i = (Item *) x;
                    if (i->stable) {
                        CHECK(i->seq == want, "an iterator is at item %d of those that stay, after %d", i->seq, want - 1);
                        want++;
                    }
                    else if (g() % 5 == 0) {
                        if (mode == 2 || g() % 2) {
                            Item *n = make();
                            CHECK(list_insert(it, n) == n, "insert returned something else");
                        }
                        mut++;
                    }
                    else if (g() % 4 == 0) {
                        void *q = list_remove(it);
                        took(q);
                        if (mode == 2 && q) CHECK(!((Item *) q)->stable, "remove took another item");
                    }
                    else if (dtor && g() % 5 == 0) {
                        int n = list_delete(it);
                        CHECK(n == 0 || n == 1, "delete returned %d", n);
                        mut++;
                    }
                    if (g() % 8 == 0) jitter(g);
                    if (nstable == 0 && g() % 20 == 0) break;
                }
                if (nstable && !x) CHECK(want == nstable, "an iterator saw %d of %d items that stay", want, nstable);
                list_iterator_destroy(it);
                iter++;
            }
            }
        }
    };
    std::vector<std::thread> th;
    for (int t = 0; t < nt; t++) th.emplace_back(body, t);
    for (auto &t : th) t.join();
    // every item is taken, destroyed or still there
    std::map<Item *, int> left;
    ListIterator it = list_iterator_create(l);
    long n = 0;
    for (void *x; (x = list_next(it)); n++) {
        CHECK(left[(Item *) x]++ == 0, "an item is in the list twice");
        CHECK(n < 1000000, "the list has no end");
    }
    list_iterator_destroy(it);
    CHECK(list_count(l) == n, "count %d, but %ld items", list_count(l), n);
    CHECK(list_is_empty(l) == (n == 0), "is_empty");
    for (auto &m : made)
        for (Item &i : *m) {
            int c = i.taken + i.destroyed + left.count(&i);
            CHECK(c == 1, "item %d of thread %d: taken %d times, destroyed %d times, %s in the list at the end", i.seq, i.prod, i.taken.load(), i.destroyed.load(), left.count(&i) ? "" : "not");
        }
    if (mode == 0) {
        std::map<int, int> last;
        while (void *x = list_pop(l)) {
            Item *i = (Item *) x;
            CHECK(last[i->prod] < i->seq, "queue: at the end item %d of thread %d after item %d", i->seq, i->prod, last[i->prod]);
            last[i->prod] = i->seq;
        }
        left.clear();
    }
    list_destroy(l);
    for (auto &i : left) CHECK(i.first->destroyed == (dtor ? 1 : 0), "an item was destroyed %d times with the list", i.first->destroyed.load());
    const char *names[] = {"queue", "sequence", "iterators over items that stay", "iterators and sorting"};
    classes[names[mode]]++;
    if (mut > 10 && nt > 1) nontrivial++;
}

// -- the multiplexor
struct Tim {
    double due = 0;
    std::atomic<int> fired{0}, early{0};
    int cancelled = 0;
    pthread_t in{};
};
static double now()
{
    struct timeval tv;
    gettimeofday(&tv, nullptr);
    return tv.tv_sec + tv.tv_usec / 1e6;
}
static void fire(void *a)
{
    Tim *t = (Tim *) a;
    if (now() < t->due) t->early++;
    t->fired++;
    t->in = pthread_self();
}

static void tpoll_round(Rng &r)
{
    int nt = 1 + r() % 4, nops = 5 + r() % 40;
    tpoll_t tp = tpoll_create(r() % 2 ? 0 : 1 + r() % 40);
    CHECK(tp, "tpoll_create failed");
    struct Pipe { int r, w; std::atomic<long> got{0}; long sent = 0; };
    std::vector<std::vector<std::unique_ptr<Pipe>>> pipes(nt);
    std::vector<std::deque<Tim>> tims(nt);
    std::vector<Pipe *> all;
    for (int t = 0; t < nt; t++)
        for (int k = 1 + r() % 3; k > 0; k--) {
            int p[2];
            CHECK(pipe(p) == 0, "pipe");
            // descriptors beyond the table make it grow
            if (r() % 3 == 0) {
                int hi = fcntl(p[0], F_DUPFD, (int) (50 + r() % 600));
                if (hi >= 0) { close(p[0]); p[0] = hi; }
            }
            fcntl(p[0], F_SETFL, O_NONBLOCK);
            pipes[t].emplace_back(new Pipe);
            pipes[t].back()->r = p[0];
            pipes[t].back()->w = p[1];
            all.push_back(pipes[t].back().get());
        }
    std::atomic<bool> stop{false};
    std::atomic<int> done{0};
    std::atomic<long> polls{0};
    pthread_t mainid;
    bool forever = r() % 2;
    unsigned long long ms = r();
    std::thread mux([&] {
        Rng g(ms);
        while (!stop) {
            int rc = tpoll(tp, forever ? -1 : (int) (g() % 200));
            CHECK(rc >= 0 || errno == EINTR, "tpoll returned %d: %s", rc, strerror(errno));
            polls++;
            int seen = 0;
            for (Pipe *p : all)
                if (tpoll_is_set(tp, p->r, POLLIN) > 0) {
                    char c;
                    if (read(p->r, &c, 1) == 1) p->got++;
                    seen++;
                }
            (void) seen;
            jitter(g);
        }
    });
    mainid = mux.native_handle();
    std::vector<unsigned long long> seeds;
    for (int t = 0; t < nt; t++) seeds.push_back(r());
    auto body = [&](int t) {
        Rng g(seeds[t]);
        std::vector<std::pair<int, Tim *>> ids;
        for (int k = 0; k < nops; k++) {
            jitter(g);
            switch (g() % 5) {
            case 0: case 1: {
                tims[t].emplace_back();
                Tim *m = &tims[t].back();
                int ms = g() % 4 == 0 ? 0 : (int) (g() % 12);
                m->due = now() + ms / 1000. - 1e-6;
                int id = tpoll_timeout_relative(tp, fire, m, ms);
                CHECK(id > 0, "tpoll_timeout_relative returned %d", id);
                ids.emplace_back(id, m);
                break;
            }
            case 2:
                if (!ids.empty()) {
                    size_t x = g() % ids.size();
                    int rc = tpoll_timeout_cancel(tp, ids[x].first);
                    CHECK(rc == 0 || rc == 1, "cancel returned %d", rc);
                    if (rc == 1) {
                        CHECK(!ids[x].second->cancelled, "a timer was cancelled twice");
                        ids[x].second->cancelled = 1;
                    }
                    ids.erase(ids.begin() + x);
                }
                break;
            default: {
                Pipe *p = pipes[t][g() % pipes[t].size()].get();
                long n = p->got;
                bool first = g() % 2;
                if (first) { CHECK(write(p->w, "x", 1) == 1, "write"); p->sent++; }
                CHECK(tpoll_set(tp, p->r, POLLIN) == 0, "tpoll_set failed");
                if (!first) { jitter(g); CHECK(write(p->w, "x", 1) == 1, "write"); p->sent++; }
                double end = now() + 20;
                while (p->got <= n) {
                    CHECK(now() < end, "descriptor %d is readable and its event requested, but nothing was reported for 20 s", p->r);
                    if (g() % 4 == 0) usleep(20); else sched_yield();
                }
                CHECK(p->got == p->sent, "descriptor %d was reported readable %ld times, %ld bytes were written", p->r, p->got.load(), p->sent);
                if (g() % 4) CHECK(tpoll_clear(tp, p->r, POLLIN) == 0, "tpoll_clear failed");
            }
            }
        }
        done++;
    };
    std::vector<std::thread> th;
    for (int t = 0; t < nt; t++) th.emplace_back(body, t);
    for (auto &t : th) t.join();
    long nf = 0, nc = 0;
    double end = now() + 20;
    for (auto &q : tims)
        for (Tim &m : q) {
            while (!m.fired && !m.cancelled) {
                CHECK(now() < end, "a timer did not fire within 20 s of its time");
                usleep(50);
            }
        }
    stop = true;
    Tim last;
    CHECK(tpoll_timeout_relative(tp, fire, &last, 0) > 0, "tpoll_timeout_relative failed");
    all[0]->sent++;
    CHECK(write(all[0]->w, "x", 1) == 1 && tpoll_set(tp, all[0]->r, POLLIN) == 0, "tpoll_set failed");
    mux.join();
    for (auto &q : tims)
        for (Tim &m : q) {
            CHECK(m.fired + m.cancelled == 1, "a timer fired %d times and was cancelled %d times", m.fired.load(), m.cancelled);
            CHECK(!m.early, "a timer fired early");
            if (m.fired) { nf++; CHECK(m.in == mainid, "a timer fired in another thread"); }
            nc += m.cancelled;
        }
    tpoll_destroy(tp);
    for (Pipe *p : all) { close(p->r); close(p->w); }
    classes[forever ? "waiting without limit" : "waiting with limits"]++;
    if (nc) classes["cancelled timers"]++;
    if (nf > 2) nontrivial++;
}

int main(int argc, char **argv)
{
    if (argc < 4) return 2;
    bool li = !strcmp(argv[1], "list");
    unsigned long long seed = strtoull(argv[2], nullptr, 0);
    double secs = atof(argv[3]), t0 = now();
    long max = argc > 4 ? atol(argv[4]) : 1L << 60;
    while (iterations < max && now() - t0 < secs) {
        cur = seed + (argc > 4 ? 0 : iterations);
        char b[64];
        int n = snprintf(b, sizeof b, "SEED %llu\n", cur);
        (void) !write(1, b, n);
        alarm(60);
        Rng r(cur);
        if (li) list_round(r); else tpoll_round(r);
        iterations++;
    }
    printf("DONE %ld %ld", iterations, nontrivial);
    for (auto &c : classes) printf(";%s=%ld", c.first.c_str(), c.second);
    printf("\n");
    return 0;
}
