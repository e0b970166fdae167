// C28: lists and iterators against an ideal sequence.
#include "common.h"
#include <algorithm>
#include <list>
#include <memory>
extern "C" {
#include "list.h"
}

struct Item { int key, id; };
static std::vector<Item *> destroyed;
static void on_destroy(void *x) { destroyed.push_back((Item *) x); }
static int match(void *x, void *key) { return ((Item *) x)->key == *(int *) key; }
static int by_key(void *a, void *b) { int x = ((Item *) a)->key, y = ((Item *) b)->key; return x < y ? -1 : x > y; }
static int by_key_down(void *a, void *b) { return 1000 * (((Item *) b)->key - ((Item *) a)->key); }

// the ideal sequence; an iterator stands before the element `pos` and remembers the element it returned
struct Seq;
struct It { ListIterator real; std::list<Item *>::iterator pos, last; bool has; };
struct Seq {
    List real;
    bool del;
    std::list<Item *> v;
    std::vector<It *> its;
    void inserted(std::list<Item *>::iterator n) {          // n was inserted: which iterators will still visit it?
        auto q = std::next(n);
        for (It *i : its)
            if (i->pos == q && i->has && i->last != q) {
                // between the last element returned and the next
                i->pos = n;
            }
    }
    Item *removed(std::list<Item *>::iterator r) {
        Item *x = *r;
        for (It *i : its) {
            if (i->pos == r) i->pos = std::next(r);
            if (i->has && i->last == r) i->has = false;
        }
        v.erase(r);
        return x;
    }
};

static std::string items(const std::list<Item *> &v) { std::string s; for (Item *x : v) s += std::to_string(x->key) + "#" + std::to_string(x->id) + " "; return s; }

bool one(Input &in)
{
    std::vector<std::unique_ptr<Item>> pool;
    std::vector<std::unique_ptr<It>> ipool;
    Seq L[2];
    int nl = 1 + (in.below(4) == 0);
    destroyed.clear();
    std::vector<Item *> want;                               // items the destructor must have seen
    for (int i = 0; i < nl; i++) {
        L[i].del = in.below(4) != 0;
        L[i].real = list_create(L[i].del ? on_destroy : nullptr);
        CHECK(L[i].real, "no list");
        trc("list %d %s; ", i, L[i].del ? "destroys" : "keeps");
    }
    int steps = 0, mutations_under_iteration = 0;
    while (!in.empty() && steps < 300) {
        steps++;
        int li = nl > 1 ? in.below(2) : 0;
        Seq &s = L[li];
        List l = s.real;
        unsigned op = in.below(32);
        auto fresh = [&]() { pool.emplace_back(new Item{(int) in.below(6), (int) pool.size()}); return pool.back().get(); };
        It *it = s.its.empty() ? nullptr : s.its[in.below(s.its.size())];
        if (!s.its.empty() && op < 12) mutations_under_iteration++;
        int key;
        Item *x;
        void *r;
        switch (op) {
        case 0: case 1: case 2: case 3: {
            x = fresh();
            int how = in.below(4);
            trc("%s %d#%d to %d; ", how == 0 ? "append" : how == 1 ? "prepend" : how == 2 ? "push" : "enqueue", x->key, x->id, li);
            r = how == 0 ? list_append(l, x) : how == 1 ? list_prepend(l, x) : how == 2 ? list_push(l, x) : list_enqueue(l, x);
            CHECK(r == x, "insertion returns another item");
            if (how == 0 || how == 3) {
                s.v.push_back(x);
                auto n = std::prev(s.v.end());
                // an iterator that has reported the end does not visit later additions
                s.inserted(n);
            } else {
                s.v.push_front(x);
                s.inserted(s.v.begin());
            }
            break;
        }
        case 4: case 5: case 6:
            trc("%s of %d; ", op == 4 ? "pop" : op == 5 ? "dequeue" : "peek", li);
            r = op == 4 ? list_pop(l) : op == 5 ? list_dequeue(l) : list_peek(l);
            x = s.v.empty() ? nullptr : s.v.front();
            CHECK(r == x, "got item %d, expected %d", r ? ((Item *) r)->id : -1, x ? x->id : -1);
            if (x && op != 6) s.removed(s.v.begin());
            break;
        case 7:
            key = in.below(6);
            trc("find first %d in %d; ", key, li);
            r = list_find_first(l, match, &key);
            x = nullptr;
            for (Item *y : s.v) if (y->key == key) { x = y; break; }
            CHECK(r == x, "found item %d, expected %d", r ? ((Item *) r)->id : -1, x ? x->id : -1);
            break;
        case 8: {
            key = in.below(6);
            trc("delete all %d in %d; ", key, li);
            int n = 0;
            for (auto i = s.v.begin(); i != s.v.end();) {
                auto c = i++;
                if ((*c)->key == key) { Item *y = s.removed(c); n++; if (s.del) want.push_back(y); }
            }
            int g = list_delete_all(l, match, &key);
            CHECK(g == n, "deleted %d items, expected %d", g, n);
            if (n > 1) cls("several deleted");
            break;
        }
        case 9: {
            bool down = in.flip();
            trc("sort %d %s; ", li, down ? "down" : "up");
            list_sort(l, down ? by_key_down : by_key);
            s.v.sort([down](Item *a, Item *b) { return down ? a->key > b->key : a->key < b->key; });       // stable
            for (It *i : s.its) { i->pos = s.v.begin(); i->has = false; }
            if (s.v.size() > 2) cls("sorted");
            break;
        }
        case 10: case 11:
            CHECK(!list_is_empty(l) == !s.v.empty() && list_count(l) == (int) s.v.size(), "list of %zu counts %d, empty %d", s.v.size(), list_count(l), list_is_empty(l));
            break;
        case 12: case 13:
            if (s.its.size() < 5) {
                ipool.emplace_back(new It);
                it = ipool.back().get();
                it->real = list_iterator_create(l);
                CHECK(it->real, "no iterator");
                it->pos = s.v.begin();
                it->has = false;
                s.its.push_back(it);
                trc("new iterator %zu of %d; ", s.its.size() - 1, li);
            }
            break;
        default:
            if (!it) break;
            int k = std::find(s.its.begin(), s.its.end(), it) - s.its.begin();
            switch (op) {
            case 14:
                if (in.below(3)) break;
                trc("destroy iterator %d of %d; ", k, li);
                list_iterator_destroy(it->real);
                s.its.erase(s.its.begin() + k);
                break;
            case 15:
                trc("reset iterator %d of %d; ", k, li);
                list_iterator_reset(it->real);
                it->pos = s.v.begin();
                it->has = false;
                break;
            case 16: case 17: case 18: {
                x = fresh();
                trc("insert %d#%d at iterator %d of %d; ", x->key, x->id, k, li);
                CHECK(list_insert(it->real, x) == x, "insertion returns another item");
                auto n = s.v.insert(it->has ? it->last : it->pos, x);
                s.inserted(n);
                cls("insert while iterating");
                break;
            }
            case 19: case 20: case 21: case 22: {
                bool d = op > 20;
                trc("%s at iterator %d of %d; ", d ? "delete" : "remove", k, li);
                x = it->has ? s.removed(it->last) : nullptr;
                if (d) {
                    if (x && s.del) want.push_back(x);
                    int g = list_delete(it->real);
                    CHECK(g == !!x, "deletion at an iterator reports %d, expected %d", g, !!x);
                } else {
                    r = list_remove(it->real);
                    CHECK(r == x, "removed item %d, expected %d", r ? ((Item *) r)->id : -1, x ? x->id : -1);
                }
                if (x) cls("removal while iterating");
                break;
            }
            case 23: case 24:
                key = in.below(6);
                trc("find %d at iterator %d of %d; ", key, k, li);
                r = list_find(it->real, match, &key);
                do {
                    if (it->pos == s.v.end()) { it->has = false; x = nullptr; break; }
                    it->last = it->pos++;
                    it->has = true;
                    x = *it->last;
                } while (x->key != key);
                CHECK(r == x, "found item %d, expected %d", r ? ((Item *) r)->id : -1, x ? x->id : -1);
                break;
            default:
                trc("next of iterator %d of %d; ", k, li);
                r = list_next(it->real);
                if (it->pos == s.v.end()) { it->has = false; x = nullptr; cls("end reached"); }
                else { it->last = it->pos++; it->has = true; x = *it->last; }
                CHECK(r == x, "the iterator returns item %d, expected %d; list %s", r ? ((Item *) r)->id : -1, x ? x->id : -1, items(s.v).c_str());
            }
        }
        CHECK(destroyed == want, "the destructor ran %zu times, expected %zu", destroyed.size(), want.size());
    }
    size_t total = 0;
    for (int i = 0; i < nl; i++) {
        Seq &s = L[i];
        CHECK(list_count(s.real) == (int) s.v.size(), "list of %zu counts %d", s.v.size(), list_count(s.real));
        if (in.flip() || s.v.size() % 2) {                  // the whole sequence, in order
            ListIterator z = list_iterator_create(s.real);
            for (Item *x : s.v) CHECK(list_next(z) == x, "not the ideal sequence %s", items(s.v).c_str());
            CHECK(!list_next(z) && !list_next(z), "more than the ideal sequence %s", items(s.v).c_str());
            list_iterator_destroy(z);
        }
        total += s.v.size();
        size_t before = destroyed.size();
        list_destroy(s.real);
        std::multiset<Item *> a(destroyed.begin() + before, destroyed.end()), b;
        if (s.del) b.insert(s.v.begin(), s.v.end());
        CHECK(a == b, "destroying a list of %zu items destroyed %zu", s.v.size(), a.size());
    }
    return steps > 8 && mutations_under_iteration > 0;
}
