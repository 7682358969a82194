//@ fuzz: 300000
// C01: MinMaxHeap behaves as a multiset with access to both ends, for every history.
#include "pbt.h"
#include <rofl/common/min_max_heap.h>
#include <set>
#include <deque>
#include <algorithm>
#include <string>

PBT_PROPERTY("C01",
             "random push/popTop/popBottom histories (up to 1500 operations, key alphabets from 1 value to the full range of int, strings, three comparators, two storages; heaps up to 140000 items emptied from both ends) "
             "replayed on MinMaxHeap and on a std::multiset; after every step size, empty, top, bottom, nextTop, nextBottom and the "
             "iterated contents are compared. Non-trivial: at least 4 elements held at once and both a popTop and a popBottom executed.")

struct Item {
    int key;
    int tag;
};
// orders by key only: different items can be equivalent
struct ByKey {
    bool operator()(const Item& a, const Item& b) const { return a.key < b.key; }
};
struct Stateful {  // comparator with state: ascending or descending
    bool desc;
    Stateful(bool d = false) : desc(d) {}
    bool operator()(int a, int b) const { return desc ? b < a : a < b; }
};

static std::string showItem(double v) { return std::to_string(v); }
static std::string showItem(const std::string& v) { return v; }
static std::string showItem(int v) { return std::to_string(v); }
static std::string showItem(const Item& v) { return std::to_string(v.key) + "#" + std::to_string(v.tag); }

template <class V, class Cmp, class Heap, class Gen>
static void history(pbt::Ctx& c, Heap& h, const Cmp& cmp, Gen gen, int maxLen) {
    std::multiset<V, Cmp> model(cmp);
    bool sparse = c.b(1, 4);  // looks at the heap only now and then
    bool pt = false, pb = false;
    size_t maxSize = 0;
    auto same = [&](const V& a, const V& b) { return !cmp(a, b) && !cmp(b, a); };
    auto loop = c.loop(maxLen);
    int bias = (int)c.u(4);  // push-heavy, balanced, drain-heavy, changing over the history
    int step = 0;
    while (loop.more()) {
        int bb = bias == 3 ? (step / 25) % 3 : bias;
        size_t op = bb == 0 ? c.w({9, 1, 1}) : bb == 1 ? c.w({4, 2, 2}) : c.w({4, 3, 3});
        if (model.empty()) op = 0;
        if (op == 0 && !model.empty() && c.b(1, 12)) {
            size_t which = c.u(3);
            const V& r = which == 0 ? h.top() : which == 1 ? h.bottom() : h.nextTop();
            V v = r;
            NOTE("push of an end item " << showItem(v));
            model.insert(v);
            if (c.b())
                h.push(v);
            else
                h.push(r);  // the item itself, held by the heap
        } else if (op == 0) {
            V v = gen();
            NOTE("push " << showItem(v));
            h.push(v);
            model.insert(v);
        } else if (op == 1) {
            NOTE("popTop");
            h.popTop();
            model.erase(model.begin());
            pt = true;
            c.label("popTop");
        } else {
            NOTE("popBottom");
            h.popBottom();
            model.erase(std::prev(model.end()));
            pb = true;
            c.label("popBottom");
        }
        ++step;
        maxSize = std::max(maxSize, model.size());
        if (sparse && c.b(3, 4)) continue;
        REQUIRE(h.size() == model.size(), "step " << step << " size " << h.size() << " expected " << model.size());
        REQUIRE(h.empty() == model.empty(), "step " << step);
        REQUIRE((size_t)std::distance(h.begin(), h.end()) == model.size(), "iteration length at step " << step);
        if (model.empty()) continue;
        if (sparse && c.b()) {
            // one question only
            auto se = model.size() > 1 ? std::next(model.begin()) : model.begin();
            auto sl = model.size() > 1 ? std::prev(model.end(), 2) : model.begin();
            switch (c.u(4)) {
                case 0: REQUIRE(same(h.top(), *model.begin()), "top at step " << step << " size " << model.size()); break;
                case 1: REQUIRE(same(h.bottom(), *std::prev(model.end())), "bottom at step " << step << " size " << model.size()); break;
                case 2: REQUIRE(same(h.nextTop(), *se), "nextTop at step " << step << " size " << model.size()); break;
                default: REQUIRE(same(h.nextBottom(), *sl), "nextBottom at step " << step << " size " << model.size()); break;
            }
            continue;
        }
        REQUIRE(same(h.top(), *model.begin()), "top at step " << step << " size " << model.size());
        REQUIRE(same(h.bottom(), *std::prev(model.end())), "bottom at step " << step << " size " << model.size());
        auto second = model.size() > 1 ? std::next(model.begin()) : model.begin();
        auto secondLast = model.size() > 1 ? std::prev(model.end(), 2) : model.begin();
        REQUIRE(same(h.nextTop(), *second), "nextTop at step " << step << " size " << model.size());
        REQUIRE(same(h.nextBottom(), *secondLast), "nextBottom at step " << step << " size " << model.size());
        if (step % 7 == 0 || model.size() < 12) {
            std::vector<V> got(h.begin(), h.end());
            std::sort(got.begin(), got.end(), cmp);
            auto it = model.begin();
            for (size_t k = 0; k < got.size(); ++k, ++it) REQUIRE(same(got[k], *it), "contents at step " << step);
        }
    }
    // draining one end gives the sorted order
    size_t end = c.u(3);
    while (end != 2 && !model.empty()) {
        REQUIRE(h.size() == model.size(), "drain size");
        if (end == 0) {
            REQUIRE(same(h.top(), *model.begin()), "drain top at size " << model.size());
            h.popTop();
            model.erase(model.begin());
        } else {
            REQUIRE(same(h.bottom(), *std::prev(model.end())), "drain bottom at size " << model.size());
            h.popBottom();
            model.erase(std::prev(model.end()));
        }
    }
    if (end != 2) REQUIRE(h.empty(), "after draining");
    c.label(maxSize < 4 ? "max size <4" : maxSize < 16 ? "max size 4-15" : "max size >=16");
    c.nontrivial(maxSize >= 4 && pt && pb);
}

FACET(intLess, 150000, 4000000) {
    uint64_t alphabet = 1 + c.u(3);
    uint64_t n = alphabet == 1 ? 1 + c.small(6) : alphabet == 2 ? 40 : (1ull << 31);
    rofl::MinMaxHeap<int> h;
    NOTE("std::less<int>, alphabet " << n);
    history<int>(c, h, std::less<int>(), [&] { return (int)c.u(n); }, 120);
}
FACET(intLarge, 3000, 120000) {
    uint64_t n = c.b() ? 1 + c.u(100) : (1ull << 31);
    rofl::MinMaxHeap<int> h;
    NOTE("std::less<int>, alphabet " << n);
    history<int>(c, h, std::less<int>(), [&] { return (int)c.u(n); }, 1500);
}
FACET(fullRange, 30000, 800000) {
    rofl::MinMaxHeap<int, std::less<int>, std::deque> h;
    NOTE("std::deque storage, full range of int");
    history<int>(c, h, std::less<int>(), [&] { return (int)(int32_t)c.bits(32); }, 100);
}
FACET(strings, 10000, 300000) {
    rofl::MinMaxHeap<std::string> h;
    NOTE("strings");
    history<std::string>(c, h, std::less<std::string>(), [&] {
        std::string s;
        size_t n = c.small(6);
        for (size_t k = 0; k < n; ++k) s += (char)('a' + c.u(3));
        if (c.b(1, 4)) s += " long enough to be allocated on the heap";
        return s; }, 60);
}
// copies are independent of each other
FACET(copies, 20000, 400000) {
    rofl::MinMaxHeap<int> a;
    std::multiset<int> ma;
    size_t n = c.len(1, 20);
    for (size_t k = 0; k < n; ++k) {
        int v = (int)c.u(30);
        a.push(v), ma.insert(v);
    }
    rofl::MinMaxHeap<int> b(a), d;
    std::multiset<int> mb = ma;
    d.push(77);
    d = a;
    auto step = [&](rofl::MinMaxHeap<int>& h, std::multiset<int>& m) {
        size_t op = m.empty() ? 0 : c.u(3);
        if (op == 0) {
            int v = (int)c.u(30);
            h.push(v), m.insert(v);
        } else if (op == 1)
            h.popTop(), m.erase(m.begin());
        else
            h.popBottom(), m.erase(std::prev(m.end()));
    };
    size_t k = c.len(1, 20);
    std::multiset<int> md = ma;
    for (size_t j = 0; j < k; ++j) switch (c.u(3)) {
            case 0: step(a, ma); break;
            case 1: step(b, mb); break;
            default: step(d, md); break;
        }
    auto check = [&](rofl::MinMaxHeap<int>& h, std::multiset<int>& m, const char* what) {
        REQUIRE(h.size() == m.size(), what << " has size " << h.size() << " expected " << m.size());
        while (!m.empty()) {
            REQUIRE(h.top() == *m.begin() && h.bottom() == *m.rbegin(), what << " at size " << m.size());
            if (c.b()) h.popTop(), m.erase(m.begin()); else h.popBottom(), m.erase(std::prev(m.end()));
        }
        REQUIRE(h.empty(), what);
    };
    check(b, mb, "the copy"), check(a, ma, "the original"), check(d, md, "the assigned copy");
    c.nontrivial(n >= 4);
    NOTE(n << " items, " << k << " operations after the copy");
}
// deep heaps: many items in a regular or random order, emptied from both ends
FACET(deep, 60, 1200) {
    size_t n = 1 + (c.b(1, 4) ? c.u(140000) : c.u(20000));
    size_t order = c.u(5);
    uint64_t mul = 2 * c.u(1u << 30) + 1, mod = c.b() ? n : 1 + c.u(1000);
    NOTE(n << " items, order " << order << " multiplier " << mul << " modulus " << mod);
    std::vector<int> v(n);
    for (size_t k = 0; k < n; ++k) switch (order) {
            case 0: v[k] = (int)k; break;
            case 1: v[k] = -(int)k; break;
            case 2: v[k] = (int)((k * mul >> 7) % mod); break;
            case 3: v[k] = k % 2 ? (int)k : -(int)k; break;
            default: v[k] = (int)((k * mul) & 0x7fffffff); break;
        }
    rofl::MinMaxHeap<int> h;
    for (int x : v) h.push(x);
    std::sort(v.begin(), v.end());
    std::deque<int> m(v.begin(), v.end());
    size_t pattern = c.u(4);
    while (!m.empty()) {
        REQUIRE(h.size() == m.size() && h.top() == m.front() && h.bottom() == m.back(), "ends " << h.top() << " " << h.bottom() << " expected " << m.front() << " " << m.back() << " at size " << m.size());
        if (m.size() > 1) REQUIRE(h.nextTop() == m[1] && h.nextBottom() == m[m.size() - 2], "second items " << h.nextTop() << " " << h.nextBottom() << " expected " << m[1] << " " << m[m.size() - 2] << " at size " << m.size());
        bool top = pattern == 0 || (pattern == 1 ? m.size() % 2 : pattern == 2 ? (m.size() / 37) % 2 : false);
        if (top) h.popTop(), m.pop_front(); else h.popBottom(), m.pop_back();
    }
    REQUIRE(h.empty(), "after draining");
    c.nontrivial(n >= 1000);
}
FACET(doubleGreater, 30000, 1000000) {
    rofl::MinMaxHeap<double, std::greater<double>> h;
    uint64_t n = c.b() ? 5 : 200;
    NOTE("std::greater<double>");
    history<double>(c, h, std::greater<double>(), [&] { return std::ldexp((double)c.i(-(int64_t)n, n), -2); }, 100);
}
FACET(statefulComparator, 20000, 600000) {
    bool desc = c.b();
    rofl::MinMaxHeap<int, Stateful> h{Stateful(desc)};
    NOTE("comparator object with state, descending=" << desc);
    history<int>(c, h, Stateful(desc), [&] { return (int)c.i(-20, 20); }, 100);
}
FACET(itemsByKey, 20000, 600000) {
    rofl::MinMaxHeap<Item, ByKey> h;
    int tag = 0;
    NOTE("items ordered by key only");
    history<Item>(c, h, ByKey(), [&] { return Item{(int)c.u(12), tag++}; }, 100);
}
// identity of the stored items: after any history, what remains plus what was popped is what was pushed
FACET(identity, 8000, 200000) {
    rofl::MinMaxHeap<Item, ByKey> h;
    std::set<int> live;
    int tag = 0;
    auto loop = c.loop(80);
    while (loop.more()) {
        size_t op = live.empty() ? 0 : c.w({4, 2, 2});
        if (op == 0) {
            h.push(Item{(int)c.u(6), tag});
            live.insert(tag++);
        } else {
            Item it = op == 1 ? h.top() : h.bottom();
            if (op == 1) h.popTop(); else h.popBottom();
            REQUIRE(live.erase(it.tag) == 1, "popped item " << it.tag << " was not in the heap");
        }
        std::set<int> got;
        for (const Item& it : h) got.insert(it.tag);
        REQUIRE(got == live, "items held " << pbt::show(got) << " expected " << pbt::show(live));
    }
    c.nontrivial(tag >= 4);
    NOTE("identity history with " << tag << " pushes, " << live.size() << " left");
}
// Exhaustive: all histories over small alphabets (each case = one first key sequence, all pop schedules)
FACET(allSmallHistories, 3125, 46656) {
    // insert n keys from an alphabet of a (enumerated), then every top/bottom pop schedule
    int n = c.thorough ? 6 : 5, a = c.thorough ? 6 : 5;
    uint64_t total = 1;
    for (int k = 0; k < n; ++k) total *= a;
    uint64_t idx = c.index(total);
    std::vector<int> keys;
    for (int k = 0; k < n; ++k) {
        keys.push_back((int)(idx % a));
        idx /= a;
    }
    for (int m = 0; m < (1 << n); ++m) {
        rofl::MinMaxHeap<int> h;
        for (int k : keys) h.push(k);
        std::multiset<int> model(keys.begin(), keys.end());
        for (int k = 0; k < n; ++k) {
            REQUIRE(h.top() == *model.begin() && h.bottom() == *model.rbegin(), "keys " << pbt::show(keys) << " pop schedule " << m << " step " << k);
            if (model.size() > 1)
                REQUIRE(h.nextTop() == *std::next(model.begin()) && h.nextBottom() == *std::next(model.rbegin()), "keys " << pbt::show(keys) << " schedule " << m << " step " << k);
            if ((m >> k) & 1) {
                h.popTop();
                model.erase(model.begin());
            } else {
                h.popBottom();
                model.erase(std::prev(model.end()));
            }
        }
        REQUIRE(h.empty(), "empty at the end");
    }
    c.nontrivial();
    NOTE("all 2^" << n << " pop schedules over pushes " << pbt::show(keys));
}
