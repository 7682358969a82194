//@ quickscale: 20
//@ fuzz: 150000
// C08: MortonTree keeps its items and answers searches exactly, in every history.
#include "pbt.h"
#include <rofl/common/morton_tree.h>
#include <algorithm>
#include <array>
#include <cmath>
#include <type_traits>

PBT_PROPERTY("C08",
             "random histories of MortonTree operations (single, range and converted insertions with kept or renumbered ids, sort, copy, "
             "findItem, computeLevel, both searchInBox forms) for int, int64, float and double in 1 to 4 dimensions, and trees up to 70000 items, mirrored on a plain "
             "list of (values, id); searches are compared with a linear scan. Non-trivial: at least 5 items and one search after an insertion.")

template <class S, size_t D>
struct Row {
    std::array<S, D> v;
    int id;
    bool operator<(const Row& o) const { return v != o.v ? v < o.v : id < o.id; }
    bool operator==(const Row& o) const { return v == o.v && id == o.id; }
};
template <class S, size_t D>
static std::string show(const Row<S, D>& r) {
    std::ostringstream os;
    os.precision(17);
    os << "(";
    for (size_t d = 0; d < D; ++d) os << (d ? "," : "") << r.v[d];
    os << ")#" << r.id;
    return os.str();
}
template <class S>
static S genScalar(pbt::Ctx& c, int mode) {
    if (mode == 3) {  // the whole range of the type
        if (std::is_floating_point<S>::value) {
            S v = std::ldexp((S)(1 + (S)c.u(1 << 20) / (1 << 20)), (int)c.i(-100, 100));
            return c.b(1, 8) ? (S)0 : c.b() ? v : -v;
        }
        return (S)c.bits(sizeof(S) * 8);
    }
    int64_t n = mode == 0 ? 3 : mode == 1 ? 20 : 1000;
    int64_t k = c.i(-n, n);
    if (std::is_floating_point<S>::value) return mode == 1 ? (S)k / 4 : mode == 2 ? (S)k / 64 : (S)k;
    return (S)k;
}
template <class S, size_t D>
struct Conv {
    typename rofl::MortonTree<S, D>::Item operator()(const Row<S, D>& r) const {
        typename rofl::MortonTree<S, D>::Item it;
        for (size_t d = 0; d < D; ++d) it.values[d] = r.v[d];
        it.id = r.id;
        return it;
    }
};

template <class S, size_t D>
static void history(pbt::Ctx& c, int maxOps) {
    using Tree = rofl::MortonTree<S, D>;
    using Item = typename Tree::Item;
    using T = rofl::MortonTraits<S, D>;
    using R = Row<S, D>;
    Tree tree;
    std::vector<R> model;
    int mode = (int)c.u(4), searches = 0, step = 0;
    auto genRow = [&] {
        R r;
        for (size_t d = 0; d < D; ++d) r.v[d] = genScalar<S>(c, mode);
        if (!model.empty() && c.b(1, 6)) r.v = model[c.u(model.size())].v;
        r.id = (int)c.i(-5, 100);
        return r;
    };
    auto toItem = [&](const R& r) { return Conv<S, D>()(r); };
    auto fromItem = [&](const Item& i) {
        R r;
        for (size_t d = 0; d < D; ++d) r.v[d] = i.values[d];
        r.id = i.id;
        return r;
    };
    auto contents = [&](const char* when) {
        REQUIRE(tree.size() == model.size(), when << ": size " << tree.size() << " expected " << model.size());
        std::vector<R> got;
        for (auto it = tree.begin(); it != tree.end(); ++it) got.push_back(fromItem(*it));
        REQUIRE(got.size() == tree.getItems().size(), "getItems size");
        std::vector<R> a = got, b = model;
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        for (size_t k = 0; k < a.size(); ++k) REQUIRE(a[k] == b[k], when << ": item " << show(a[k]) << " expected " << show(b[k]));
    };
    auto ordered = [&](const char* when) {
        for (auto it = tree.begin(); it != tree.end(); ++it)
            if (it + 1 != tree.end()) REQUIRE(!T::compare((it + 1)->values, it->values), when << ": items out of Morton order " << it->toString() << " " << (it + 1)->toString());
    };
    bool dirty = true;
    auto loop = c.loop(maxOps);
    while (loop.more()) {
        ++step;
        switch (c.w({6, 3, 3, 1, 4, 5, 4, 3, 1})) {
            case 0: {
                R r = genRow();
                bool keep = c.b(1, 3);
                NOTE("insert " << show(r) << (keep ? " keeping its id" : ""));
                if (keep)
                    tree.insert(toItem(r), false);
                else {
                    if (c.b()) tree.insert(toItem(r)); else tree.insert(toItem(r), true);
                    r.id = (int)model.size();
                }
                model.push_back(r);
                dirty = true;
                break;
            }
            case 1: {
                std::vector<Item> v;
                std::vector<R> rs;
                size_t n = c.len(0, 12);
                bool keep = c.b(1, 3);
                for (size_t k = 0; k < n; ++k) {
                    rs.push_back(genRow());
                    v.push_back(toItem(rs.back()));
                }
                NOTE("insert a range of " << n << (keep ? " keeping ids" : ""));
                if (keep) tree.insert(v.begin(), v.end(), false); else tree.insert(v.begin(), v.end());
                for (R& r : rs) {
                    if (!keep) r.id = (int)model.size();
                    model.push_back(r);
                }
                dirty = true;
                break;
            }
            case 2: {
                std::vector<R> rs;
                size_t n = c.len(0, 12);
                bool keep = c.b(1, 3);
                for (size_t k = 0; k < n; ++k) rs.push_back(genRow());
                NOTE("insert " << n << " converted" << (keep ? " keeping ids" : ""));
                Conv<S, D> conv;
                if (keep) tree.insert(rs.begin(), rs.end(), conv, false); else tree.insert(rs.begin(), rs.end(), conv);
                for (R& r : rs) {
                    if (!keep) r.id = (int)model.size();
                    model.push_back(r);
                }
                dirty = true;
                break;
            }
            case 3:
                NOTE("sort");
                tree.sort();
                ordered("sort");
                dirty = false;
                break;
            case 4: {
                R q = genRow();
                NOTE("findItem " << show(q));
                Item qi = toItem(q);
                auto it = tree.findItem(qi);
                ordered("findItem");
                size_t pos = it - tree.begin(), k = 0;
                for (auto jt = tree.begin(); jt != tree.end(); ++jt, ++k)
                    REQUIRE(T::compare(jt->values, qi.values) == (k < pos), "findItem(" << show(q) << ") = position " << pos << " but item " << k << " is " << jt->toString());
                searches += dirty;
                dirty = false;
                break;
            }
            case 5: {
                R a = genRow(), b = genRow();
                bool proper = !c.b(1, 8);
                for (size_t d = 0; d < D; ++d)
                    if (proper && a.v[d] > b.v[d]) std::swap(a.v[d], b.v[d]);
                NOTE("searchInBox " << show(a) << " " << show(b));
                std::vector<typename Tree::ConstIterator> found;
                tree.searchInBox(toItem(a), toItem(b), found);
                std::vector<R> got, exp;
                for (auto it : found) {
                    REQUIRE(it >= tree.begin() && it < tree.end(), "searchInBox returned an iterator outside the tree");
                    got.push_back(fromItem(*it));
                }
                std::sort(found.begin(), found.end());
                REQUIRE(std::adjacent_find(found.begin(), found.end()) == found.end(), "searchInBox returned an item twice");
                for (const R& r : model) {
                    bool in = true;
                    for (size_t d = 0; d < D; ++d) in = in && a.v[d] <= r.v[d] && r.v[d] <= b.v[d];
                    if (in) exp.push_back(r);
                }
                std::sort(got.begin(), got.end());
                std::sort(exp.begin(), exp.end());
                REQUIRE(got == exp, "searchInBox " << show(a) << " " << show(b) << " found " << got.size() << " items, expected " << exp.size());
                c.label(exp.empty() ? "empty box" : "box with items");
                searches += dirty;
                dirty = false;
                break;
            }
            case 6: {
                R q = genRow();
                S range = genScalar<S>(c, mode == 3 ? 2 : mode);
                if (mode == 3)
                    for (size_t d = 0; d < D; ++d) q.v[d] = genScalar<S>(c, 2);  // the box must be representable
                if (range < 0) range = -range;
                NOTE("searchInBox centre " << show(q) << " range " << range);
                std::vector<typename Tree::ConstIterator> found;
                tree.searchInBox(toItem(q), range, found);
                std::vector<R> got, exp;
                for (auto it : found) got.push_back(fromItem(*it));
                for (const R& r : model) {
                    bool in = true;
                    for (size_t d = 0; d < D; ++d) in = in && q.v[d] - range <= r.v[d] && r.v[d] <= q.v[d] + range;
                    if (in) exp.push_back(r);
                }
                std::sort(got.begin(), got.end());
                std::sort(exp.begin(), exp.end());
                REQUIRE(got == exp, "searchInBox centre " << show(q) << " range " << range << " found " << got.size() << " items, expected " << exp.size());
                searches += dirty;
                dirty = false;
                break;
            }
            case 7: {
                if (model.empty()) break;
                if (c.b()) {
                    NOTE("sort");
                    tree.sort();
                    dirty = false;
                }
                size_t i = (size_t)c.u(model.size()), n = 1 + (size_t)c.u(model.size() - i);
                // positions stay positions when the tree sorts itself first
                auto first = tree.begin() + i, last = first + n;
                int level = tree.computeLevel(first, last);
                first = tree.begin() + i, last = first + n;
                int e = T::distance(first->values, first->values);
                for (auto it = first; it != last; ++it) e = std::max(e, T::distance(first->values, it->values));
                NOTE("computeLevel of " << n << " items from " << i << " = " << level << (dirty ? " (not sorted before)" : ""));
                REQUIRE(level == e, "computeLevel " << level << " expected " << e);
                for (auto it = first; it != last; ++it)
                    REQUIRE(T::distance(first->values, it->values) <= level && T::distance(it->values, (last - 1)->values) <= level, "an item of the interval is outside the subtree of level " << level);
                searches += dirty;
                first = tree.begin() + i;
                REQUIRE(tree.computeLevel(first, first) == T::distance(first->values, first->values), "level of an empty interval");
                break;
            }
            default: {
                NOTE("continue on a copy");
                Tree copy(tree);
                R extra = genRow();
                tree.insert(toItem(extra));  // must not touch the copy
                std::vector<R> m2 = model;
                tree = copy;
                break;
            }
        }
        contents("after step");
    }
    tree.sort();
    contents("at the end");
    ordered("at the end");
    c.nontrivial(model.size() >= 5 && searches > 0);
}
FACET(int2, 10000, 400000) { history<int, 2>(c, 30); }
FACET(int3, 8000, 300000) { history<int, 3>(c, 30); }
FACET(float2, 8000, 300000) { history<float, 2>(c, 30); }
FACET(float3, 8000, 300000) { history<float, 3>(c, 30); }
FACET(double2, 8000, 300000) { history<double, 2>(c, 30); }
FACET(double3, 8000, 300000) { history<double, 3>(c, 30); }
FACET(long2, 6000, 200000) { history<long, 2>(c, 30); }
// large trees, one search each
FACET(largeTrees, 400, 8000) {
    int which = (int)c.u(3);
    if (which == 0) history<double, 3>(c, 120);
    else if (which == 1) history<float, 2>(c, 120);
    else history<int, 2>(c, 120);
}
// items built from lists
template <class S>
static void itemLists(pbt::Ctx& c) {
    S v[3];
    for (S& x : v) x = genScalar<S>(c, (int)c.u(4));
    int id = (int)c.i(-1000, 100000);
    typename rofl::MortonTree<S, 3>::Item a({v[0], v[1], v[2]}, id), zero;
    typename rofl::MortonTree<S, 2>::Item b({v[0], v[1]}, id);
    NOTE("item " << v[0] << " " << v[1] << " " << v[2] << " id " << id);
    REQUIRE(a.values[0] == v[0] && a.values[1] == v[1] && a.values[2] == v[2] && a.id == id, "item built from a list is " << a.toString());
    REQUIRE(b.values[0] == v[0] && b.values[1] == v[1] && b.id == id, "item built from a list is " << b.toString());
    REQUIRE(zero.values[0] == 0 && zero.values[1] == 0 && zero.values[2] == 0 && zero.id == -1, "default item is " << zero.toString());
    std::ostringstream os;
    os << "[" << v[0] << "," << v[1] << "," << v[2] << "](id " << id << ")";
    REQUIRE(a.toString() == os.str(), "toString gives " << a.toString() << " expected " << os.str());
    c.nontrivial(v[0] != v[1] && id != 0);
}
FACET(items, 20000, 100000) {
    switch (c.u(3)) {
        case 0: itemLists<int>(c); break;
        case 1: itemLists<double>(c); break;
        default: itemLists<float>(c); break;
    }
}
FACET(int1, 4000, 100000) { history<int, 1>(c, 30); }
FACET(float4, 4000, 100000) { history<float, 4>(c, 30); }
FACET(long3, 4000, 100000) { history<long, 3>(c, 30); }
// thousands of items, many boxes
template <class S, size_t D>
static void bulk(pbt::Ctx& c) {
    using Tree = rofl::MortonTree<S, D>;
    using Item = typename Tree::Item;
    Tree tree;
    size_t n = 1 + c.u(c.b(1, 5) ? 70000 : 4000);
    uint64_t mul = 2 * c.u(1ull << 40) + 1;
    int spread = 2 + (int)c.u(14);
    S unit = std::is_floating_point<S>::value ? (S)0.25 : (S)1;
    std::vector<Item> items(n);
    for (size_t k = 0; k < n; ++k) {
        for (size_t d = 0; d < D; ++d) items[k].values[d] = (S)((int64_t)((k * D + d + 1) * mul >> 20 & ((1 << spread) - 1)) - (1 << (spread - 1))) * unit;
        items[k].id = (int)(3 * k);
    }
    bool keep = c.b();
    tree.insert(items.begin(), items.end(), !keep);
    NOTE(n << " items in " << D << " dimensions, spread 2^" << spread << " multiplier " << mul);
    REQUIRE(tree.size() == n, "size " << tree.size() << " expected " << n);
    size_t total = 0;
    size_t searches = 1 + c.u(6);
    for (size_t q = 0; q < searches; ++q) {
        Item a, b;
        for (size_t d = 0; d < D; ++d) {
            a.values[d] = (S)c.i(-(1 << (spread - 1)), 1 << (spread - 1)) * unit, b.values[d] = a.values[d] + (S)c.small(1 << spread) * unit;
        }
        std::vector<typename Tree::ConstIterator> found;
        tree.searchInBox(a, b, found);
        std::vector<int> got, want;
        for (auto it : found) {
            got.push_back(it->id);
            for (size_t d = 0; d < D; ++d) REQUIRE(a.values[d] <= it->values[d] && it->values[d] <= b.values[d], "found " << it->toString() << " outside " << a.toString() << " " << b.toString());
        }
        for (size_t k = 0; k < n; ++k) {
            bool in = true;
            for (size_t d = 0; d < D; ++d) in = in && a.values[d] <= items[k].values[d] && items[k].values[d] <= b.values[d];
            if (in) want.push_back(keep ? 3 * (int)k : (int)k);
        }
        std::sort(got.begin(), got.end());
        std::sort(want.begin(), want.end());
        REQUIRE(got == want, "searchInBox " << a.toString() << " " << b.toString() << " found " << got.size() << " items, expected " << want.size());
        total += want.size();
    }
    // the tree is sorted now: order, positions and levels of intervals
    using T = rofl::MortonTraits<S, D>;
    const auto& v = tree.getItems();
    REQUIRE(v.size() == n, "size " << v.size() << " after the searches, expected " << n);
    for (size_t k = 1; k < n; ++k) REQUIRE(!T::compare(v[k].values, v[k - 1].values), "item " << k << " out of order: " << v[k].toString());
    for (int q = 0; q < 20; ++q) {
        Item a = v[c.u(n)];
        if (c.b(1, 2)) a.values[c.u(D)] += (S)c.i(-3, 3) * unit;
        size_t pos = (size_t)(tree.findItem(a) - tree.begin()), e = 0;
        while (e < n && T::compare(v[e].values, a.values)) ++e;
        REQUIRE(pos == e, "findItem " << a.toString() << " at " << pos << " expected " << e);
    }
    for (int q = 0; q < 40; ++q) {
        size_t i = c.u(n), len = 1 + c.u(c.b() ? std::min<size_t>(n - i, 200) : n - i), last = i + len - 1;
        if (c.b()) {  // ends at the first item of another large block
            size_t best = last;
            for (size_t k = i + 1; k <= last; ++k)
                if (T::distance(v[k - 1].values, v[k].values) >= T::distance(v[best - 1].values, v[best].values)) best = k;
            if (best > i) last = best;
        }
        int level = tree.computeLevel(tree.begin() + i, tree.begin() + last + 1), e = T::distance(v[i].values, v[last].values);
        REQUIRE(level == e, "computeLevel of items " << i << " to " << last << " = " << level << " expected " << e);
    }
    c.nontrivial(total > 10);
}
FACET(bulk, 150, 4000) {
    switch (c.u(4)) {
        case 0: bulk<int, 2>(c); break;
        case 1: bulk<double, 3>(c); break;
        case 2: bulk<float, 2>(c); break;
        default: bulk<long, 3>(c); break;
    }
}
