//@ quickscale: 10
//@ fuzz: 300000
// C02: DisjointSet is the partition produced by the joins made so far.
#include "pbt.h"
#include <rofl/common/disjoint_set.h>
#include <set>
#include <iterator>

PBT_PROPERTY("C02",
             "random histories of construction / initSets / makeSet / join / find / size (valid and invalid ids) on DisjointSet and on a "
             "naive label-per-node partition; after every operation setNum, nodeNum and the answers are compared, and regularly the whole "
             "partition (representatives, cluster sizes, list of representatives). Non-trivial: at least 4 nodes and 2 effective joins.")

struct Model {
    std::vector<int> lab;
    int sets() const { return (int)std::set<int>(lab.begin(), lab.end()).size(); }
    size_t sizeOf(int n) const {
        size_t k = 0;
        for (int l : lab) k += l == lab[n];
        return k;
    }
    bool join(int a, int b) {
        if (lab[a] == lab[b]) return false;
        int o = lab[b], n = lab[a];
        for (int& l : lab)
            if (l == o) l = n;
        return true;
    }
};

static void fullCheck(pbt::Ctx& c, rofl::DisjointSet& ds, Model& m) {
    int n = (int)m.lab.size();
    REQUIRE((int)ds.nodeNum() == n && (int)ds.size() == n, "nodeNum " << ds.nodeNum() << " expected " << n);
    REQUIRE(ds.setNum() == m.sets(), "setNum " << ds.setNum() << " expected " << m.sets());
    std::vector<int> rep(n);
    for (int i = 0; i < n; ++i) {
        rep[i] = ds.find(i);
        REQUIRE(rep[i] >= 0 && rep[i] < n, "representative of " << i << " is " << rep[i]);
        REQUIRE(m.lab[rep[i]] == m.lab[i], "representative " << rep[i] << " of " << i << " is in another set");
    }
    std::map<int, int> byLab;
    for (int i = 0; i < n; ++i) {
        auto it = byLab.emplace(m.lab[i], rep[i]).first;
        REQUIRE(it->second == rep[i], "nodes of one set have representatives " << it->second << " and " << rep[i]);
        REQUIRE(ds.size(i) == m.sizeOf(i), "size(" << i << ") = " << ds.size(i) << " expected " << m.sizeOf(i));
        REQUIRE(ds.find(rep[i]) == rep[i], "the representative of a representative is itself");
    }
    std::vector<int> par;
    ds.parents(std::back_inserter(par));
    std::set<int> ps(par.begin(), par.end()), expect;
    for (auto& kv : byLab) expect.insert(kv.second);
    REQUIRE(ps == expect && par.size() == expect.size(), "parents " << pbt::show(par) << " expected " << pbt::show(expect));
}

static void run(pbt::Ctx& c, int maxInit, int maxOps) {
    int n0 = (int)c.len(0, maxInit);
    Model m;
    for (int i = 0; i < n0; ++i) m.lab.push_back(i);
    int fresh = n0, joins = 0, step = 0;
    bool viaInit = c.b();
    rofl::DisjointSet ds = viaInit ? rofl::DisjointSet() : rofl::DisjointSet(n0);
    if (viaInit && n0 > 0) ds.initSets(n0);
    NOTE("start with " << n0 << (viaInit ? " (initSets)" : ""));
    size_t maxN = n0;
    auto loop = c.loop(maxOps);
    int every = 1 + (int)c.u(8);
    while (loop.more()) {
        ++step;
        int n = (int)m.lab.size();
        size_t op = c.w({10, 3, 2, 2, 1, 1});
        if (n == 0 && (op == 0 || op == 2 || op == 3)) op = 1;
        if (op == 0) {
            int a = (int)c.u(n), b = (int)c.u(n);
            int r = ds.join(a, b);
            bool eff = m.join(a, b);
            NOTE("join " << a << " " << b << " -> " << r);
            if (eff) {
                ++joins;
                REQUIRE(r >= 0 && r < n && m.lab[r] == m.lab[a], "join returned " << r);
                REQUIRE(ds.find(a) == r && ds.find(b) == r, "join returned " << r << " but the representatives are " << ds.find(a) << " and " << ds.find(b));
            } else
                REQUIRE(r < 0 || r >= n, "a join that merges nothing returned node " << r);
        } else if (op == 1) {
            int id = ds.makeSet();
            NOTE("makeSet -> " << id);
            REQUIRE(id == n, "makeSet returned " << id << " expected " << n);
            m.lab.push_back(fresh++);
            c.label("makeSet");
        } else if (op == 2) {
            int a = (int)c.u(n);
            int r = ds.find(a);
            NOTE("find " << a << " -> " << r);
            REQUIRE(r >= 0 && r < n && m.lab[r] == m.lab[a], "find(" << a << ") = " << r);
        } else if (op == 3) {
            int a = (int)c.u(n);
            NOTE("size " << a);
            REQUIRE(ds.size(a) == m.sizeOf(a), "size(" << a << ") = " << ds.size(a) << " expected " << m.sizeOf(a));
        } else if (op == 4) {  // invalid ids are refused without effect
            int bad = c.b() ? n + (int)c.small(5) : -1 - (int)c.small(5);
            int other = n == 0 || c.b(1, 4) ? bad - 1 : (int)c.u(n);
            bool order = c.b();
            NOTE("join with invalid id " << bad << " and " << other);
            int r = order ? ds.join(bad, other) : ds.join(other, bad);
            REQUIRE(r < 0 || r >= n, "join with an invalid id returned node " << r);
            int f = ds.find(bad);
            REQUIRE(f < 0 || f >= n, "find of an invalid id returned node " << f);
            REQUIRE(ds.size(bad) == 0, "size of an invalid id");
            c.label("invalid id");
        } else if (c.b(1, 6)) {
            int k = (int)c.small(maxInit + 1);
            NOTE("initSets " << k);
            ds.initSets(k);
            m.lab.clear();
            for (int i = 0; i < k; ++i) m.lab.push_back(i);
            fresh = k;
            c.label("initSets");
        }
        maxN = std::max(maxN, m.lab.size());
        REQUIRE(ds.setNum() == m.sets(), "setNum " << ds.setNum() << " expected " << m.sets() << " at step " << step);
        REQUIRE(ds.nodeNum() == m.lab.size(), "nodeNum at step " << step);
        if (step % every == 0) fullCheck(c, ds, m);
    }
    fullCheck(c, ds, m);
    c.label(joins >= 10 ? "joins >=10" : joins >= 2 ? "joins 2-9" : "joins <2");
    c.nontrivial(maxN >= 4 && joins >= 2);
}

FACET(histories, 40000, 1500000) { run(c, 20, 60); }
FACET(largeHistories, 1500, 50000) { run(c, 150, 400); }
// copies are independent
FACET(copies, 5000, 100000) {
    int n = 2 + (int)c.u(10);
    rofl::DisjointSet a(n);
    Model ma;
    for (int i = 0; i < n; ++i) ma.lab.push_back(i);
    auto loop = c.loop(15);
    while (loop.more()) {
        int x = (int)c.u(n), y = (int)c.u(n);
        a.join(x, y);
        ma.join(x, y);
    }
    rofl::DisjointSet b(a);
    Model mb = ma;
    auto loop2 = c.loop(15);
    while (loop2.more()) {
        int x = (int)c.u(n), y = (int)c.u(n);
        if (c.b()) {
            a.join(x, y);
            ma.join(x, y);
        } else {
            b.join(x, y);
            mb.join(x, y);
        }
    }
    fullCheck(c, a, ma);
    fullCheck(c, b, mb);
    c.nontrivial(n >= 4 && ma.sets() < n - 1);
    NOTE("copy with " << n << " nodes, " << ma.sets() << " / " << mb.sets() << " sets");
}
// many nodes: joins in regular orders (tournaments, chains, stars) and random ones; sets are followed by relabelling the smaller side
FACET(deep, 60, 1500) {
    int n = 2 + (int)(c.b(1, 4) ? c.u(150000) : c.u(5000));
    rofl::DisjointSet ds(n);
    std::vector<int> lab(n);
    std::vector<std::vector<int>> mem(n);
    for (int i = 0; i < n; ++i) lab[i] = i, mem[i].push_back(i);
    int sets = n;
    auto join = [&](int a, int b) {
        int r = ds.join(a, b), la = lab[a], lb = lab[b];
        if (la == lb) {
            REQUIRE(r < 0 || r >= n, "a join of " << a << " and " << b << " that merges nothing returned node " << r);
            return;
        }
        --sets;
        if (mem[la].size() < mem[lb].size()) std::swap(la, lb);
        for (int x : mem[lb]) lab[x] = la, mem[la].push_back(x);
        std::vector<int>().swap(mem[lb]);
        REQUIRE(r >= 0 && r < n && lab[r] == la, "join of " << a << " and " << b << " returned " << r);
        REQUIRE(ds.find(r) == r, "join of " << a << " and " << b << " returned " << r << " whose representative is " << ds.find(r));
        REQUIRE(ds.setNum() == sets, "setNum " << ds.setNum() << " expected " << sets);
        REQUIRE(ds.size(a) == mem[la].size(), "size(" << a << ") is " << ds.size(a) << " expected " << mem[la].size());
    };
    size_t phases = 1 + c.u(3);
    for (size_t p = 0; p < phases; ++p) {
        size_t kind = c.u(5);
        int from = (int)c.u(n), stop = (int)c.u(n);
        if (from > stop) std::swap(from, stop);
        NOTE("phase " << kind << " over nodes " << from << " to " << stop << " of " << n);
        if (kind == 0)
            for (int w = 1; w < stop - from; w *= 2)
                for (int i = from; i + w <= stop; i += 2 * w) join(i, i + w);  // tournament: trees of logarithmic depth
        else if (kind == 1)
            for (int i = from; i < stop; ++i) join(i, i + 1);
        else if (kind == 2)
            for (int i = stop; i > from; --i) join(i, from);
        else if (kind == 3)
            for (int w = 1; w < stop - from; w *= 2)
                for (int i = from; i + w <= stop; i += 2 * w) join(std::min(stop, i + 2 * w - 1), i);
        else {
            uint64_t mul = 2 * c.u(1u << 30) + 1;
            for (int i = from; i < stop; ++i) join(i, (int)((i * mul >> 5) % n));
        }
    }
    std::map<int, int> rep;
    for (int i = 0; i < n; ++i) {
        int k = i, r = ds.find(k);
        REQUIRE(r >= 0 && r < n && lab[r] == lab[k], "find(" << k << ") is " << r);
        auto it = rep.emplace(lab[k], r).first;
        REQUIRE(it->second == r, "nodes of one set have representatives " << it->second << " and " << r);
        REQUIRE(ds.size(k) == mem[lab[k]].size(), "size(" << k << ") is " << ds.size(k) << " expected " << mem[lab[k]].size());
    }
    std::vector<int> par;
    ds.parents(std::back_inserter(par));
    std::set<int> ps(par.begin(), par.end());
    REQUIRE((int)par.size() == sets && (int)ps.size() == sets && (int)rep.size() == sets, "parents lists " << par.size() << " representatives of " << sets << " sets");
    for (auto& kv : rep) REQUIRE(ps.count(kv.second), "parents misses " << kv.second);
    c.nontrivial(n >= 100 && sets < n / 2);
}
