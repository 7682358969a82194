//@ sources: geometry/src/*.cpp common/src/*.cpp
//@ fuzz: 60000
// C24: associations are the maximum cliques of the correspondence graph.
#include "pbt.h"
#include <rofl/geometry/correspondence_graph_association.h>
#include <cmath>
#include <functional>
#include <list>
#include <set>

PBT_PROPERTY("C24",
             "random distance matrices (small alphabets, many ties, distances exactly at the tolerance and at the minimum), planar point "
             "sets related by a rigid motion with outliers, several rounds on the same object; the answers are compared with all maximum "
             "cliques found by enumerating partial one-to-one assignments. Non-trivial: maximum clique of 2 or more correspondences in a "
             "graph that is not complete.")

using Assoc = std::vector<std::pair<int, int>>;
struct Sets {
    int n = 0, m = 0;
    std::vector<std::vector<float>> ds, dd;  // distances
};
static std::set<Assoc> reference(const Sets& s, float tol, float dmin, bool& complete) {
    auto ok = [&](int s0, int d0, int s1, int d1) {
        if (s0 == s1 || d0 == d1) return false;
        float a = s.ds[std::min(s0, s1)][std::max(s0, s1)], b = s.dd[std::min(d0, d1)][std::max(d0, d1)];
        return a > dmin && std::fabs((double)a - b) < tol;
    };
    complete = true;
    for (int i = 0; i < s.n && complete; ++i)
        for (int j = i + 1; j < s.n && complete; ++j)
            for (int k = 0; k < s.m && complete; ++k)
                for (int l = 0; l < s.m && complete; ++l)
                    if (k != l && !ok(i, k, j, l)) complete = false;
    std::set<Assoc> best;
    size_t size = 0;
    Assoc cur;
    std::function<void(int)> rec = [&](int i) {
        if (cur.size() + (s.n - i) < size) return;
        if (i == s.n) {
            if (cur.empty()) return;
            if (cur.size() > size) best.clear(), size = cur.size();
            best.insert(cur);
            return;
        }
        for (int d = 0; d < s.m; ++d) {
            bool comp = true;
            for (auto& p : cur) comp = comp && ok(p.first, p.second, i, d);
            if (!comp) continue;
            cur.push_back({i, d});
            rec(i + 1);
            cur.pop_back();
        }
        rec(i + 1);
    };
    rec(0);
    return best;
}
static void feed(pbt::Ctx& c, rofl::CorrespondenceGraphAssociation& g, const Sets& s, bool src, bool dst) {
    auto fill = [&](bool isSrc) {
        auto& mat = isSrc ? s.ds : s.dd;
        std::vector<int> v;
        for (int i = 0; i < (isSrc ? s.n : s.m); ++i) v.push_back(i);
        std::list<int> l(v.begin(), v.end());
        auto dist = [&](int i, int j) -> rofl::Scalar { return mat[std::min(i, j)][std::max(i, j)]; };
        if (c.b(1, 4)) {
            if (isSrc) g.insertSrc(l.begin(), l.end(), dist); else g.insertDst(l.begin(), l.end(), dist);
        } else {
            if (isSrc) g.insertSrc(v.begin(), v.end(), dist); else g.insertDst(v.begin(), v.end(), dist);
        }
    };
    bool first = c.b();
    if (first && src) fill(true);
    if (dst) fill(false);
    if (!first && src) fill(true);
}
static void verify(pbt::Ctx& c, rofl::CorrespondenceGraphAssociation& g, const Sets& s, float tol, float dmin) {
    bool complete = false;
    std::set<Assoc> want = reference(s, tol, dmin, complete), got;
    size_t k = want.empty() ? 0 : want.begin()->size();
    auto print = [&](const std::set<Assoc>& as) {
        std::ostringstream o;
        for (auto& a : as) {
            o << " {";
            for (auto& p : a) o << "(" << p.first << "," << p.second << ")";
            o << "}";
        }
        return o.str();
    };
    size_t count = 0;
    if (c.b()) {
        std::vector<rofl::LabelSet> cl;
        if (c.b(1, 4)) { cl.resize(1); cl[0].insert(0); }
        g.associate(cl);
        for (auto& x : cl) {
            Assoc a;
            for (auto it = x.begin(); it != x.end(); ++it) {
                REQUIRE(*it >= 0 && *it < s.n * s.m, "node " << *it << " of " << s.n * s.m);
                a.push_back({*it / s.m, *it % s.m});
            }
            std::sort(a.begin(), a.end());
            if (a.empty() && want.empty()) continue;
            got.insert(a), ++count;
        }
    } else {
        std::vector<rofl::CorrespondenceGraphAssociation::AssociationHypothesis> hs;
        if (c.b(1, 4)) { hs.resize(1); hs[0].associations.push_back({0, 0}); }
        g.associate(hs);
        for (auto& h : hs) {
            Assoc a = h.associations;
            std::sort(a.begin(), a.end());
            if (a.empty() && want.empty()) continue;
            got.insert(a), ++count;
        }
    }
    REQUIRE(got == want, "associations" << print(got) << " but the maximum cliques have " << k << " nodes:" << print(want));
    REQUIRE(count == got.size(), "an association is repeated:" << print(got));
    c.nontrivial(k >= 2 && !complete);
    if (k >= 2 && !complete) c.label(k == 2 ? "clique 2" : k == 3 ? "clique 3" : "clique 4+");
}
static std::vector<std::vector<float>> randomDist(pbt::Ctx& c, int n, int alphabet, float step) {
    std::vector<std::vector<float>> d(n, std::vector<float>(n, 0));
    for (int i = 0; i < n; ++i)
        for (int j = i + 1; j < n; ++j) d[i][j] = step * (float)c.u(alphabet);
    return d;
}
static std::string showDist(const std::vector<std::vector<float>>& d) {
    std::ostringstream o;
    for (size_t i = 0; i < d.size(); ++i)
        for (size_t j = i + 1; j < d.size(); ++j) o << " " << i << "-" << j << ":" << d[i][j];
    return o.str();
}
FACET(matrices, 60000, 1500000) {
    rofl::CorrespondenceGraphAssociation g;
    size_t rounds = 1 + c.small(3);
    Sets s;
    float tol = 0.1f, dmin = 0.f;  // the documented defaults
    float unit = c.b(1, 3) ? (float)std::ldexp(1.0, (int)c.i(-20, 20)) : 1.f;
    if (unit != 1) g.setTolerance(tol = 0.25f * unit);
    bool wide = c.b(1, 12);
    for (size_t r = 0; r < rounds; ++r) {
        bool ns = r == 0 || c.b(), nd = r == 0 || c.b();
        int alpha = 2 + (int)c.u(c.b() ? 3 : 12);
        if (ns) s.n = wide ? (int)c.u(4) : (int)c.u(6), s.ds = randomDist(c, s.n, alpha, 0.25f * unit);
        if (nd) {
            s.m = wide ? (int)c.u(s.n <= 2 ? 25 : 9) : (int)c.u(6), s.dd = randomDist(c, s.m, alpha, 0.25f * unit);
            // copy part of the source distances so that larger cliques exist
            if (c.b())
                for (int i = 0; i < s.m && i < s.n; ++i)
                    for (int j = i + 1; j < s.m && j < s.n; ++j)
                        if (c.b(3, 4)) s.dd[i][j] = s.ds[i][j] + (c.b(1, 4) ? 0.25f * unit : 0.f);
        }
        if (c.b(2, 3)) { tol = c.b(1, 10) ? 0.f : 0.125f * unit * (float)(1 + c.u(5)); g.setTolerance(tol); }
        if (c.b()) { dmin = 0.25f * unit * (float)c.small(5); g.setDistanceMin(dmin); }
        NOTE("tolerance " << tol << " minimum " << dmin << "\nsource " << s.n << showDist(s.ds) << "\ndestination " << s.m << showDist(s.dd));
        feed(c, g, s, ns, nd);
        verify(c, g, s, tol, dmin);
    }
}
FACET(points, 30000, 600000) {
    // points of a small lattice moved by an exact rigid motion, with outliers on both sides
    auto dist = [](const std::vector<std::pair<int, int>>& p) {
        std::vector<std::vector<float>> d(p.size(), std::vector<float>(p.size(), 0));
        for (size_t i = 0; i < p.size(); ++i)
            for (size_t j = i + 1; j < p.size(); ++j) d[i][j] = (float)std::sqrt((double)((p[i].first - p[j].first) * (p[i].first - p[j].first) + (p[i].second - p[j].second) * (p[i].second - p[j].second)));
        return d;
    };
    std::vector<std::pair<int, int>> ps, pd;
    size_t k = 1 + c.u(5), os = c.u(3), od = c.u(3), rot = c.u(4);
    int tx = (int)c.i(-20, 20), ty = (int)c.i(-20, 20);
    bool mirror = c.b(1, 4);
    auto gen = [&]() { return std::make_pair((int)c.i(-8, 8), (int)c.i(-8, 8)); };
    for (size_t i = 0; i < k; ++i) {
        auto p = gen();
        ps.push_back(p);
        if (mirror) p.first = -p.first;
        for (size_t r = 0; r < rot; ++r) p = {-p.second, p.first};
        pd.insert(pd.begin() + c.u(pd.size() + 1), {p.first + tx, p.second + ty});
    }
    for (size_t i = 0; i < os; ++i) ps.insert(ps.begin() + c.u(ps.size() + 1), gen());
    for (size_t i = 0; i < od; ++i) pd.insert(pd.begin() + c.u(pd.size() + 1), gen());
    Sets s;
    s.n = (int)ps.size(), s.m = (int)pd.size(), s.ds = dist(ps), s.dd = dist(pd);
    NOTE("source" << showDist(s.ds) << "\ndestination" << showDist(s.dd));
    rofl::CorrespondenceGraphAssociation g;
    // equal lattice distances are equal as floats and different ones differ by more than 0.02
    float tol = 0.015625f, dmin = 0.f;
    g.setTolerance(tol);
    if (c.b()) g.setDistanceMin(dmin = 1.0625f);
    feed(c, g, s, true, true);
    verify(c, g, s, tol, dmin);
}

// more items: distances of a wide alphabet (few coincidences) and a planted matching, possibly ambiguous
FACET(larger, 3000, 60000) {
    Sets s;
    s.n = 2 + (int)c.u(11), s.m = 2 + (int)c.u(11);
    s.ds = randomDist(c, s.n, 4000, 0.25f), s.dd = randomDist(c, s.m, 4000, 0.25f);
    size_t k = c.u((uint64_t)std::min({s.n, s.m, 9}) + 1);
    std::vector<int> ps, pd;
    for (int i = 0; i < s.n; ++i) ps.push_back(i);
    for (int i = 0; i < s.m; ++i) pd.push_back(i);
    for (size_t i = 0; i < k; ++i) {
        std::swap(ps[i], ps[i + c.u(ps.size() - i)]);
        std::swap(pd[i], pd[i + c.u(pd.size() - i)]);
    }
    for (size_t i = 0; i < k; ++i)
        for (size_t j = i + 1; j < k; ++j)
            if (c.b(19, 20)) s.dd[std::min(pd[i], pd[j])][std::max(pd[i], pd[j])] = s.ds[std::min(ps[i], ps[j])][std::max(ps[i], ps[j])];
    NOTE("source " << s.n << showDist(s.ds) << "\ndestination " << s.m << showDist(s.dd));
    rofl::CorrespondenceGraphAssociation g;
    float tol = 0.25f * (float)(1 + c.u(2)), dmin = 0;
    g.setTolerance(tol);
    if (c.b(1, 3)) g.setDistanceMin(dmin = 0.25f * (float)c.u(400));
    feed(c, g, s, true, true);
    verify(c, g, s, tol, dmin);
}
