//@ fuzz: 200000
// C19: truncated least squares consensus of scalar values.
#include "pbt.h"
#include <algorithm>
#include <cmath>
#include <vector>
#include <set>
#include <rofl/common/tls_scalar_consensus.h>

PBT_PROPERTY("C19",
             "random values with acceptance ranges (clusters plus outliers, nested and disjoint intervals, distinct interval ends; powers of "
             "two and general ranges; float and double): the estimate is compared with the minimum over all sets of intervals that share "
             "a point, computed from the definition in extended precision. Non-trivial: three or more values and more than one candidate set "
             "of two or more values.")

struct Cand {
    long double hat, cost;
    size_t card;
};
template <class S>
static std::vector<Cand> candidates(const std::vector<S>& v, const std::vector<S>& r) {
    std::vector<long double> ends;
    for (size_t i = 0; i < v.size(); ++i) {
        ends.push_back((long double)v[i] - r[i]);
        ends.push_back((long double)v[i] + r[i]);
    }
    std::sort(ends.begin(), ends.end());
    std::vector<Cand> out;
    for (size_t k = 0; k + 1 < ends.size(); ++k) {
        long double m = (ends[k] + ends[k + 1]) / 2, sw = 0, sx = 0, cost = 0;
        std::vector<size_t> in;
        for (size_t i = 0; i < v.size(); ++i)
            if (fabsl(m - v[i]) < r[i]) {
                in.push_back(i);
                long double w = std::min(1e12L, 1.0L / ((long double)r[i] * r[i]));
                sw += w;
                sx += w * v[i];
            } else
                cost += r[i];
        if (in.empty()) continue;
        long double hat = sx / sw;
        for (size_t i : in) cost += (hat - v[i]) * (hat - v[i]);
        out.push_back({hat, cost, in.size()});
    }
    return out;
}
template <class S>
static void check(pbt::Ctx& c, const std::vector<S>& v, const std::vector<S>& r, long double tol, long double unit = 1) {
    if (v.size() <= 200) NOTE("values " << pbt::show(v) << " ranges " << pbt::show(r)); else NOTE(v.size() << " values");
    S best = 12345;
    std::vector<bool> in(c.u(4), true);
    std::vector<S> v2 = v, r2 = r;
    rofl::estimateTranslationTls(v2, r2, best, in);
    REQUIRE(v2 == v && r2 == r, "the input changed");
    auto cs = candidates(v, r);
    long double mn = INFINITY;
    int multi = 0;
    for (auto& x : cs) {
        mn = std::min(mn, x.cost);
        multi += x.card >= 2;
    }
    bool ok = false;
    long double expected = 0;
    for (auto& x : cs)
        if (x.cost <= mn + tol * std::min(unit, unit * unit)) {
            expected = x.hat;
            if (fabsl(x.hat - best) <= tol * (unit + fabsl(x.hat))) ok = true;
        }
    REQUIRE(ok, "estimate " << best << " is not the value of a set of minimum cost " << (double)mn << " (for instance " << (double)expected << ")");
    REQUIRE(in.size() == v.size(), "inliers of size " << in.size() << " expected " << v.size());
    for (size_t i = 0; i < v.size(); ++i) {
        long double d = fabsl((long double)v[i] - best);
        if (fabsl(d - r[i]) <= tol * unit) continue;  // on the border
        REQUIRE(in[i] == (d < r[i]), "inlier flag of value " << v[i] << " (range " << r[i] << ") is " << in[i] << " for estimate " << best);
    }
    c.nontrivial(v.size() >= 3 && multi >= 2);
}
// interval ends are pairwise distinct because each value has its own residue modulo 1/16
FACET(exact, 150000, 5000000) {
    size_t n = c.b(1, 40) ? c.len(21, 60) : c.len(1, 20);
    int spread = (int)c.pick(std::vector<int64_t>{8, 40, 200, 1000});
    std::vector<double> v, r;
    bool same = c.b();
    double r0 = std::ldexp(1.0, (int)c.i(-2, 2));
    for (size_t i = 0; i < n; ++i) {
        v.push_back((double)c.i(-spread, spread) / 16 + (double)i / 1024);
        r.push_back(same ? r0 : std::ldexp(1.0, (int)c.i(-2, 2)));
    }
    if (c.b()) {
        std::reverse(v.begin(), v.end());
        std::reverse(r.begin(), r.end());
    }
    double unit = c.b(1, 3) ? std::ldexp(1.0, (int)c.i(-9, 9)) : 1;
    if (c.b(1, 10)) unit = std::ldexp(1.0, -(int)c.pick(std::vector<int64_t>{16, 19, 20, 21, 22}));  // ranges around the smallest one that counts
    for (double& x : v) x *= unit;
    for (double& x : r) x *= unit;
    check<double>(c, v, r, 1e-7L, unit);
}
FACET(general, 150000, 4000000) {
    size_t n = c.b(1, 60) ? c.len(26, 200) : c.len(1, 25);
    double spread = (double)c.pick(std::vector<int64_t>{1, 4, 20, 100}), offset = c.b(1, 5) ? (double)c.i(-300, 300) : 0, wide = c.b(1, 5) ? 30 : 1;
    std::vector<double> v, r;
    std::set<double> ends;
    for (size_t i = 0; i < n; ++i) {
        double x = (double)c.i(-1000000, 1000000) / 1000000 * spread + offset, y = 0.1 + (double)c.u(100000) / 50000 * wide;
        auto near = [&](double e) {
            auto it = ends.lower_bound(e - 1e-7);
            return it != ends.end() && *it <= e + 1e-7;
        };
        if (near(x - y) || near(x + y)) continue;
        ends.insert(x - y);
        ends.insert(x + y);
        v.push_back(x);
        r.push_back(y);
    }
    check<double>(c, v, r, offset == 0 && wide == 1 && n <= 25 ? 1e-8L : 1e-6L);
}
// long lists
FACET(large, 40, 1500) {
    size_t n = c.pick(std::vector<size_t>{300, 1100, 2500});
    uint64_t x = c.bits(40) | 1;
    auto rnd = [&] { return (double)((x = x * 6364136223846793005ULL + 1442695040888963407ULL) >> 40) / 16777216.0; };
    double spread = c.pick(std::vector<double>{4, 30, 200}), share = (double)c.u(5) / 8, at = (double)c.i(-20, 20);
    std::vector<double> v, r;
    std::set<double> ends;
    for (size_t i = 0; i < n; ++i) {
        double y = 0.2 + rnd(), a = rnd() < share ? at + rnd() * 0.3 : (rnd() - 0.5) * spread;
        auto near = [&](double e) {
            auto it = ends.lower_bound(e - 1e-8);
            return it != ends.end() && *it <= e + 1e-8;
        };
        if (near(a - y) || near(a + y)) continue;
        ends.insert(a - y);
        ends.insert(a + y);
        v.push_back(a);
        r.push_back(y);
    }
    check<double>(c, v, r, 1e-6L);
}
FACET(floats, 60000, 1000000) {
    size_t n = c.len(1, 10);
    std::vector<float> v, r;
    for (size_t i = 0; i < n; ++i) {
        v.push_back((float)c.i(-60, 60) / 16 + (float)i / 512);
        r.push_back((float)std::ldexp(1.0, (int)c.i(-2, 1)));
    }
    check<float>(c, v, r, 1e-3L);
}
// a value exactly at its range from the estimate is not an inlier, a slightly closer one is
FACET(border, 20000, 400000) {
    double x = (double)c.i(-50, 50), side = c.b() ? 1 : -1, ry = c.pick(std::vector<double>{2, 4, 8});
    int64_t off = c.i(-2, 2);
    size_t group = (size_t)ry + 1 + c.len(0, 9);
    std::vector<double> v(group, x), r(group, 1.0);
    size_t at = c.u(group + 1);
    v.insert(v.begin() + at, x + side * (ry + (double)off / 64));
    r.insert(r.begin() + at, ry);
    NOTE("values " << pbt::show(v) << " ranges " << pbt::show(r));
    double best = 0;
    std::vector<bool> in;
    rofl::estimateTranslationTls(v, r, best, in);
    if (best == x)
        for (size_t i = 0; i < v.size(); ++i) REQUIRE(in[i] == (i != at || off < 0), "inlier flag of value " << v[i] << " (range " << r[i] << ") is " << in[i] << " for estimate " << best);
    REQUIRE(std::fabs(best - x) <= 1e-9, "estimate " << best << " expected " << x);
    c.nontrivial(best == x && off == 0);
}
// a group of equal values wins against isolated values of smaller total range; shifts carry over
FACET(consensus, 60000, 1500000) {
    double x = (double)c.i(-500, 500) / 8, range = std::ldexp(1.0, (int)c.i(-3, 1));
    size_t group = 2 + c.len(0, 6), others = c.len(0, 12);
    std::vector<double> v(group, x), r(group, range);
    std::vector<bool> exp(group, true);
    for (size_t k = 0; k < others; ++k) {
        v.push_back(x + (k % 2 ? 1 : -1) * 8.0 * (double)(k + 1) + (double)c.i(-8, 8) / 8);
        r.push_back(range);
        exp.push_back(false);
    }
    for (size_t k = v.size(); k > 1; --k) {
        size_t j = c.u(k);
        std::swap(v[j], v[k - 1]);
        bool t = exp[j];
        exp[j] = exp[k - 1];
        exp[k - 1] = t;
    }
    NOTE("values " << pbt::show(v) << " range " << range);
    double best = 0;
    std::vector<bool> in;
    rofl::estimateTranslationTls(v, r, best, in);
    REQUIRE(std::fabs(best - x) <= 1e-9, "estimate " << best << " expected " << x << ", held by " << group << " values");
    REQUIRE(in == exp, "inliers are not the equal values");
    double t = (double)c.i(-64, 64);
    for (double& y : v) y += t;
    rofl::estimateTranslationTls(v, r, best, in);
    REQUIRE(std::fabs(best - x - t) <= 1e-9 && in == exp, "after a shift by " << t << ": estimate " << best << " expected " << x + t);
    c.nontrivial(others >= 2);
}
