//@ quickscale: 10
//@ fuzz: 200000
// C12: PeakFinderD finds exactly the strict peaks.
#include <limits>
#include "pbt.h"
#include <rofl/common/peak_finder_d.h>
#include <rofl/common/grid.h>
#include <algorithm>
#include <cmath>
#include <iterator>
#include <set>

PBT_PROPERTY("C12",
             "random maps over boxes of dimension 1 to 4 (small value alphabets so that plateaus and ties are common, also smooth and "
             "random ones), windows of half-size 0 to 5 per coordinate (also larger than the domain), with and without threshold, maxima "
             "and minima; the reported peaks are compared with a brute-force scan. Non-trivial: a window with other cells and at least "
             "one reported peak besides at least one non-peak.")

// a comparator with a state: it must be the one given to the constructor that decides
struct Keyed {
    int mul = 0, mod = 0;
    long key(int v) const { return mod ? ((long)v * mul % mod + mod) % mod : v; }
    bool operator()(int a, int b) const { return key(a) > key(b); }
};
template <size_t D, class V, class Cmp, class I = int>
static void run(pbt::Ctx& c, int maxDim, long maxCells, int maxWin = 6, Cmp cmp = Cmp()) {
    using PF = rofl::PeakFinderD<D, V, I, Cmp>;
    using Idx = typename PF::Indices;
    PF pf = std::is_empty<Cmp>::value && c.b() ? PF() : PF(cmp);
    bool filter = false;
    V thr = 0;
    Idx mn, dm, win;
    win.fill(0);
    bool nt = false;
    size_t rounds = 1 + (c.b(1, 3) ? c.u(3) : 0);
    for (size_t round = 0; round < rounds; ++round) {
        // the same finder is set up again, entirely or in part
        long cells = 1;
        if (round == 0 || c.b()) {
            for (size_t d = 0; d < D; ++d) {
                mn[d] = (int)c.i(-6, 6);
                if (c.b(1, 20)) mn[d] = (int)c.i(-1000000, 1000000);
                dm[d] = 1 + (int)c.u(maxDim);
                while (cells * dm[d] > maxCells) dm[d] = std::max<I>(1, dm[d] / 2);
                if (cells * dm[d] > maxCells) dm[d] = 1;
                cells *= dm[d];
            }
            size_t how = c.u(3);
            if (how == 0) {
                Idx mx;
                for (size_t d = 0; d < D; ++d) mx[d] = mn[d] + dm[d] - 1;
                pf.setDomain(mn, mx);
            } else if (how == 1) {
                mn.fill(0);
                pf.setDomain(dm);
            } else {
                Idx ce, half;
                for (size_t d = 0; d < D; ++d) {
                    half[d] = (dm[d] - 1) / 2;
                    ce[d] = mn[d] + half[d];
                    dm[d] = 2 * half[d] + 1;
                }
                pf.setDomainCentered(ce, half);
            }
        }
        cells = 1;
        for (size_t d = 0; d < D; ++d) cells *= dm[d];
        if (round ? c.b() : c.b(19, 20)) {
            for (size_t d = 0; d < D; ++d) win[d] = (int)c.small(maxWin);
            pf.setPeakWindow(win);
        }
        rofl::Grid<D, V, I> g(mn, dm);
        size_t shape = c.w({6, 1, 1, 1});
        int64_t alphabet = c.pick(std::vector<int64_t>{1, 2, 4, 9, 100, 100000});
        std::vector<V> vals;
        Idx top;
        for (size_t d = 0; d < D; ++d) top[d] = mn[d] + (int)c.u(dm[d]);
        int64_t slope = c.i(-3, 3);
        for (long p = 0; p < cells; ++p) {
            V v;
            if (shape == 0)
                v = (V)c.i(-alphabet, alphabet);
            else if (shape == 1) {  // ramp or cone, with a few exceptions
                Idx ix = g.getIndices((int)p);
                long r = 0;
                for (size_t d = 0; d < D; ++d) r += slope > 0 ? std::abs(ix[d] - top[d]) : ix[d] - mn[d];
                v = (V)(c.b(1, 10) ? c.i(-20, 20) : r * slope);
            } else if (shape == 2)  // extremes of the type
                v = c.pick(std::vector<V>{std::numeric_limits<V>::max(), std::numeric_limits<V>::lowest(), (V)(std::numeric_limits<V>::max() - 1), 0, 1, (V)-1});
            else  // nearly constant
                v = (V)(c.b(1, 12) ? c.i(-2, 2) : 1);
            g.value((int)p) = v;
            vals.push_back(v);
        }
        if (round ? c.b() : c.b(4, 5)) {
            filter = c.b(2, 5);
            thr = c.b(2, 3) && !vals.empty() ? vals[c.u(vals.size())] : (V)c.i(-alphabet, alphabet);
            pf.enableFilterPeakMin(filter, thr);
        }
        if (c.b(1, 10)) {
            PF other(pf);
            pf = other;
        }
        NOTE("round " << round << ": " << D << "-d domain min " << rofl::outIdx(mn) << " dims " << rofl::outIdx(dm) << " window " << rofl::outIdx(win) << (filter ? " threshold " : " no threshold ") << (filter ? thr : V(0)) << " values " << pbt::show(vals));
        // brute force
        std::vector<Idx> cellsv;
        for (long p = 0; p < cells; ++p) cellsv.push_back(g.getIndices((int)p));
        std::set<Idx> expect;
        bool others = false;
        for (long pi = 0; pi < cells; ++pi) {
            const Idx& p = cellsv[pi];
            bool peak = !filter || cmp(vals[pi], thr);
            for (long qi = 0; qi < cells; ++qi) {
                if (pi == qi) continue;
                const Idx& q = cellsv[qi];
                bool in = true;
                for (size_t d = 0; d < D; ++d) in = in && std::abs(p[d] - q[d]) <= win[d];
                if (!in) continue;
                others = true;
                if (!cmp(vals[pi], vals[qi])) {
                    peak = false;
                    break;
                }
            }
            if (peak) expect.insert(p);
        }
        std::vector<Idx> got;
        pf.detect([&](const Idx& i) -> V { if (!g.inside(i)) throw pbt::Fail{"the map is read outside the domain"}; return g.value(i); }, std::back_inserter(got));
        std::set<Idx> gs(got.begin(), got.end());
        REQUIRE(gs.size() == got.size(), "a peak is reported twice");
        for (auto& p : gs) REQUIRE(expect.count(p), "reported " << rofl::outIdx(p) << " (value " << g.value(p) << ") is not a strict peak");
        for (auto& p : expect) REQUIRE(gs.count(p), "peak " << rofl::outIdx(p) << " (value " << g.value(p) << ") is not reported");
        for (size_t k = 1; k < got.size(); ++k) REQUIRE(!cmp(g.value(got[k]), g.value(got[k - 1])), "peaks are not sorted from the best at position " << k);
        // a finder can be used again
        std::vector<Idx> again;
        pf.detect([&](const Idx& i) { return g.value(i); }, std::back_inserter(again));
        REQUIRE(std::set<Idx>(again.begin(), again.end()) == gs && again.size() == gs.size(), "a second detection differs");
        nt = nt || (others && !expect.empty() && (long)expect.size() < cells);
        c.label(expect.empty() ? "no peak" : expect.size() == 1 ? "one peak" : "several peaks");
    }
    c.nontrivial(nt);
}
FACET(keyed, 6000, 150000) {
    Keyed k;
    k.mul = (int)c.i(-7, 7);
    k.mod = (int)c.pick(std::vector<int64_t>{0, 0, 5, 13, 97});
    run<2, int, Keyed>(c, 8, 49, 5, k);
}
FACET(longIndex, 4000, 100000) { run<2, int, std::greater<int>, long>(c, 9, 64); }
// long 1-d maps and wide windows: a cell is a peak when the nearest cells that are not worse lie outside the window
FACET(huge1d, 60, 3000) {
    int n = (int)c.len(2000, 30000), w = (int)c.pick(std::vector<int64_t>{1, 7, 500, 5000, 20000});
    w = 1 + (int)c.u(w);
    int64_t alphabet = c.pick(std::vector<int64_t>{1, 3, 1000, 1000000});
    int shape = (int)c.u(4);
    uint64_t state = c.bits(64);
    std::vector<int> v(n);
    for (int i = 0; i < n; ++i) {
        state = state * 6364136223846793005ull + 1442695040888963407ull;
        int r = (int)((state >> 33) % (2 * alphabet + 1)) - (int)alphabet;
        v[i] = shape == 0 ? r : shape == 1 ? i + r % 3 : shape == 2 ? -i + r % 3 : (int)(1000000 * std::sin(i * 0.01)) + r % 5;
    }
    NOTE("length " << n << " window " << w << " alphabet " << alphabet << " shape " << shape << " state " << state);
    std::vector<int> prev(n, -1), next(n, n), st, ex;
    for (int i = 0; i < n; ++i) {
        while (!st.empty() && v[st.back()] < v[i]) st.pop_back();
        if (!st.empty()) prev[i] = st.back();
        st.push_back(i);
    }
    st.clear();
    for (int i = n - 1; i >= 0; --i) {
        while (!st.empty() && v[st.back()] < v[i]) st.pop_back();
        if (!st.empty()) next[i] = st.back();
        st.push_back(i);
    }
    for (int i = 0; i < n; ++i)
        if ((prev[i] < 0 || prev[i] < i - w) && (next[i] == n || next[i] > i + w)) ex.push_back(i);
    rofl::PeakFinderD<1, int, int, std::greater<int>> pf;
    pf.setDomain({{n}});
    pf.setPeakWindow({{w}});
    std::vector<std::array<int, 1>> got;
    pf.detect([&](const std::array<int, 1>& i) { return v.at(i[0]); }, std::back_inserter(got));
    std::vector<int> gi;
    for (auto& g : got) gi.push_back(g[0]);
    for (size_t k = 1; k < gi.size(); ++k) REQUIRE(v[gi[k - 1]] >= v[gi[k]], "peaks are not sorted from the best at position " << k);
    std::sort(gi.begin(), gi.end());
    REQUIRE(gi == ex, gi.size() << " peaks reported, expected " << ex.size() << (gi.size() < 40 && ex.size() < 40 ? ": " + pbt::show(gi) + " expected " + pbt::show(ex) : std::string()));
    c.nontrivial(!ex.empty());
}
FACET(longRows, 600, 15000) { run<1, int, std::greater<int>>(c, 1200, 1200, 260); }
FACET(wideWindows, 3000, 60000) { run<2, long, std::greater<long>>(c, 14, 150, 16); }
FACET(minima3, 6000, 150000) { run<3, float, std::less<float>>(c, 5, 60, 4); }
FACET(dim1, 40000, 1000000) { run<1, int, std::greater<int>>(c, 30, 30); }
FACET(dim2, 30000, 800000) { run<2, int, std::greater<int>>(c, 9, 64); }
FACET(dim2large, 1500, 40000) { run<2, int, std::greater<int>>(c, 30, 400); }
FACET(dim3, 12000, 300000) { run<3, int, std::greater<int>>(c, 6, 90); }
FACET(dim4, 4000, 60000) { run<4, int, std::greater<int>>(c, 4, 120); }
FACET(minima, 15000, 300000) { run<2, double, std::less<double>>(c, 8, 50); }
// every 1-d map of length n over 3 values with every window
FACET(allSmall1d, 729, 6561) {
    int n = c.thorough ? 8 : 6;
    uint64_t total = 1;
    for (int k = 0; k < n; ++k) total *= 3;
    uint64_t idx = c.index(total);
    std::vector<int> v;
    for (int k = 0; k < n; ++k) {
        v.push_back((int)(idx % 3));
        idx /= 3;
    }
    NOTE("values " << pbt::show(v));
    for (int w = 0; w <= n; ++w) {
        rofl::PeakFinderD<1, int, int, std::greater<int>> pf;
        pf.setDomain({{n}});
        pf.setPeakWindow({{w}});
        std::vector<std::array<int, 1>> got;
        pf.detect([&](const std::array<int, 1>& i) { return v[i[0]]; }, std::back_inserter(got));
        std::set<int> gs, ex;
        for (auto& g : got) gs.insert(g[0]);
        for (int i = 0; i < n; ++i) {
            bool peak = true;
            for (int j = std::max(0, i - w); j <= std::min(n - 1, i + w); ++j) peak = peak && (j == i || v[i] > v[j]);
            if (peak) ex.insert(i);
        }
        REQUIRE(gs == ex && gs.size() == got.size(), "values " << pbt::show(v) << " window " << w << ": peaks " << pbt::show(gs) << " expected " << pbt::show(ex));
    }
    c.nontrivial();
}
