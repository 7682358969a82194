//@ quickscale: 12
//@ fuzz: 300000
// C09: raster and boustrophedon enumeration of intervals.
#include "pbt.h"
#include <rofl/common/interval_indices.h>
#include <set>
#include <cstdlib>

PBT_PROPERTY("C09",
             "random intervals (dimension 1 to 5, any minimum, sizes 1 to 9, empty ones included) are enumerated completely in raster and "
             "boustrophedon order, forwards and backwards; compared with nested loops (raster) and the reflected mixed-radix order, and "
             "checked for bijection, adjacency and position round trips. Non-trivial: two or more coordinates of size 2 or more.")

template <size_t D, class I>
static void run(pbt::Ctx& c, int maxCells) {
    using Int = rofl::IntervalIndices<D, I>;
    using Idx = typename Int::Indices;
    Idx mn, dim;
    int wide = 0;
    long cells = 1;
    for (size_t d = 0; d < D; ++d) {
        mn[d] = (I)c.i(-20, 20);
        if (c.b(1, 12)) mn[d] = (I)c.i(-30000, 30000);
        dim[d] = (I)(1 + c.small(c.b(1, 10) ? maxCells : 9));
        if (c.b(1, 40)) dim[d] = 0;
        while (cells * dim[d] > maxCells) dim[d] = (I)(dim[d] / 2);
        cells *= dim[d];
        wide += dim[d] > 1;
    }
    Int in(mn, dim);
    NOTE(D << "-d interval min " << rofl::outIdx(mn) << " dimensions " << rofl::outIdx(dim));
    if (cells == 0) {
        REQUIRE(in.beginRaster() == in.endRaster(), "empty interval has cells in raster order");
        REQUIRE(in.beginBoustrophedon() == in.endBoustrophedon(), "empty interval has cells in boustrophedon order");
        c.label("empty");
        return;
    }
    c.nontrivial(wide >= 2);
    std::vector<Idx> ras, bou;
    for (auto it = in.beginRaster(); it != in.endRaster(); ++it) {
        ras.push_back(*it);
        REQUIRE((long)ras.size() <= cells, "raster order visits too many cells");
        REQUIRE(*it.operator->() == *it, "operator->");
    }
    for (auto it = in.beginBoustrophedon(); it != in.endBoustrophedon(); it++) {
        bou.push_back(*it);
        REQUIRE((long)bou.size() <= cells, "boustrophedon order visits too many cells");
    }
    REQUIRE((long)ras.size() == cells && (long)bou.size() == cells, "number of visited cells " << ras.size() << " " << bou.size() << " expected " << cells);
    REQUIRE(std::set<Idx>(ras.begin(), ras.end()).size() == (size_t)cells && std::set<Idx>(bou.begin(), bou.end()).size() == (size_t)cells, "a cell is visited twice");
    // reference raster order by counting
    Idx cur = mn;
    for (long p = 0; p < cells; ++p) {
        REQUIRE(ras[p] == cur, "raster position " << p << " is " << rofl::outIdx(ras[p]) << " expected " << rofl::outIdx(cur));
        REQUIRE((rofl::detail::RasterIndexer<D, I>::getIndices(mn, dim, (I)p)) == cur, "RasterIndexer::getIndices(" << p << ")");
        REQUIRE((rofl::detail::RasterIndexer<D, I>::getPos(mn, dim, cur)) == (I)p, "RasterIndexer::getPos of " << rofl::outIdx(cur) << " = " << (rofl::detail::RasterIndexer<D, I>::getPos(mn, dim, cur)) << " expected " << p);
        Idx s;
        s.fill(77);
        rofl::detail::StaticRasterIndexer<D, I>::getIndices((I)p, mn.data(), dim.data(), s.data());
        REQUIRE(s == cur, "StaticRasterIndexer::getIndices(" << p << ") = " << rofl::outIdx(s) << " expected " << rofl::outIdx(cur));
        REQUIRE((rofl::detail::StaticRasterIndexer<D, I>::getPos(mn.data(), dim.data(), cur.data())) == (I)p, "StaticRasterIndexer::getPos of " << rofl::outIdx(cur));
        REQUIRE(in.inside(cur) && in.inside(bou[p]), "visited cell outside the interval");
        for (size_t d = 0; d < D; ++d) {
            if (++cur[d] < mn[d] + dim[d]) break;
            cur[d] = mn[d];
        }
    }
    // boustrophedon: one step at a time, coordinate 0 fastest
    Idx b = mn;
    std::vector<int> dir(D, 1);
    for (long p = 0; p < cells; ++p) {
        REQUIRE(bou[p] == b, "boustrophedon position " << p << " is " << rofl::outIdx(bou[p]) << " expected " << rofl::outIdx(b) << " in min " << rofl::outIdx(mn) << " dimensions " << rofl::outIdx(dim));
        REQUIRE((rofl::detail::BoustrophedonIndexer<D, I>::getIndices(mn, dim, (I)p)) == b, "BoustrophedonIndexer::getIndices(" << p << ")");
        if (p > 0) {
            long l1 = 0;
            for (size_t d = 0; d < D; ++d) l1 += std::labs((long)bou[p][d] - (long)bou[p - 1][d]);
            REQUIRE(l1 == 1, "boustrophedon step " << rofl::outIdx(bou[p - 1]) << " -> " << rofl::outIdx(bou[p]) << " is not to an adjacent cell");
        }
        for (size_t d = 0; d < D; ++d) {
            I n = (I)(b[d] + dir[d]);
            if (n >= mn[d] && n < mn[d] + dim[d]) {
                b[d] = n;
                break;
            }
            dir[d] = -dir[d];
        }
    }
    // backwards
    auto rit = in.endRaster();
    auto bit = in.endBoustrophedon();
    for (long p = cells - 1; p >= 0; --p) {
        --rit;
        if (p % 2) --bit; else bit--;
        REQUIRE(*rit == ras[p] && *bit == bou[p], "backward iteration at position " << p);
    }
    REQUIRE(rit == in.beginRaster() && bit == in.beginBoustrophedon(), "backward iteration ends at begin");
    REQUIRE(!(rit != in.beginRaster()), "!= is the negation of ==");
}
FACET(dim6, 2000, 60000) { run<6, int>(c, 700); }
FACET(longRuns, 300, 8000) {
    switch (c.u(4)) {
        case 0: run<1, int>(c, 3000); break;
        case 1: run<2, int>(c, 3000); break;
        case 2: run<3, long>(c, 3000); break;
        default: run<2, short>(c, 2000); break;
    }
}
// moving forwards and backwards at will
template <size_t D>
static void walk(pbt::Ctx& c) {
    using Int = rofl::IntervalIndices<D, int>;
    using Idx = typename Int::Indices;
    Idx mn, dim;
    long cells = 1;
    for (size_t d = 0; d < D; ++d) mn[d] = (int)c.i(-9, 9), dim[d] = 1 + (int)c.small(6), cells *= dim[d];
    Int in(mn, dim);
    NOTE("walk in min " << rofl::outIdx(mn) << " dimensions " << rofl::outIdx(dim));
    std::vector<Idx> ras, bou;
    for (auto it = in.beginRaster(); it != in.endRaster(); ++it) ras.push_back(*it);
    for (auto it = in.beginBoustrophedon(); it != in.endBoustrophedon(); ++it) bou.push_back(*it);
    REQUIRE((long)ras.size() == cells && (long)bou.size() == cells, "number of cells " << ras.size() << " " << bou.size() << " expected " << cells);
    auto rit = in.beginRaster();
    auto bit = in.beginBoustrophedon();
    long p = 0;
    auto loop = c.loop(60);
    while (loop.more()) {
        bool fwd = p == 0 || (p < cells && c.b(3, 5));
        bool post = c.b();
        long q = fwd ? p + 1 : p - 1;
        auto rold = rit;
        auto bold = bit;
        if (post) {
            auto r = fwd ? rit++ : rit--;
            auto b = fwd ? bit++ : bit--;
            REQUIRE(r == rold && b == bold, "the post-fix operators return the iterator before the step");
            if (p < cells) REQUIRE(*r == ras[p] && *b == bou[p], "the iterator returned by a post-fix operator at position " << p);
        } else if (fwd)
            ++rit, ++bit;
        else
            --rit, --bit;
        REQUIRE(rit != rold && bit != bold && !(rit == rold), "a step gives an equal iterator");
        p = q;
        if (p < cells) REQUIRE(*rit == ras[p] && *bit == bou[p], "position " << p << " is " << rofl::outIdx(*rit) << " / " << rofl::outIdx(*bit) << " expected " << rofl::outIdx(ras[p]) << " / " << rofl::outIdx(bou[p]));
        REQUIRE((rit == in.endRaster()) == (p == cells) && (bit == in.endBoustrophedon()) == (p == cells), "end at position " << p << " of " << cells);
        REQUIRE((rit == in.beginRaster()) == (p == 0) && (bit == in.beginBoustrophedon()) == (p == 0), "begin at position " << p);
    }
    c.nontrivial(cells >= 4 && D >= 2);
}
FACET(walks, 20000, 400000) {
    switch (c.u(3)) {
        case 0: walk<2>(c); break;
        case 1: walk<3>(c); break;
        default: walk<4>(c); break;
    }
}
// single positions of intervals too large to be visited
template <size_t D, class I>
static void far(pbt::Ctx& c, int maxBits) {
    std::array<I, D> mn, dim, want, bw;
    unsigned __int128 cells = 1;
    int left = maxBits;
    for (size_t d = 0; d < D; ++d) {
        int b = 1 + (int)c.u(std::max(1, left - (int)(D - d)));
        left -= b;
        dim[d] = (I)(1 + c.u(1ull << std::min(b, maxBits)));
        mn[d] = (I)c.i(-1000, 1000);
        cells *= (unsigned __int128)dim[d];
    }
    if (cells >> maxBits) {
        dim[0] = 1;
        cells = 1;
        for (size_t d = 0; d < D; ++d) cells *= (unsigned __int128)dim[d];
        if (cells >> maxBits) return;
    }
    uint64_t pos = c.u((uint64_t)cells), q = pos;
    for (size_t d = 0; d < D; ++d) want[d] = (I)(mn[d] + (I)(q % (uint64_t)dim[d])), q /= (uint64_t)dim[d];
    // in the boustrophedon order a coordinate runs backwards when the number of finished runs is odd
    q = pos;
    for (size_t d = 0; d < D; ++d) {
        uint64_t r = q % (uint64_t)dim[d];
        q /= (uint64_t)dim[d];
        bw[d] = (I)(mn[d] + (I)(q % 2 ? (uint64_t)dim[d] - 1 - r : r));
    }
    NOTE("min " << rofl::outIdx(mn) << " dimensions " << rofl::outIdx(dim) << " position " << pos);
    using Ra = rofl::detail::RasterIndexer<D, I>;
    using St = rofl::detail::StaticRasterIndexer<D, I>;
    auto g = Ra::getIndices(mn, dim, (I)pos);
    REQUIRE(g == want, "RasterIndexer::getIndices gives " << rofl::outIdx(g) << " expected " << rofl::outIdx(want));
    REQUIRE((uint64_t)Ra::getPos(mn, dim, want) == pos, "RasterIndexer::getPos gives " << Ra::getPos(mn, dim, want) << " expected " << pos);
    std::array<I, D> s;
    s.fill(5);
    St::getIndices((I)pos, mn.data(), dim.data(), s.data());
    REQUIRE(s == want && (uint64_t)St::getPos(mn.data(), dim.data(), want.data()) == pos, "StaticRasterIndexer gives " << rofl::outIdx(s) << " and " << St::getPos(mn.data(), dim.data(), want.data()));
    auto bo = rofl::detail::BoustrophedonIndexer<D, I>::getIndices(mn, dim, (I)pos);
    REQUIRE(bo == bw, "BoustrophedonIndexer::getIndices gives " << rofl::outIdx(bo) << " expected " << rofl::outIdx(bw));
    c.nontrivial(cells > 1000);
}
FACET(farPositions, 60000, 1500000) {
    switch (c.u(5)) {
        case 0: far<2, int>(c, 30); break;
        case 1: far<3, int>(c, 30); break;
        case 2: far<3, long>(c, 60); break;
        case 3: far<5, long>(c, 60); break;
        default: far<1, int>(c, 30); break;
    }
}
FACET(dim2, 30000, 600000) { run<2, int>(c, 120); }
FACET(dim3, 30000, 600000) { run<3, int>(c, 300); }
FACET(dim4, 15000, 300000) { run<4, int>(c, 400); }
FACET(dim5, 4000, 100000) { run<5, int>(c, 500); }
FACET(dim1, 3000, 20000) { run<1, int>(c, 100); }
FACET(longIndex, 8000, 200000) { run<3, long>(c, 300); }
FACET(shortIndex, 8000, 200000) { run<2, short>(c, 120); }
// every shape up to 4x4x4 (5x5x5x5 in thorough)
FACET(allShapes3, 125, 216) {
    uint64_t n = c.thorough ? 6 : 5, k = c.index(n * n * n);
    rofl::IntervalIndices<3, int>::Indices mn{{-1, 2, 0}}, dim{{(int)(1 + k % n), (int)(1 + k / n % n), (int)(1 + k / n / n)}};
    rofl::IntervalIndices<3, int> in(mn, dim);
    NOTE("shape " << rofl::outIdx(dim));
    std::set<std::array<int, 3>> seen;
    std::array<int, 3> prev = mn;
    bool first = true;
    for (auto it = in.beginBoustrophedon(); it != in.endBoustrophedon(); ++it) {
        auto v = *it;
        REQUIRE(seen.insert(v).second && in.inside(v), "shape " << rofl::outIdx(dim) << " cell " << rofl::outIdx(v));
        int l1 = 0;
        for (int d = 0; d < 3; ++d) l1 += std::abs(v[d] - prev[d]);
        REQUIRE(l1 == (first ? 0 : 1), "shape " << rofl::outIdx(dim) << " step " << rofl::outIdx(prev) << " -> " << rofl::outIdx(v));
        first = false;
        prev = v;
    }
    REQUIRE(seen.size() == in.size(), "all cells visited");
    c.nontrivial();
}
