//@ quickscale: 60
//@ fuzz: 300000
// C11: Grid is a map from the indices of its domain to values.
#include "pbt.h"
#include <rofl/common/grid.h>
#include <map>

PBT_PROPERTY("C11",
             "random histories on grids of dimension 1 to 4 (five ways to set the domain, fill, write and read through index arrays, "
             "index pointers and linear positions) mirrored on a std::map from indices to values, with regular comparison of every cell. "
             "Non-trivial: at least 4 cells and 3 writes.")

template <size_t D, class V>
static void run(pbt::Ctx& c, int maxDim, int maxOps) {
    using G = rofl::Grid<D, V>;
    using Idx = typename G::Indices;
    Idx mn, dm;
    std::map<Idx, V> model;
    auto genBounds = [&] {
        for (size_t d = 0; d < D; ++d) {
            mn[d] = (int)c.i(-9, 9);
            dm[d] = 1 + (int)c.small(maxDim);
        }
    };
    auto reset = [&](const V& v) {
        model.clear();
        Idx p = mn;
        long cells = 1;
        for (size_t d = 0; d < D; ++d) cells *= dm[d];
        for (long k = 0; k < cells; ++k) {
            model[p] = v;
            for (size_t d = 0; d < D; ++d) {
                if (++p[d] < mn[d] + dm[d]) break;
                p[d] = mn[d];
            }
        }
    };
    genBounds();
    G g;
    size_t how = c.u(6);
    Idx zero;
    zero.fill(0);
    auto setup = [&](size_t h) {
        switch (h) {
            case 0: g = G(mn, dm); break;
            case 1: mn = zero; g = G(dm); break;
            case 2: g.initBounds(mn, dm); break;
            case 3: mn = zero; g.initBounds(dm); break;
            case 4: {
                Idx win, ce;
                for (size_t d = 0; d < D; ++d) {
                    win[d] = dm[d] / 2;
                    ce[d] = mn[d] + win[d];
                    dm[d] = 2 * win[d] + 1;
                }
                g.initCenter(ce, win);
                break;
            }
            default: {
                Idx mx;
                for (size_t d = 0; d < D; ++d) mx[d] = mn[d] + dm[d] - 1;
                g.initMinMax(mn, mx);
                break;
            }
        }
        NOTE("domain " << rofl::outIdx(mn) << " x " << rofl::outIdx(dm) << " set in way " << h);
    };
    setup(how);
    V v0 = (V)c.i(-3, 3);
    g.fill(v0);
    reset(v0);
    auto compareAll = [&](const char* when) {
        const G& cg = g;
        REQUIRE(g.size() == model.size(), when << ": size " << g.size() << " expected " << model.size());
        REQUIRE(g.dimensions() == dm, when << ": dimensions " << rofl::outIdx(g.dimensions()));
        std::vector<bool> seen(model.size());
        for (auto& kv : model) {
            const Idx& p = kv.first;
            REQUIRE(g.inside(p), when << ": inside " << rofl::outIdx(p));
            REQUIRE(cg.value(p) == kv.second, when << ": value" << rofl::outIdx(p) << " = " << cg.value(p) << " expected " << kv.second);
            REQUIRE(g.value(p) == kv.second && cg.value(p.data()) == kv.second && g.value(p.data()) == kv.second, when << ": accessors differ at " << rofl::outIdx(p));
            int pos = g.getPos(p);
            REQUIRE(pos >= 0 && pos < (int)model.size() && !seen[pos], when << ": position " << pos << " of " << rofl::outIdx(p));
            seen[pos] = true;
            REQUIRE(g.getIndices(pos) == p, when << ": getIndices(" << pos << ") = " << rofl::outIdx(g.getIndices(pos)) << " expected " << rofl::outIdx(p));
            REQUIRE(cg.value(pos) == kv.second && g.value(pos) == kv.second, when << ": value at position " << pos);
            Idx q = p;
            size_t d = (size_t)pos % D;
            q[d] = mn[d] - 1;
            REQUIRE(!g.inside(q), when << ": " << rofl::outIdx(q) << " is inside");
            q[d] = mn[d] + dm[d];
            REQUIRE(!g.inside(q), when << ": " << rofl::outIdx(q) << " is inside");
        }
    };
    compareAll("after fill");
    int writes = 0, step = 0;
    auto loop = c.loop(maxOps);
    while (loop.more()) {
        ++step;
        size_t op = c.w({5, 3, 3, 2, 1, 1});
        Idx p;
        for (size_t d = 0; d < D; ++d) p[d] = mn[d] + (int)c.u(dm[d]);
        V v = (V)c.i(-1000, 1000);
        switch (op) {
            case 0: g.value(p) = v; model[p] = v; ++writes; NOTE("value" << rofl::outIdx(p) << " = " << v); break;
            case 1: g.value(p.data()) = v; model[p] = v; ++writes; NOTE("pointer value" << rofl::outIdx(p) << " = " << v); break;
            case 2: g.value((int)g.getPos(p)) = v; model[p] = v; ++writes; NOTE("position value" << rofl::outIdx(p) << " = " << v); break;
            case 3: REQUIRE(g.value(p) == model[p], "value" << rofl::outIdx(p) << " = " << g.value(p) << " expected " << model[p]); break;
            case 4: {
                g.fill(v);
                for (auto& kv : model) kv.second = v;
                NOTE("fill " << v);
                break;
            }
            default:
                if (c.b(1, 3)) {
                    genBounds();
                    setup(c.u(6));
                    g.fill(v);
                    reset(v);
                } else {
                    G copy(g);
                    g.fill((V)5);
                    g = copy;
                    NOTE("copy");
                }
                break;
        }
        if (step % 5 == 0) compareAll("history");
    }
    compareAll("at the end");
    c.nontrivial(model.size() >= 4 && writes >= 3);
}
FACET(dim1, 6000, 200000) { run<1, int>(c, 12, 30); }
FACET(dim2, 15000, 400000) { run<2, int>(c, 8, 30); }
FACET(dim3, 12000, 300000) { run<3, double>(c, 5, 30); }
FACET(dim4, 5000, 100000) { run<4, long>(c, 4, 20); }
FACET(dim5, 1500, 30000) { run<5, short>(c, 3, 15); }
// large domains: every cell gets a value of its own, and keeps it
template <size_t D, class V, class I>
static void bulk(pbt::Ctx& c) {
    using G = rofl::Grid<D, V, I>;
    typename G::Indices mn, dm;
    long cells = 1;
    for (size_t d = 0; d < D; ++d) {
        mn[d] = (I)c.i(-500, 500);
        dm[d] = (I)(1 + c.u(400));
        while (cells * (long)dm[d] > 120000) dm[d] = (I)(dm[d] / 2 ? dm[d] / 2 : 1), cells = std::min(cells, 120000l);
        cells *= (long)dm[d];
    }
    NOTE("grid min " << rofl::outIdx(mn) << " dimensions " << rofl::outIdx(dm));
    G g(mn, dm);
    REQUIRE(g.size() == (size_t)cells, "size " << g.size() << " expected " << cells);
    std::vector<typename G::Indices> all;
    auto p = mn;
    for (long k = 0; k < cells; ++k) {
        all.push_back(p);
        for (size_t d = 0; d < D; ++d) {
            if (++p[d] < mn[d] + dm[d]) break;
            p[d] = mn[d];
        }
    }
    size_t how = c.u(3);
    for (long k = 0; k < cells; ++k) {
        if (how == 0) g.value(all[k]) = (V)k;
        else if (how == 1) g.value(all[k].data()) = (V)k;
        else g.value((I)g.getPos(all[k])) = (V)k;
    }
    const G h(g);
    g.fill((V)-1);
    for (long k = 0; k < cells; ++k) {
        REQUIRE(h.value(all[k]) == (V)k && h.value(all[k].data()) == (V)k && h.value((I)h.getPos(all[k])) == (V)k, "cell " << rofl::outIdx(all[k]) << " holds " << h.value(all[k]) << " expected " << k);
        REQUIRE(h.getIndices((I)h.getPos(all[k])) == all[k], "getIndices of getPos of " << rofl::outIdx(all[k]));
        REQUIRE(g.value(all[k]) == (V)-1, "fill misses " << rofl::outIdx(all[k]));
    }
    c.nontrivial(cells > 1000);
}
FACET(bulk, 60, 2000) {
    switch (c.u(4)) {
        case 0: bulk<2, int, int>(c); break;
        case 1: bulk<3, double, int>(c); break;
        case 2: bulk<1, long, long>(c); break;
        default: bulk<4, int, long>(c); break;
    }
}
