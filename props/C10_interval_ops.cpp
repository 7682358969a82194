//@ quickscale: 60
//@ fuzz: 400000
// C10: interval algebra on index boxes.
#include "pbt.h"
#include <sstream>
#include <rofl/common/interval_indices.h>

PBT_PROPERTY("C10",
             "random index boxes built in the four ways (bounds, centred, min/max, default), intersected, stacked, translated and queried, "
             "compared with membership predicates evaluated on every point of a surrounding cube. Non-trivial: both boxes non-empty and "
             "of dimension 2 or more.")

template <size_t D, class I = int>
struct Box {  // model: inclusive lo, exclusive hi
    std::array<I, D> lo, hi;
    bool empty() const {
        for (size_t d = 0; d < D; ++d)
            if (hi[d] <= lo[d]) return true;
        return false;
    }
    bool has(const std::array<I, D>& p) const {
        for (size_t d = 0; d < D; ++d)
            if (p[d] < lo[d] || p[d] >= hi[d]) return false;
        return true;
    }
    size_t count() const {
        if (empty()) return 0;
        size_t n = 1;
        for (size_t d = 0; d < D; ++d) n *= (size_t)(hi[d] - lo[d]);
        return n;
    }
};
template <size_t D, class I = int>
static void same(pbt::Ctx& c, const rofl::IntervalIndices<D, I>& in, const Box<D, I>& b, const char* what) {
    REQUIRE(in.empty() == b.empty(), what << ": empty() of " << rofl::outIdx(in.min()) << " x " << rofl::outIdx(in.dimensions()));
    REQUIRE(in.size() == b.count(), what << ": size " << in.size() << " expected " << b.count());
    // membership on a cube slightly larger than both
    std::array<I, D> lo, hi, p;
    long cells = 1;
    for (size_t d = 0; d < D; ++d) {
        lo[d] = std::min(b.lo[d], in.min()[d]) - 1;
        hi[d] = std::max<I>(b.hi[d], in.min()[d] + in.dimension(d)) + 1;
        cells *= std::max(0l, (long)hi[d] - lo[d] + 1);
    }
    if (cells > 20000) {  // probe only
        for (int k = 0; k < 200; ++k) {
            for (size_t d = 0; d < D; ++d) {
                int sel = (k >> (2 * (d % 3))) & 3;
                p[d] = sel == 0 ? (I)(lo[d] + (long)((k * 7919ul + d * 104729ul) % (unsigned long)((long)hi[d] - lo[d] + 1))) : sel == 1 ? b.lo[d] - (k & 1) : sel == 2 ? b.hi[d] - (k & 1) : b.lo[d] + (b.hi[d] - b.lo[d]) / 2;
            }
            REQUIRE(in.inside(p) == b.has(p), what << ": inside " << rofl::outIdx(p));
        }
        return;
    }
    p = lo;
    for (long k = 0; k < cells; ++k) {
        if (in.inside(p) != b.has(p)) PFAIL(what << ": inside(" << rofl::outIdx(p) << ") = " << in.inside(p) << " in " << rofl::outIdx(in.min()) << " x " << rofl::outIdx(in.dimensions()));
        c.unit();
        for (size_t d = 0; d < D; ++d) {
            if (++p[d] <= hi[d]) break;
            p[d] = lo[d];
        }
    }
    if (!b.empty()) {
        auto mn = in.min(), mx = in.max(), fi = in.first(), la = in.last(), dm = in.dimensions();
        for (size_t d = 0; d < D; ++d)
            REQUIRE(mn[d] == b.lo[d] && fi[d] == b.lo[d] && mx[d] == b.hi[d] - 1 && la[d] == b.hi[d] && dm[d] == b.hi[d] - b.lo[d] && in.dimension(d) == dm[d],
                    what << ": bounds of coordinate " << d << ": min " << mn[d] << " max " << mx[d] << " dimension " << dm[d] << " expected [" << b.lo[d] << "," << b.hi[d] << "[");
    }
    if (!b.empty()) {  // text form
        std::ostringstream o1, o2, ex, pt;
        in.print(o1);
        o2 << in;
        ex << "[";
        pt << "[";
        for (size_t d = 0; d < D; ++d) {
            ex << (d ? "," : "") << b.lo[d] << ":" << b.hi[d] - 1;
            pt << (d ? "," : "") << b.lo[d];
        }
        ex << "]";
        pt << "]";
        REQUIRE(o1.str() == ex.str() && o2.str() == ex.str(), what << ": printed as " << o1.str() << " and " << o2.str() << ", expected " << ex.str());
        REQUIRE(rofl::outIdx(in.min()) == pt.str(), what << ": minimum printed as " << rofl::outIdx(in.min()) << ", expected " << pt.str());
    }
    auto cl = in.clone();
    REQUIRE(cl.min() == in.min() && cl.dimensions() == in.dimensions(), what << ": clone");
}
template <size_t D, class I = int>
static void gen(pbt::Ctx& c, rofl::IntervalIndices<D, I>& in, Box<D, I>& b, int n, const std::array<I, D>& off) {
    std::array<I, D> p, q;
    size_t how = c.w({4, 3, 3, 1});
    for (size_t d = 0; d < D; ++d) {
        p[d] = off[d] + (I)c.i(-n, n);
        q[d] = (I)c.small(n + 1);
    }
    switch (how) {
        case 0:
            for (size_t d = 0; d < D; ++d) {
                b.lo[d] = p[d];
                b.hi[d] = p[d] + q[d];
            }
            if (c.b()) in = rofl::IntervalIndices<D, I>(p, q); else in.initBounds(p, q);
            NOTE("bounds " << rofl::outIdx(p) << " " << rofl::outIdx(q));
            break;
        case 1:
            for (size_t d = 0; d < D; ++d) {
                b.lo[d] = p[d] - q[d];
                b.hi[d] = p[d] + q[d] + 1;
            }
            in.initCentered(p, q);
            NOTE("centred " << rofl::outIdx(p) << " " << rofl::outIdx(q));
            break;
        case 2: {
            for (size_t d = 0; d < D; ++d) {
                int off = c.b(1, 12) ? -(int)c.small(5) : 0;
                q[d] = p[d] + (off ? off : q[d]);
                b.lo[d] = p[d];
                b.hi[d] = q[d] + 1;
            }
            in.initMinMax(p, q);
            NOTE("min/max " << rofl::outIdx(p) << " " << rofl::outIdx(q));
            break;
        }
        default:
            for (size_t d = 0; d < D; ++d) b.lo[d] = b.hi[d] = 0;
            in = rofl::IntervalIndices<D, I>();
            NOTE("default");
            break;
    }
}
template <size_t D, class I = int>
static void run(pbt::Ctx& c, int n) {
    // everything stays well inside the index type
    const long OFF = sizeof(I) == 2 ? 20000 : sizeof(I) == 4 ? 1000000000 : 1000000000000000000l, FAR = sizeof(I) == 2 ? 2000 : 100000;
    rofl::IntervalIndices<D, I> a, b2;
    Box<D, I> ma, mb;
    std::array<I, D> off;
    off.fill(0);
    if (c.b(1, 6))
        for (size_t d = 0; d < D; ++d) off[d] = (I)c.i(-OFF, OFF);  // far from the origin
    gen<D, I>(c, a, ma, n, off);
    gen<D, I>(c, b2, mb, n, off);
    same<D, I>(c, a, ma, "first interval");
    same<D, I>(c, b2, mb, "second interval");
    c.nontrivial(D >= 2 && !ma.empty() && !mb.empty());
    // intersection
    Box<D, I> mi;
    for (size_t d = 0; d < D; ++d) {
        mi.lo[d] = std::max(ma.lo[d], mb.lo[d]);
        mi.hi[d] = std::min(ma.hi[d], mb.hi[d]);
    }
    if (ma.empty() || mb.empty()) mi.hi = mi.lo;
    NOTE("intersect");
    same<D, I>(c, a.intersect(b2), mi, "intersection");
    same<D, I>(c, b2.intersect(a), mi, "swapped intersection");
    same<D, I>(c, a.intersect(a), ma, "self intersection");
    same<D, I>(c, a, ma, "operand after intersection");
    c.label(mi.empty() ? "empty intersection" : "overlap");
    // stacked: the slab of new cells after (incr >= 0) or before (incr < 0)
    size_t d = c.u(D);
    int incr = c.b(1, 8) ? (int)c.i(-FAR, FAR) : (int)c.i(-4, 4);
    bool regular = true;
    for (size_t k = 0; k < D; ++k) regular = regular && ma.hi[k] >= ma.lo[k];
    if (regular) {
        Box<D, I> ms = ma;
        if (incr >= 0) {
            ms.lo[d] = ma.hi[d];
            ms.hi[d] = ma.hi[d] + incr;
        } else {
            ms.lo[d] = ma.lo[d] + incr;
            ms.hi[d] = ma.lo[d];
        }
        NOTE("stacked " << d << " " << incr);
        same<D, I>(c, a.stacked(d, incr), ms, "stacked");
    }
    // translations
    Box<D, I> mt = ma;
    rofl::IntervalIndices<D, I> t = a;
    std::array<I, D> v;
    for (size_t k = 0; k < D; ++k) v[k] = c.b(1, 8) ? (I)c.i(-FAR, FAR) : (I)c.i(-6, 6);
    NOTE("translate " << d << " by " << incr << " then by " << rofl::outIdx(v));
    t.translate(d, incr);
    mt.lo[d] += incr;
    mt.hi[d] += incr;
    same<D, I>(c, t, mt, "translated along one coordinate");
    t.translate(v);
    for (size_t k = 0; k < D; ++k) {
        mt.lo[k] += v[k];
        mt.hi[k] += v[k];
    }
    same<D, I>(c, t, mt, "translated by a vector");
    for (size_t k = 0; k < D; ++k) {
        I m = (I)(a.min()[k] + v[k] + (k == d ? incr : 0));
        REQUIRE(t.min()[k] == m && t.dimension(k) == a.dimension(k), "translated box starts at " << rofl::outIdx(t.min()) << " with sizes " << rofl::outIdx(t.dimensions()));
    }
    same<D, I>(c, a, ma, "original after translating a copy");
}
FACET(dim1, 20000, 400000) { run<1>(c, 6); }
FACET(dim2, 30000, 800000) { run<2>(c, 5); }
FACET(dim3, 15000, 400000) { run<3>(c, 3); }
FACET(dim2large, 3000, 60000) { run<2>(c, 5000); }
FACET(dim3huge, 3000, 60000) { run<3>(c, 200000); }
FACET(dim5, 1000, 20000) { run<5>(c, 1); }
FACET(dim2wide, 6000, 120000) { run<2, long>(c, 5); }
FACET(dim2narrow, 6000, 120000) { run<2, short>(c, 5); }
FACET(dim4, 2000, 40000) { run<4>(c, 2); }
