//@ quickscale: 20
//@ fuzz: 400000
// C06: Morton order, distance and split of integer vectors.
#include "pbt.h"
#include <rofl/common/morton_sort.h>
#include <type_traits>

PBT_PROPERTY("C06",
             "pairs of integer vectors (8 to 64 bit, signed and unsigned, dimension 1 to 4, 6 and 9) with correlated prefixes, sign changes and "
             "extremes; compare/distance/split are compared with an explicit bit-interleaving reference; all pairs of 8-bit scalars and "
             "of small 2-d points are enumerated. Non-trivial: the vectors differ in at least two coordinates (or, for scalars, differ).")

template <class I>
using U = typename std::make_unsigned<I>::type;
// order preserving map to unsigned
template <class I>
static U<I> key(I v) {
    return std::is_signed<I>::value ? (U<I>)((U<I>)v ^ ((U<I>)1 << (sizeof(I) * 8 - 1))) : (U<I>)v;
}
// -1, 0, 1 by explicit interleaving; coordinate 0 is the most significant of each bit row
template <class I>
static int refCmp(const I* a, const I* b, int dim) {
    for (int bit = sizeof(I) * 8 - 1; bit >= 0; --bit)
        for (int d = 0; d < dim; ++d) {
            int x = (key(a[d]) >> bit) & 1, y = (key(b[d]) >> bit) & 1;
            if (x != y) return x < y ? -1 : 1;
        }
    return 0;
}
template <class I>
static int refDist(const I* a, const I* b, int dim) {
    for (int bit = sizeof(I) * 8 - 1; bit >= 0; --bit)
        for (int d = 0; d < dim; ++d)
            if (((key(a[d]) >> bit) & 1) != ((key(b[d]) >> bit) & 1)) return bit + 1;
    return 0;
}
template <class I>
static std::string str(const I* v, int dim) {
    std::ostringstream os;
    os << "(";
    for (int d = 0; d < dim; ++d) os << (d ? "," : "") << (std::is_signed<I>::value ? std::to_string((long long)v[d]) : std::to_string((unsigned long long)v[d]));
    return os.str() + ")";
}

// smallest aligned power-of-two block holding both values
template <class I>
static int refBlock(I a, I b, I& low, I& mid, I& upp) {
    U<I> ka = key(a), kb = key(b);
    int level = 0;
    while (level < (int)sizeof(I) * 8 && (ka >> level) != (kb >> level)) ++level;
    U<I> mask = level == (int)sizeof(I) * 8 ? (U<I>)~(U<I>)0 : (U<I>)(((U<I>)1 << level) - 1);
    U<I> lo = ka & (U<I>)~mask, up = lo | mask, mi = level > 0 ? (U<I>)(lo | ((U<I>)1 << (level - 1))) : lo;
    auto unkey = [](U<I> k) { return std::is_signed<I>::value ? (I)(k ^ ((U<I>)1 << (sizeof(I) * 8 - 1))) : (I)k; };
    low = unkey(lo);
    mid = unkey(mi);
    upp = unkey(up);
    return level;
}
template <class I>
static void checkBlock(pbt::Ctx& c, I a, I b) {
    I low, mid, upp, el, em, eu;
    int level = rofl::intervalPow2Int<I>(a, b, low, mid, upp);
    int e = refBlock<I>(a, b, el, em, eu);
    I got[] = {low, mid, upp}, exp[] = {el, em, eu}, in[] = {a, b};
    REQUIRE(level == e, "interval level of " << str(in, 2) << " = " << level << " expected " << e << " (" << sizeof(I) * 8 << " bits)");
    REQUIRE(low == el && mid == em && upp == eu, "interval of " << str(in, 2) << " = " << str(got, 3) << " expected " << str(exp, 3) << " (" << sizeof(I) * 8 << " bits)");
}

template <class I, int Dim>
static void checkPair(pbt::Ctx& c, const I* a, const I* b) {
    using T = rofl::MortonTraits<I, Dim>;
    int r = refCmp(a, b, Dim);
    REQUIRE(T::compare(a, b) == (r < 0), "compare " << str(a, Dim) << " " << str(b, Dim) << " (" << sizeof(I) * 8 << " bits, signed " << std::is_signed<I>::value << ")");
    REQUIRE(T::compare(b, a) == (r > 0), "compare " << str(b, Dim) << " " << str(a, Dim) << " (" << sizeof(I) * 8 << " bits, signed " << std::is_signed<I>::value << ")");
    int dist = refDist(a, b, Dim);
    REQUIRE(T::distance(a, b) == dist, "distance " << str(a, Dim) << " " << str(b, Dim) << " = " << T::distance(a, b) << " expected " << dist);
    REQUIRE(T::distance(b, a) == dist, "distance is not symmetric");
    I low[Dim], mid[Dim], upp[Dim];
    T::split(a, b, low, mid, upp);
    for (int d = 0; d < Dim; ++d) {
        REQUIRE(low[d] <= a[d] && a[d] <= upp[d] && low[d] <= b[d] && b[d] <= upp[d], "split of " << str(a, Dim) << " " << str(b, Dim) << " has low " << str(low, Dim) << " upp " << str(upp, Dim));
        REQUIRE(low[d] <= mid[d] && mid[d] <= upp[d], "mid " << str(mid, Dim) << " outside the block of " << str(a, Dim) << " " << str(b, Dim));
        I el, em, eu;
        refBlock<I>(a[d], b[d], el, em, eu);
        REQUIRE(low[d] == el && upp[d] == eu, "split of " << str(a, Dim) << " " << str(b, Dim) << " is not the smallest block: low " << str(low, Dim) << " upp " << str(upp, Dim));
    }
    if (r != 0) {
        const I *lo = r < 0 ? a : b, *hi = r < 0 ? b : a;
        REQUIRE(refCmp(lo, mid, Dim) < 0 && refCmp(mid, hi, Dim) <= 0, "mid " << str(mid, Dim) << " does not separate " << str(lo, Dim) << " and " << str(hi, Dim));
    }
}
template <class I, int Dim>
static void genPair(pbt::Ctx& c) {
    I a[Dim], b[Dim];
    const int B = sizeof(I) * 8;
    int differ = 0;
    int mode = (int)c.w({4, 3, 3, 2});
    for (int d = 0; d < Dim; ++d) {
        a[d] = (I)c.bits(B);
        switch (mode) {
            case 0:  // flip a low part
                b[d] = (I)(a[d] ^ (I)c.bits((unsigned)c.u(B + 1) == 0 ? 1 : 1 + (unsigned)c.u(B)));
                break;
            case 1: b[d] = (I)c.bits(B); break;
            case 2: b[d] = c.b() ? a[d] : (I)((U<I>)a[d] ^ ((U<I>)1 << c.u(B))); break;
            default: b[d] = (I)((U<I>)a[d] + (U<I>)c.i(-3, 3)); break;
        }
        differ += a[d] != b[d];
    }
    c.nontrivial(differ >= (Dim > 1 ? 2 : 1));
    NOTE(B << "-bit " << (std::is_signed<I>::value ? "signed " : "unsigned ") << str(a, Dim) << " " << str(b, Dim));
    checkPair<I, Dim>(c, a, b);
    for (int d = 0; d < Dim; ++d) checkBlock<I>(c, a[d], b[d]);
}
template <class I>
static void genDim(pbt::Ctx& c) {
    switch (c.u(6)) {
        case 0: genPair<I, 2>(c); break;
        case 1: genPair<I, 3>(c); break;
        case 2: genPair<I, 1>(c); break;
        case 3: genPair<I, 6>(c); break;
        case 4: genPair<I, 9>(c); break;
        default: genPair<I, 4>(c); break;
    }
}
FACET(pairs, 400000, 12000000) {
    switch (c.w({2, 1, 1, 1, 4, 2, 3, 2})) {
        case 0: genDim<int8_t>(c); break;
        case 1: genDim<uint8_t>(c); break;
        case 2: genDim<int16_t>(c); break;
        case 3: genDim<uint16_t>(c); break;
        case 4: genDim<int32_t>(c); break;
        case 5: genDim<uint32_t>(c); break;
        case 6: genDim<int64_t>(c); break;
        default: genDim<uint64_t>(c); break;
    }
}
FACET(all8bitScalars, 256, 256) {
    int i = (int)c.index(256);
    NOTE("all pairs with first byte " << i);
    for (int j = 0; j < 256; ++j) {
        int8_t a = (int8_t)i, b = (int8_t)j;
        uint8_t ua = (uint8_t)i, ub = (uint8_t)j;
        checkPair<int8_t, 1>(c, &a, &b);
        checkPair<uint8_t, 1>(c, &ua, &ub);
        checkBlock<int8_t>(c, a, b);
        checkBlock<uint8_t>(c, ua, ub);
    }
    c.nontrivial();
}
FACET(allSmall2d, 289, 4225) {
    int n = c.thorough ? 32 : 8, w = 2 * n + 1;
    int idx = (int)c.index((uint64_t)w * w);
    int32_t a[2] = {idx % w - n, idx / w - n};
    NOTE("all pairs with first point " << str(a, 2));
    for (int y = -n; y <= n; ++y)
        for (int x = -n; x <= n; ++x) {
            int32_t b[2] = {x, y};
            checkPair<int32_t, 2>(c, a, b);
        }
    c.nontrivial();
}
