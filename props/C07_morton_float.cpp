//@ quickscale: 20
//@ fuzz: 400000
// C07: Morton order, distance and split of floating point vectors.
#include "pbt.h"
#include <rofl/common/morton_sort.h>
#include <array>
#include <cfloat>
#include <limits>
#include <type_traits>

PBT_PROPERTY("C07",
             "finite float/double vectors (dimension 1 to 4 and 6) with shared prefixes, exponent gaps up to the whole range, powers of two and "
             "their neighbours, signed zeros and subnormals. Oracles: comparison of the interleaved two's complement fixed-point expansions "
             "computed bit by bit with exact arithmetic, the integer Morton order on integer-valued coordinates, the axioms of a strict weak "
             "order on triples, exact power-of-two scaling, containment for split. Non-trivial: at least two coordinates differ.")

// bit at position p of the infinite two's complement expansion of v
template <class F>
static int bitAt(F v, int p) {
    if (v == 0) return 0;
    int e = std::ilogb(v);
    const int M = std::numeric_limits<F>::digits;
    if (e - M + 1 > p) return 0;  // v is a multiple of 2^(p+1)
    if (p > e + 1) return v < 0;
    long double x = std::floor(std::ldexp((long double)v, -p));  // exact: the value fits in 64 bits
    long double h = std::floor(x / 2);
    return (int)(x - 2 * h);
}
// highest position where the expansions differ; INT_MAX if the signs differ, INT_MIN if equal
template <class F>
static int topDiff(F a, F b) {
    if (a == b) return INT32_MIN;
    if ((a < 0) != (b < 0)) return INT32_MAX;
    F m = std::max(std::fabs(a), std::fabs(b));
    for (int p = std::ilogb(m) + 1;; --p)
        if (bitAt(a, p) != bitAt(b, p)) return p;
}
template <class F>
static int refCmp(const F* a, const F* b, int dim) {
    int best = INT32_MIN, bd = 0;
    for (int d = 0; d < dim; ++d) {
        int t = topDiff(a[d], b[d]);
        if (t > best) {
            best = t;
            bd = d;
        }
    }
    if (best == INT32_MIN) return 0;
    return a[bd] < b[bd] ? -1 : 1;
}
template <class F>
static std::string str(const F* v, int dim) {
    std::ostringstream os;
    os.precision(std::is_same<F, float>::value ? 9 : 17);
    os << "(";
    for (int d = 0; d < dim; ++d) os << (d ? "," : "") << v[d] << std::hexfloat << "=" << v[d] << std::defaultfloat;
    return os.str() + ")";
}
template <class F>
static bool plain(F v) { return v == 0 || std::isnormal(v); }

template <class F>
static F genOne(pbt::Ctx& c, bool subnormals) {
    const int M = std::numeric_limits<F>::digits;
    const int E = std::numeric_limits<F>::max_exponent;
    F v;
    switch (c.w({3, 2, 3, 3, 2})) {
        case 0: v = (F)c.i(-9, 9); break;
        case 1: v = (F)c.ismall(-100000, 100000) / 16; break;
        case 2: {  // power of two or a neighbour
            v = std::ldexp((F)1, (int)c.ismall(-30, 30));
            int k = (int)c.i(-2, 2);
            for (; k > 0; --k) v = std::nextafter(v, (F)INFINITY);
            for (; k < 0; ++k) v = std::nextafter(v, (F)0);
            if (c.b()) v = -v;
            break;
        }
        case 3: {
            int e = (int)c.ismall(-(E - 3), E - 2);
            uint64_t m = c.bits(M - 1);
            v = std::ldexp((F)((uint64_t)1 << (M - 1) | m), e - (M - 1));
            if (c.b()) v = -v;
            break;
        }
        default:
            v = c.b() ? (F)0 : (F)-0.0;
            if (subnormals && c.b()) v = (F)c.i(-50, 50) * std::numeric_limits<F>::denorm_min();
            if (c.b(1, 5)) v = c.b() ? std::numeric_limits<F>::max() : std::numeric_limits<F>::lowest();
            break;
    }
    if (!subnormals && !plain(v)) v = 0;
    return v;
}
// a value close to w in some sense
template <class F>
static F genNear(pbt::Ctx& c, F w, bool subnormals) {
    F v;
    switch (c.w({3, 3, 2, 2})) {
        case 0: v = genOne<F>(c, subnormals); break;
        case 1: v = w; break;
        case 2: v = std::nextafter(w, c.b() ? (F)FLT_MAX : -(F)FLT_MAX); break;
        default: v = w + std::ldexp((F)c.i(-3, 3), std::ilogb(w == 0 ? (F)1 : w) - (int)c.u(std::numeric_limits<F>::digits + 3)); break;
    }
    if (!std::isfinite(v)) v = w;
    if (!subnormals && !plain(v)) v = 0;
    return v;
}

template <class F, int Dim>
static void checkPair(pbt::Ctx& c, const F* a, const F* b) {
    using T = rofl::MortonTraits<F, Dim>;
    int r = refCmp(a, b, Dim);
    REQUIRE(T::compare(a, b) == (r < 0), "compare " << str(a, Dim) << " " << str(b, Dim) << " expected order " << r);
    REQUIRE(T::compare(b, a) == (r > 0), "compare " << str(b, Dim) << " " << str(a, Dim) << " expected order " << -r);
    int top = INT32_MIN;
    for (int d = 0; d < Dim; ++d) top = std::max(top, topDiff(a[d], b[d]));
    int bias = std::numeric_limits<F>::max_exponent - 1;
    int e = top == INT32_MAX ? bias + 1 : std::max(top, -bias);
    REQUIRE(T::distance(a, b) == e, "distance " << str(a, Dim) << " " << str(b, Dim) << " = " << T::distance(a, b) << " expected " << e);
    REQUIRE(T::distance(b, a) == e, "distance is not symmetric");
}
template <class F, int Dim>
static void checkSplit(pbt::Ctx& c, const F* a, const F* b) {
    using T = rofl::MortonTraits<F, Dim>;
    F low[Dim], mid[Dim], upp[Dim];
    T::split(a, b, low, mid, upp);
    bool anyDiff = false, separated = false;
    for (int d = 0; d < Dim; ++d) {
        REQUIRE(low[d] <= a[d] && a[d] <= upp[d] && low[d] <= b[d] && b[d] <= upp[d],
                "split of " << str(a, Dim) << " " << str(b, Dim) << " has low " << str(low, Dim) << " upp " << str(upp, Dim));
        REQUIRE(low[d] <= mid[d] && mid[d] <= upp[d], "split mid " << str(mid, Dim) << " outside " << str(low, Dim) << " " << str(upp, Dim));
        if (a[d] != b[d]) {
            anyDiff = true;
            F lo = std::min(a[d], b[d]), hi = std::max(a[d], b[d]);
            if (lo <= mid[d] && mid[d] <= hi) separated = true;
        }
    }
    if (anyDiff) REQUIRE(separated, "split mid " << str(mid, Dim) << " separates no coordinate of " << str(a, Dim) << " " << str(b, Dim));
    // unless a coordinate is negative in both, mid is the first value of the upper half: it separates in Morton order
    bool ordered = true;
    for (int d = 0; d < Dim; ++d) ordered = ordered && plain(a[d]) && plain(b[d]) && !(a[d] < 0 && b[d] < 0);
    if (ordered && anyDiff) {
        const F* lo = refCmp(a, b, Dim) < 0 ? a : b;
        const F* hi = lo == a ? b : a;
        REQUIRE(refCmp(lo, (const F*)mid, Dim) < 0 && refCmp((const F*)mid, hi, Dim) <= 0,
                "split mid " << str(mid, Dim) << " does not separate in Morton order " << str(lo, Dim) << " and " << str(hi, Dim));
    }
}
template <class F, int Dim>
static void pairCase(pbt::Ctx& c) {
    F a[Dim], b[Dim];
    int differ = 0;
    for (int d = 0; d < Dim; ++d) {
        a[d] = genOne<F>(c, false);
        b[d] = genNear<F>(c, a[d], false);
        differ += a[d] != b[d];
    }
    NOTE(sizeof(F) * 8 << "-bit " << str(a, Dim) << " " << str(b, Dim));
    if (c.b(1, 3))  // all pairs of the same sign made positive
        for (int d = 0; d < Dim; ++d)
            if (a[d] < 0 && b[d] < 0) a[d] = -a[d], b[d] = -b[d];
    c.nontrivial(differ >= (Dim > 1 ? 2 : 1));
    checkPair<F, Dim>(c, a, b);
    checkSplit<F, Dim>(c, a, b);
}
FACET(pairs, 80000, 3000000) {
    switch (c.u(8)) {
        case 5: pairCase<double, 4>(c); break;
        case 6: pairCase<float, 6>(c); break;
        case 7: pairCase<double, 1>(c); break;
        case 0: pairCase<float, 2>(c); break;
        case 1: pairCase<double, 2>(c); break;
        case 2: pairCase<float, 3>(c); break;
        case 3: pairCase<double, 3>(c); break;
        default: pairCase<float, 1>(c); break;
    }
}
// the axioms of a strict weak order, subnormals and signed zeros included
template <class F, int Dim>
static void triple(pbt::Ctx& c) {
    using T = rofl::MortonTraits<F, Dim>;
    const int N = 4;
    F v[N][Dim];
    for (int k = 0; k < N; ++k)
        for (int d = 0; d < Dim; ++d) v[k][d] = k == 0 ? genOne<F>(c, true) : genNear<F>(c, v[c.u(k)][d], true);
    bool lt[N][N];
    for (int i = 0; i < N; ++i) {
        NOTE(str(v[i], Dim));
        for (int j = 0; j < N; ++j) lt[i][j] = T::compare(v[i], v[j]);
    }
    for (int i = 0; i < N; ++i) {
        REQUIRE(!lt[i][i], "irreflexive " << str(v[i], Dim));
        for (int j = 0; j < N; ++j) {
            REQUIRE(!(lt[i][j] && lt[j][i]), "asymmetric " << str(v[i], Dim) << " " << str(v[j], Dim));
            bool same = true;
            for (int d = 0; d < Dim; ++d) same = same && v[i][d] == v[j][d];
            REQUIRE(same == (!lt[i][j] && !lt[j][i]), "equivalent exactly when equal: " << str(v[i], Dim) << " " << str(v[j], Dim));
            if (!same) c.nontrivial();
            for (int k = 0; k < N; ++k)
                if (lt[i][j] && lt[j][k]) REQUIRE(lt[i][k], "transitive " << str(v[i], Dim) << " < " << str(v[j], Dim) << " < " << str(v[k], Dim));
        }
        checkSplit<F, Dim>(c, v[i], v[(i + 1) % N]);
    }
}
FACET(orderAxioms, 80000, 3000000) {
    switch (c.u(6)) {
        case 4: triple<float, 4>(c); break;
        case 5: triple<double, 1>(c); break;
        case 0: triple<float, 2>(c); break;
        case 1: triple<double, 2>(c); break;
        case 2: triple<float, 3>(c); break;
        default: triple<double, 3>(c); break;
    }
}
// integer-valued coordinates sort as integers
FACET(agreesWithIntegers, 60000, 2000000) {
    int32_t a[3], b[3];
    float fa[3], fb[3], ga[3], gb[3];
    double da[3], db[3];
    int64_t n = c.b() ? 12 : (1 << 24);
    int k = (int)c.i(-60, 60);
    int differ = 0;
    for (int d = 0; d < 3; ++d) {
        a[d] = (int32_t)c.i(-n, n);
        b[d] = c.b(1, 4) ? a[d] : c.b() ? (int32_t)std::max<int64_t>(-n, std::min<int64_t>(n, a[d] + c.i(-4, 4))) : (int32_t)c.i(-n, n);
        fa[d] = (float)a[d];
        fb[d] = (float)b[d];
        da[d] = a[d];
        db[d] = b[d];
        ga[d] = std::ldexp(fa[d], k);
        gb[d] = std::ldexp(fb[d], k);
        differ += a[d] != b[d];
    }
    NOTE("integers (" << a[0] << "," << a[1] << "," << a[2] << ") (" << b[0] << "," << b[1] << "," << b[2] << ") scale 2^" << k);
    c.nontrivial(differ >= 2);
    bool e2 = rofl::MortonTraits<int, 2>::compare(a, b), e3 = rofl::MortonTraits<int, 3>::compare(a, b);
    bool f2 = rofl::MortonTraits<float, 2>::compare(fa, fb), f3 = rofl::MortonTraits<float, 3>::compare(fa, fb);
    bool d2 = rofl::MortonTraits<double, 2>::compare(da, db), d3 = rofl::MortonTraits<double, 3>::compare(da, db);
    bool g2 = rofl::MortonTraits<float, 2>::compare(ga, gb), g3 = rofl::MortonTraits<float, 3>::compare(ga, gb);
    REQUIRE(f2 == e2 && d2 == e2, "2-d order of integers as int " << e2 << " float " << f2 << " double " << d2);
    REQUIRE(f3 == e3 && d3 == e3, "3-d order of integers as int " << e3 << " float " << f3 << " double " << d3);
    REQUIRE(g2 == f2 && g3 == f3, "scaling by 2^" << k << " changes the order");
}
