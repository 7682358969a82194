//@ quickscale: 12
//@ fuzz: 400000
// C05: mantissa / exponent / sign decomposition of floating point numbers.
#include "pbt.h"
#include <rofl/common/numeric_traits.h>
#include <cstring>
#include <type_traits>

PBT_PROPERTY("C05",
             "floats are drawn by bit pattern (all of them in chunks in the thorough tier), doubles by random patterns biased to exponent "
             "and mantissa extremes, and (mantissa, exponent, sign) triples over their whole range; the decomposition is compared with the "
             "IEEE 754 value formula computed with ldexp, both round trips must be exact, and the layout constants must mask exactly the "
             "fields. Non-trivial: a normal number with a non-zero mantissa field.")

template <class F>
struct Bits;
template <>
struct Bits<float> {
    using U = uint32_t;
    static const int M = 23, E = 8, BIAS = 127;
};
template <>
struct Bits<double> {
    using U = uint64_t;
    static const int M = 52, E = 11, BIAS = 1023;
};
template <class F>
static F fromBits(typename Bits<F>::U u) {
    F f;
    memcpy(&f, &u, sizeof f);
    return f;
}
template <class F>
static typename Bits<F>::U toBits(F f) {
    typename Bits<F>::U u;
    memcpy(&u, &f, sizeof f);
    return u;
}
static void rawGet(const float& f, int32_t& m, int32_t& e, bool& s) { rofl::getMantissaExpSignF(f, m, e, s); }
static void rawGet(const double& f, int64_t& m, int64_t& e, bool& s) { rofl::getMantissaExpSignD(f, m, e, s); }
static float rawSet(int32_t m, int32_t e, bool s) { return rofl::setMantissaExpSignF(m, e, s); }
static double rawSet(int64_t m, int64_t e, bool s) { return rofl::setMantissaExpSignD(m, e, s); }

template <class F>
static void checkValue(pbt::Ctx& c, F f) {
    using T = rofl::FloatTraits<F>;
    using I = typename T::IntegerType;
    using B = Bits<F>;
    auto bits = toBits(f);
    I m, e, m2, e2;
    bool s, s2;
    rawGet(f, m, e, s);
    T::decompose(f, m2, e2, s2);
    REQUIRE(m == m2 && e == e2 && s == s2, "traits and function decompose " << f << " differently");
    REQUIRE(s == std::signbit(f), "sign of " << f);
    REQUIRE(m >= 0 && m < ((I)1 << B::M), "mantissa " << m << " of " << f);
    auto expField = (bits >> B::M) & ((typename B::U(1) << B::E) - 1);
    REQUIRE(T::toInt(f) == bits, "toInt of " << f);
    // layout constants isolate the fields
    REQUIRE((int)T::BIT_NUM == (int)sizeof(F) * 8 && (int)T::MANTISSA_BITS == B::M && (int)T::EXPONENT_BITS == B::E && (int)T::EXPONENT_BIAS == B::BIAS, "layout constants");
    using U = typename B::U;
    REQUIRE(((bits & (U)T::SIGN_MASK) != 0) == std::signbit(f), "SIGN_MASK on " << f);
    REQUIRE(((bits & (U)T::EXPONENT_MASK) >> T::MANTISSA_BITS) == expField, "EXPONENT_MASK on " << f);
    REQUIRE((I)(bits & (U)T::MANTISSA_MASK) == m, "MANTISSA_MASK on " << f);
    REQUIRE(e >= (I)T::EXPONENT_MIN && e <= (I)T::EXPONENT_MAX, "exponent " << e << " of " << f << " outside [" << (I)T::EXPONENT_MIN << "," << (I)T::EXPONENT_MAX << "]");
    if (expField == ((U(1) << B::E) - 1)) {  // infinities and NaN: only the fields
        REQUIRE(e == (I)T::EXPONENT_MAX, "exponent of a non finite value is " << e);
    } else if (expField == 0) {
        REQUIRE(e == (I)T::EXPONENT_MIN, "exponent of a subnormal or zero is " << e);
        REQUIRE(std::ldexp((F)m, 1 - B::BIAS - B::M) == std::fabs(f), "value of the subnormal " << f);
        c.label("zero or subnormal");
    } else {
        F v = std::ldexp((F)((I)m | (I)T::MANTISSA_IMPLICIT_BIT), (int)e - B::M);
        REQUIRE((s ? -v : v) == f, "value formula for " << f << " m=" << m << " e=" << e);
        c.nontrivial(m != 0);
    }
    if (!std::isnan(f)) {
        F g = rawSet(m, e, s), h = T::compose(m, e, s);
        REQUIRE(toBits(g) == bits && toBits(h) == bits, "recomposing " << f << " gives " << g << " / " << h);
    }
}
template <class F>
static F gen(pbt::Ctx& c) {
    using B = Bits<F>;
    using U = typename B::U;
    U emax = (U(1) << B::E) - 1;
    if (c.b(1, 3)) return fromBits<F>((U)c.bits(sizeof(F) * 8));
    U e = 0;
    switch (c.w({3, 2, 2, 2})) {
        case 0: e = B::BIAS + (U)c.i(-40, 40); break;
        case 1: e = (U)c.u(emax + 1); break;
        case 2: e = (U)c.u(3); break;
        default: e = emax - (U)c.u(3); break;
    }
    return fromBits<F>(((U)c.b() << (B::M + B::E)) | (e << B::M) | (U)c.bits(B::M));
}

FACET(floats, 100000, 3000000) {
    for (int k = 0; k < 8; ++k) {
        float f = gen<float>(c);
        NOTE("float " << f << " bits " << toBits(f));
        checkValue(c, f);
    }
}
FACET(doubles, 150000, 6000000) {
    for (int k = 0; k < 8; ++k) {
        double f = gen<double>(c);
        NOTE("double " << f << " bits " << toBits(f));
        checkValue(c, f);
    }
}
FACET(triples, 60000, 2000000) {
    for (int k = 0; k < 4; ++k) {
        int32_t m = (int32_t)c.bits(23), e = (int32_t)c.i(-127, 128), m2, e2;
        bool s = c.b(), s2;
        if (e == 128) m = 0;
        NOTE("float triple " << m << " " << e << " " << s);
        float f = rofl::FloatTraits<float>::compose(m, e, s);
        rofl::FloatTraits<float>::decompose(f, m2, e2, s2);
        REQUIRE(m == m2 && e == e2 && s == s2, "triple " << m << "," << e << "," << s << " -> " << m2 << "," << e2 << "," << s2);
        if (e > -127 && e < 128) REQUIRE(f == (s ? -1 : 1) * std::ldexp((float)(m | (1 << 23)), e - 23), "composed value " << f);
        int64_t M = (int64_t)c.bits(52), E = c.i(-1023, 1024), M2, E2;
        if (E == 1024) M = 0;
        double d = rofl::FloatTraits<double>::compose(M, E, s);
        rofl::FloatTraits<double>::decompose(d, M2, E2, s2);
        REQUIRE(M == M2 && E == E2 && s == s2, "triple " << M << "," << E << "," << s << " -> " << M2 << "," << E2 << "," << s2);
        if (E > -1023 && E < 1024) REQUIRE(d == (s ? -1 : 1) * std::ldexp((double)(M | (1ll << 52)), (int)E - 52), "composed value " << d);
        c.nontrivial(m != 0 && M != 0);
    }
}
FACET(floatChunks, 128, 65536) {
    uint32_t hi = c.thorough ? (uint32_t)c.index(65536) : (uint32_t)c.u(65536);
    NOTE("all floats with upper half " << hi);
    for (uint32_t lo = 0; lo < 65536; ++lo) {
        uint32_t v = (hi << 16) | lo;
        float f = fromBits<float>(v);
        int32_t m, e;
        bool s;
        rofl::getMantissaExpSignF(f, m, e, s);
        bool ok = s == (v >> 31) && e == (int32_t)((v >> 23) & 255) - 127 && m == (int32_t)(v & 0x7fffff) && (std::isnan(f) || toBits(rofl::setMantissaExpSignF(m, e, s)) == v);
        c.unit();
        if (!ok) PFAIL("float pattern " << v << " -> " << m << " " << e << " " << s);
    }
    c.nontrivial();
}
