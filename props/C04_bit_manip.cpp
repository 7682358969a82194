//@ quickscale: 12
//@ fuzz: 400000
// C04: leading zeros, base-2 logarithms and power-of-two rounding for every integer type.
#include "pbt.h"
#include <rofl/common/numeric_traits.h>
#include <limits>
#include <type_traits>

PBT_PROPERTY("C04",
             "every 8- and 16-bit value of both signednesses is enumerated; 32-bit values are enumerated in chunks of 65536 (all of them "
             "in the thorough tier); 64-bit values are drawn with random bit widths around powers of two. Oracle: shift-and-count "
             "reference on 128-bit integers. A case is non-trivial when it has a value with two or more bits set.")

template <class T>
using Wide = __int128;

static int bitLen(unsigned __int128 v) {
    int n = 0;
    while (v) {
        ++n;
        v >>= 1;
    }
    return n;
}
template <class T>
static std::string str(T v) { return std::to_string((long long)v) + (std::is_unsigned<T>::value ? "u" : ""); }

template <class T>
static void checkOne(pbt::Ctx& c, T x) {
    using U = typename std::make_unsigned<T>::type;
    const int B = sizeof(T) * 8;
    U ux = (U)x;
    int lz = B - bitLen(ux);
    REQUIRE((int)rofl::nlz<T>(x) == lz, "nlz(" << str(x) << ") on " << B << " bits = " << (int)rofl::nlz<T>(x) << " expected " << lz);
    bool minVal = std::is_signed<T>::value && x == std::numeric_limits<T>::min();
    if (minVal && B >= 32) return;  // |x| is not representable
    __int128 wx = x;
    unsigned __int128 mag = wx < 0 ? (unsigned __int128)(-wx) : (unsigned __int128)wx;
    if (x != 0) {
        int l = bitLen(mag) - 1;
        REQUIRE((int)rofl::log2Mod<T>(x) == l, "log2Mod(" << str(x) << ") on " << B << " bits = " << (int)rofl::log2Mod<T>(x) << " expected " << l);
    }
    // largest (signed) power of two <= x, smallest one >= x
    __int128 fl = 0, ce = 0;
    if (x != 0) {
        unsigned __int128 low = (unsigned __int128)1 << (bitLen(mag) - 1);
        unsigned __int128 high = low == mag ? low : low << 1;
        fl = wx > 0 ? (__int128)low : -(__int128)high;
        ce = wx > 0 ? (__int128)high : -(__int128)low;
    }
    auto repr = [&](__int128 v) { return v >= (__int128)std::numeric_limits<T>::min() && v <= (__int128)std::numeric_limits<T>::max(); };
    if (repr(fl)) REQUIRE((__int128)rofl::floorPow2<T>(x) == fl, "floorPow2(" << str(x) << ") on " << B << " bits = " << str(rofl::floorPow2<T>(x)) << " expected " << (long long)fl);
    if (repr(ce)) REQUIRE((__int128)rofl::ceilPow2<T>(x) == ce, "ceilPow2(" << str(x) << ") on " << B << " bits = " << str(rofl::ceilPow2<T>(x)) << " expected " << (long long)ce);
    c.nontrivial(bitLen(mag & (mag - 1)) > 0);
}
template <class U>
static void checkRaw(pbt::Ctx& c, U x);
static int rawNlz(uint8_t x) { return rofl::nlz8(x); }
static int rawNlz(uint16_t x) { return rofl::nlz16(x); }
static int rawNlz(uint32_t x) { return rofl::nlz32(x); }
static int rawNlz(uint64_t x) { return (int)rofl::nlz64(x); }
static uint8_t rawF(uint8_t x) { return rofl::flp2u8(x); }
static uint16_t rawF(uint16_t x) { return rofl::flp2u16(x); }
static uint32_t rawF(uint32_t x) { return rofl::flp2u32(x); }
static uint64_t rawF(uint64_t x) { return rofl::flp2u64(x); }
static uint8_t rawC(uint8_t x) { return rofl::clp2u8(x); }
static uint16_t rawC(uint16_t x) { return rofl::clp2u16(x); }
static uint32_t rawC(uint32_t x) { return rofl::clp2u32(x); }
static uint64_t rawC(uint64_t x) { return rofl::clp2u64(x); }
template <class U>
static void checkRaw(pbt::Ctx& c, U x) {
    const int B = sizeof(U) * 8;
    int bl = bitLen(x);
    REQUIRE(rawNlz(x) == B - bl, "nlz" << B << "(" << str(x) << ") = " << rawNlz(x));
    U fl = x == 0 ? 0 : (U)((U)1 << (bl - 1));
    REQUIRE(rawF(x) == fl, "flp2u" << B << "(" << str(x) << ") = " << str(rawF(x)) << " expected " << str(fl));
    if (x == fl)
        REQUIRE(rawC(x) == x, "clp2u" << B << "(" << str(x) << ") = " << str(rawC(x)));
    else if (bl < B)
        REQUIRE(rawC(x) == (U)((U)1 << bl), "clp2u" << B << "(" << str(x) << ") = " << str(rawC(x)));
}

FACET(all8, 256, 256) {
    int v = (int)c.index(256);
    NOTE("8-bit pattern " << v);
    checkOne<uint8_t>(c, (uint8_t)v);
    checkOne<int8_t>(c, (int8_t)v);
    checkRaw<uint8_t>(c, (uint8_t)v);
}
FACET(all16, 4096, 4096) {
    uint32_t b = (uint32_t)c.index(4096) * 16;
    NOTE("16-bit patterns " << b << ".." << b + 15);
    for (uint32_t v = b; v < b + 16; ++v) {
        checkOne<uint16_t>(c, (uint16_t)v);
        checkOne<int16_t>(c, (int16_t)v);
        checkRaw<uint16_t>(c, (uint16_t)v);
    }
}
FACET(chunks32, 600, 65536) {
    // a chunk fixes the upper half; quick draws upper halves, thorough enumerates all 65536
    uint32_t hi = c.thorough ? (uint32_t)c.index(65536) : (uint32_t)c.bits(16);
    uint32_t step = c.thorough ? 1 : 7;
    NOTE("32-bit patterns with upper half " << hi << ", step " << step);
    for (uint32_t lo = 0; lo < 65536; lo += step) {
        uint32_t v = (hi << 16) | lo;
        int bl = v ? 32 - __builtin_clz(v) : 0;
        if (rofl::nlz32(v) != 32 - bl || rofl::flp2u32(v) != (v ? 1u << (bl - 1) : 0) || (bl < 32 && rofl::clp2u32(v) != (v & (v - 1) ? 1u << bl : v))) checkRaw<uint32_t>(c, v);
    }
    c.unit(65536 / step);
    for (uint32_t lo = 0; lo < 65536; lo += 257 * step) checkOne<int32_t>(c, (int32_t)((hi << 16) | lo));
    c.nontrivial();
}
FACET(random32, 60000, 2000000) {
    for (int k = 0; k < 8; ++k) {
        uint32_t v = (uint32_t)c.bits(32);
        NOTE("32-bit " << v);
        checkOne<uint32_t>(c, v);
        checkOne<int32_t>(c, (int32_t)v);
        checkRaw<uint32_t>(c, v);
    }
}
FACET(random64, 120000, 6000000) {
    for (int k = 0; k < 8; ++k) {
        uint64_t v = c.bits(64);
        NOTE("64-bit " << v);
        checkOne<uint64_t>(c, v);
        checkOne<int64_t>(c, (int64_t)v);
        checkRaw<uint64_t>(c, v);
    }
}
// every power of two and its neighbours
FACET(aroundPowers, 65, 65) {
    int k = (int)c.index(65);
    uint64_t p = k == 64 ? 0 : 1ull << k;
    NOTE("neighbourhood of 2^" << k);
    for (int d = -20; d <= 20; ++d) {
        uint64_t v = p + d;
        checkOne<uint64_t>(c, v);
        checkOne<int64_t>(c, (int64_t)v);
        checkOne<int64_t>(c, -(int64_t)v);
        checkOne<uint32_t>(c, (uint32_t)v);
        checkOne<int32_t>(c, (int32_t)v);
        checkOne<int32_t>(c, (int32_t)(0u - (uint32_t)v));
        checkRaw<uint64_t>(c, v);
        checkRaw<uint32_t>(c, (uint32_t)v);
    }
    c.nontrivial();
}
