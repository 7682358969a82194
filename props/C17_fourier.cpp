//@ fuzz: 200000
// C17: Fourier series values and interval bounds.
#include "pbt.h"
#include <rofl/common/functions.h>
#include <algorithm>
#include <cmath>

PBT_PROPERTY("C17",
             "random Fourier coefficients and intervals (points, tiny, around extremes and multiples of the period, up to and beyond a "
             "period, negative and many turns, given in either order): the value against a direct sum in extended precision, the cosine "
             "bounds against the exact range, the series bounds against the sum of the exact ranges of its harmonics and against sampled "
             "values of the series. Non-trivial: an interval of positive length, for series two or more harmonics.")

static const long double PI = 3.14159265358979323846264338327950288L;

// exact range of cosine on [a,b]
static void range(long double a, long double b, long double& lo, long double& hi) {
    if (a > b) std::swap(a, b);
    long double ca = cosl(a), cb = cosl(b);
    lo = std::min(ca, cb);
    hi = std::max(ca, cb);
    if (floorl(b / (2 * PI)) >= ceill(a / (2 * PI))) hi = 1;
    if (floorl((b - PI) / (2 * PI)) >= ceill((a - PI) / (2 * PI))) lo = -1;
}
static double genPoint(pbt::Ctx& c) {
    switch (c.w({3, 3, 2, 1})) {
        case 3: return (double)c.i(-1000000, 1000000) / 16;
        case 0: return (double)c.i(-16, 16) * M_PI_4;
        case 1: return (double)c.i(-100000, 100000) / 10000;
        default: return (double)c.i(-8, 8) * M_PI_2 + std::ldexp((double)c.i(-8, 8), -(int)c.u(54));
    }
}
static void genInterval(pbt::Ctx& c, double& a, double& b) {
    a = genPoint(c);
    switch (c.w({3, 3, 2, 2, 1})) {
        case 0: b = genPoint(c); break;
        case 1: b = a + (double)c.i(0, 16) * M_PI_4; break;
        case 2: {  // around a whole period
            b = a + 2 * M_PI;
            int k = (int)c.i(-3, 3);
            for (; k > 0; --k) b = std::nextafter(b, 1e9);
            for (; k < 0; ++k) b = std::nextafter(b, -1e9);
            break;
        }
        case 3: b = a + std::ldexp((double)c.i(0, 100), -(int)c.u(54)); break;
        default: b = a; break;
    }
    if (c.b(1, 6)) std::swap(a, b);
}
FACET(cosBounds, 600000, 20000000) {
    double a, b, lo = 9, hi = 9;
    genInterval(c, a, b);
    std::ostringstream os;
    os.precision(17);
    os << "[" << a << "," << b << "]";
    NOTE(os.str());
    rofl::findLUCos(a, b, lo, hi);
    long double elo, ehi;
    range(a, b, elo, ehi);
    // shorter than a period by less than the rounding of the ends: whether it is a whole period is not decidable in double
    double len = std::fabs(b - a), slack = 4e-16 * (std::fabs(a) + std::fabs(b) + 7);
    if (len < 2 * M_PI && len > 2 * M_PI - slack) return;
    REQUIRE(fabsl(lo - elo) <= 1e-9L && fabsl(hi - ehi) <= 1e-9L, "cosine on " << os.str() << " bounded by [" << lo << "," << hi << "] expected [" << (double)elo << "," << (double)ehi << "]");
    c.nontrivial(a != b);
    c.label(elo == -1 && ehi == 1 ? "both extremes" : elo == -1 || ehi == 1 ? "one extreme" : "no extreme");
}
static std::vector<double> genCoeffs(pbt::Ctx& c, size_t minHarm, size_t maxHarm) {
    std::vector<double> v;
    size_t n = c.len(minHarm, c.b(1, 12) ? (c.b(1, 8) ? 700 : 160) : maxHarm);
    double unit = c.b(1, 4) ? std::ldexp(1.0, (int)c.i(-60, 60)) : 1;  // all small or all large
    bool mixed = c.b(1, 10);
    for (size_t k = 0; k < 2 * n; ++k) v.push_back(c.b(1, 5) ? 0.0 : (double)c.i(-1000, 1000) / 100 * unit * (mixed ? std::ldexp(1.0, -(int)c.u(20)) : 1));
    return v;
}
FACET(value, 300000, 6000000) {
    auto v = genCoeffs(c, 0, 12);
    double t = genPoint(c);
    NOTE("coefficients " << pbt::show(v) << " at " << t);
    long double e = 0, scale = 1e-30L;
    for (size_t k = 0; 2 * k < v.size(); ++k) {
        e += v[2 * k] * cosl((long double)k * t) + v[2 * k + 1] * sinl((long double)k * t);
        scale += fabsl(v[2 * k]) + fabsl(v[2 * k + 1]);
    }
    double got = rofl::evaluateFourier(v, t);
    REQUIRE(fabsl(got - e) <= 1e-11L * scale, "series at " << t << " = " << got << " expected " << (double)e);
    c.nontrivial(v.size() >= 4 && t != 0);
}
FACET(seriesBounds, 150000, 4000000) {
    auto v = genCoeffs(c, 1, 8);
    double a, b, lo = 0, hi = 0;
    genInterval(c, a, b);
    if (c.b()) {
        a /= 4;
        b /= 4;
    }
    NOTE("coefficients " << pbt::show(v) << " on [" << a << "," << b << "]");
    // a harmonic whose period is the interval up to rounding: see cosBounds
    for (size_t k = 1; 2 * k < v.size(); ++k)
        if (std::fabs(2.0 * k * std::fabs(b - a) - 2 * M_PI) < 1e-15 * (2.0 * k * (std::fabs(a) + std::fabs(b)) + 14)) return;
    rofl::findLUFourier(v, a, b, lo, hi);
    long double elo = v[0], ehi = v[0], scale = 1e-30L + fabsl(v[0]);
    for (size_t k = 1; 2 * k < v.size(); ++k) {
        long double amp = hypotl(v[2 * k], v[2 * k + 1]), ph = atan2l(v[2 * k + 1], v[2 * k]), l, h;
        range(2 * k * (long double)a - ph, 2 * k * (long double)b - ph, l, h);
        elo += amp * l;
        ehi += amp * h;
        scale += amp;
    }
    REQUIRE(fabsl(lo - elo) <= 1e-8L * scale && fabsl(hi - ehi) <= 1e-8L * scale, "bounds [" << lo << "," << hi << "] expected [" << (double)elo << "," << (double)ehi << "]");
    for (int s = 0; s <= 8; ++s) {
        double t = a + (b - a) * s / 8;
        long double e = 0;
        for (size_t k = 0; 2 * k < v.size(); ++k) e += v[2 * k] * cosl(2 * (long double)k * t) + v[2 * k + 1] * sinl(2 * (long double)k * t);
        REQUIRE(e >= lo - 1e-8L * scale && e <= hi + 1e-8L * scale, "the series is " << (double)e << " at " << t << ", outside [" << lo << "," << hi << "]");
    }
    c.nontrivial(v.size() >= 6 && a != b);
}
