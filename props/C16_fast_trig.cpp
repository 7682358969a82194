//@ fuzz: 300000
// C16: fast trigonometric approximations and angle normalisation.
#include "pbt.h"
#include <rofl/common/functions.h>
#include <algorithm>
#include <cmath>
#include <limits>

PBT_PROPERTY("C16",
             "angles (uniform, near multiples of pi/4, many turns, tiny), arguments of atan in [-1,1] and points of the plane (all quadrants, "
             "axes, diagonals, extreme ratios and magnitudes) compared with libm in extended precision within the accuracy of the "
             "approximation. Non-trivial: an angle beyond one turn or a point off the axes.")

static const long double PI = 3.14159265358979323846264338327950288L;

static double genAngle(pbt::Ctx& c, double turns) {
    switch (c.w({3, 3, 2, 1, 1, 1})) {
        case 5: return (double)c.i(-1000000, 1000000) * std::ldexp(1.0, (int)c.i(0, 16));  // very many turns
        case 0: return (double)c.i(-1000000, 1000000) / 1000000 * 2 * M_PI;
        case 1: return (double)c.i(-16, 16) * M_PI_4 + std::ldexp((double)c.i(-8, 8), -(int)c.u(55));
        case 2: return (double)c.i(-1000000, 1000000) / 1000000 * 2 * M_PI * turns;
        case 3: return std::ldexp((double)c.i(-1000, 1000), -(int)c.u(80));
        default: {
            double a = (double)c.i(-100, 100) * 2 * M_PI;
            return c.b() ? a : std::nextafter(a, c.b() ? 1e9 : -1e9);
        }
    }
}
FACET(cosSin, 600000, 20000000) {
    double x = genAngle(c, 1000), co = 9, si = 9;
    NOTE("x = " << x);
    rofl::fastCosSin(x, co, si);
    double tol = 1.2e-3 + 2e-15 * std::fabs(x);
    REQUIRE(std::fabs(co - (double)cosl(x)) <= tol, "fastCosSin(" << x << ") cosine " << co << " expected " << (double)cosl(x));
    REQUIRE(std::fabs(si - (double)sinl(x)) <= tol, "fastCosSin(" << x << ") sine " << si << " expected " << (double)sinl(x));
    float xf = (float)x, cf = 9, sf = 9;
    rofl::fastCosSinf(xf, cf, sf);
    double tf = 1.3e-3 + 1e-6 * std::fabs(xf);
    REQUIRE(std::fabs(cf - (double)cosl(xf)) <= tf, "fastCosSinf(" << xf << ") cosine " << cf << " expected " << (double)cosl(xf));
    REQUIRE(std::fabs(sf - (double)sinl(xf)) <= tf, "fastCosSinf(" << xf << ") sine " << sf << " expected " << (double)sinl(xf));
    c.nontrivial(std::fabs(x) > 2 * M_PI);
}
FACET(atan, 400000, 10000000) {
    double x;
    switch (c.w({4, 2, 1})) {
        case 0: x = (double)c.i(-10000000, 10000000) / 10000000; break;
        case 1: x = std::ldexp((double)c.i(-1024, 1024), -10 - (int)c.small(60)); break;
        default: x = c.b() ? 1 : -1; break;
    }
    NOTE("x = " << x);
    double t = rofl::fastAtan(x);
    REQUIRE(std::fabs(t - (double)atanl(x)) <= 1.3e-5, "fastAtan(" << x << ") = " << t << " expected " << (double)atanl(x));
    REQUIRE(std::fabs(rofl::fastAtan(-x) + t) <= 1e-12, "fastAtan is odd at " << x);
    float xf = (float)x, tf = rofl::fastAtanf(xf);
    REQUIRE(std::fabs(tf - (double)atanl(xf)) <= 1.4e-5, "fastAtanf(" << xf << ") = " << tf << " expected " << (double)atanl(xf));
    c.nontrivial(x != 0 && std::fabs(x) < 1);
}
FACET(atan2, 600000, 20000000) {
    double x, y;
    switch (c.w({3, 2, 2, 3})) {
        case 0:
            x = (double)c.i(-5, 5);
            y = (double)c.i(-5, 5);
            break;
        case 1: {
            double a = (double)c.i(-1000000, 1000000) / 1000000 * M_PI, r = std::ldexp(1.0, c.b(1, 4) ? (int)c.i(-1000, 1000) : (int)c.i(-100, 100));
            x = r * std::cos(a);
            y = r * std::sin(a);
            break;
        }
        case 2:
            {
                int top = c.b(1, 3) ? 1000 : 120, ex = (int)c.i(-top, top), ey = c.b() ? ex + (int)c.i(-3, 3) : (int)c.i(-top, top);
                x = std::ldexp((double)c.i(-3, 3), ex);
                y = std::ldexp((double)c.i(-3, 3), ey);
            }
            break;
        default:  // near the axes and the diagonals
            x = (double)c.i(-1, 1) + std::ldexp((double)c.i(-3, 3), -(int)c.u(60));
            y = (double)c.i(-1, 1) + std::ldexp((double)c.i(-3, 3), -(int)c.u(60));
            break;
    }
    if (x == 0) x = 0.0;  // positive zeros
    if (y == 0) y = 0.0;
    if (x == 0 && y == 0) x = 1;
    NOTE("(x,y) = (" << x << "," << y << ")");
    double t = rofl::fastAtan2(x, y), e = (double)atan2l(y, x);
    REQUIRE(std::fabs(t - e) <= 1.3e-5, "fastAtan2(x=" << x << ",y=" << y << ") = " << t << " expected " << e);
    float xf = (float)x, yf = (float)y;
    if ((xf != 0 || yf != 0) && std::isfinite(xf) && std::isfinite(yf)) {
        float tf = rofl::fastAtan2f(xf, yf);
        double ef = (double)atan2l(yf, xf);
        REQUIRE(std::fabs(tf - ef) <= 1.5e-5, "fastAtan2f(x=" << xf << ",y=" << yf << ") = " << tf << " expected " << ef);
    }
    c.nontrivial(x != 0 && y != 0);
    c.label(std::string(x < 0 ? "x-" : "x+") + (y < 0 ? "y-" : "y+"));
}
static void congruent(pbt::Ctx& c, const char* f, double x, double r, long double period) {
    double tol = 1e-9 + 2e-13 * std::fabs(x);
    REQUIRE(r >= -tol && r <= (double)period + tol, f << "(" << x << ") = " << r << " is outside the interval");
    long double q = ((long double)x - r) / period, n = roundl(q);
    REQUIRE(fabsl(q - n) * period <= tol, f << "(" << x << ") = " << r << " differs by " << (double)((x - r) / period) << " periods");
}
FACET(normalize, 500000, 10000000) {
    double x = genAngle(c, 1000);
    NOTE("x = " << x);
    congruent(c, "normalize360", x, rofl::normalize360(x), 2 * PI);
    congruent(c, "normalize180", x, rofl::normalize180(x), PI);
    c.nontrivial(x < 0 || x >= M_PI);
}
