//@ fuzz: 20000
// C18: PNEBI values and look-up tables.
#include "pbt.h"
#include <rofl/common/functions.h>
#include <algorithm>
#include <cmath>
#include <limits>
#include <sstream>

PBT_PROPERTY("C18",
             "orders 0 to 60 and arguments of either sign from 0 to 1e6 (around 0, 3.75, powers of ten): the values against "
             "2 exp(-x) I_k(x) computed as a trapezoidal integral, and the three term recurrence; look-up tables of random order and "
             "tolerance against the same reference, between their samples and beyond them. Non-trivial: order 2 or more and |x| >= 0.1.")

static double ref(int k, double x) {
    x = std::fabs(x);
    long N = 40 + k + (long)(6 * std::sqrt(x));
    double s = 0;
    for (long i = 0; i < N; ++i) {
        double t = M_PI * (i + 0.5) / N, h = std::sin(t / 2);
        s += std::exp(-2 * x * h * h) * std::cos(k * t);
    }
    return 2 * s / N;
}
static double genX(pbt::Ctx& c, int maxExp) {
    double x;
    switch (c.w({4, 3, 2, 1})) {
        case 0: x = (double)c.u(20000) / 1000; break;
        case 1: x = std::pow(10.0, (double)c.i(-700, 100 * maxExp) / 100); break;
        case 2: x = 3.75 * (1 + std::ldexp((double)c.i(-8, 8), -(int)c.u(54))); break;
        default: x = c.pick(std::vector<double>{0, 1e-6, 9.99e-7, 1.01e-6, 600, 1, 10, 1e-300}); break;
    }
    return c.b(1, 4) ? -x : x;
}
FACET(values, 400000, 1200000) {
    int n = c.b(1, 30) ? (int)c.len(61, 220) : (int)c.len(0, 60);
    double x = genX(c, c.b(1, 20) ? 6 : 4);
    std::vector<double> v(c.u((uint64_t)n + 2), 7.0);  // any size up to n + 1
    NOTE("orders 0.." << n << " at " << x);
    rofl::evaluatePnebiVector(n, x, v);
    REQUIRE(v.size() >= (size_t)n + 1, "vector of size " << v.size() << " for orders up to " << n);
    REQUIRE(std::fabs(rofl::evaluatePnebi0Polynom(x) - ref(0, x)) <= 1e-7, "evaluatePnebi0Polynom(" << x << ") = " << rofl::evaluatePnebi0Polynom(x) << " expected " << ref(0, x));
    std::vector<int> ks{0, n, n / 2, 1, (int)c.u(n + 1), (int)c.u(n + 1)};
    for (int k : ks) {
        if (k > n) continue;
        double e = ref(k, x);
        REQUIRE(std::fabs(v[k] - e) <= 1.5e-7 + (std::fabs(x) < 1e-6 ? 2e-6 : 0), "PNEBI(" << k << "," << x << ") = " << v[k] << " expected " << e << " (up to order " << n << ")");
    }
    double ax = std::fabs(x);
    if (ax >= 1e-5)
        for (int k = 1; k < n; ++k) {
            double l = v[k - 1] - v[k + 1], r = 2.0 * k / ax * v[k];
            REQUIRE(std::fabs(l - r) <= 1e-7 * std::fabs(v[k - 1]) + 1e-290, "recurrence at order " << k << " x " << x << ": " << l << " and " << r);
        }
    for (int k = 0; k < n; ++k) REQUIRE(v[k] >= v[k + 1] && v[k + 1] >= 0, "PNEBI decreases with the order at " << k << " x " << x << ": " << v[k] << " " << v[k + 1]);
    c.nontrivial(n >= 2 && ax >= 0.1);
}
FACET(lut, 8000, 12000) {
    int n = c.b(1, 12) ? 1 + (int)c.u(50) : 1 + (int)c.small(12);
    double tol = std::pow(10.0, -(double)(5 + c.u(26)) / 10);
    rofl::PnebiLUT lut;
    std::vector<double> none{3, 4};
    if (c.b()) {
        if (c.b()) lut.init(1 + (int)c.u(3), 0.2);  // reset by the next init
        lut.init(n, tol);
    } else
        lut = rofl::PnebiLUT(n, tol);
    NOTE("LUT of orders 0.." << n << " tolerance " << tol);
    REQUIRE(lut.getOrderMax() == n, "getOrderMax " << lut.getOrderMax() << " expected " << n);
    auto loop = c.loop(60);
    while (loop.more()) {
        double x = genX(c, 5);
        if (c.b(1, 20)) x = std::pow(10.0, (double)c.i(5, 300));
        NOTE("eval " << x);
        std::vector<double> y(c.u(n + 2), 5.0), y2;
        lut.eval(x, y);
        REQUIRE(y.size() >= (size_t)n + 1, "size " << y.size());
        double dx = std::ldexp(1.0, -(int)c.u(20)) * tol;
        double ax = std::fabs(x);
        lut.eval(ax + dx, y2);
        for (int k = 0; k <= n; ++k) {
            REQUIRE(std::fabs(lut.eval(k, x) - y[k]) <= 1e-13, "eval(" << k << "," << x << ") = " << lut.eval(k, x) << " but the vector has " << y[k]);
            double e = ax > 1e6 ? 0 : ref(k, x);
            REQUIRE(std::fabs(y[k] - e) <= tol + 1e-3 * (ax > 1e6), "LUT value of order " << k << " at " << x << " is " << y[k] << " expected " << e << " within " << tol);
            REQUIRE(std::fabs(y2[k] - y[k]) <= 2.001 * dx + 1e-7, "LUT value of order " << k << " jumps from " << y[k] << " at " << ax << " to " << y2[k] << " at " << ax + dx);
        }
    }
    REQUIRE(std::fabs(lut.eval(0, 0.0) - 2) <= 1e-7 && std::fabs(lut.eval(n, 0.0)) <= 1e-7, "values at 0");
    if (c.b(1, 3)) {
        int rows = 1 + (int)c.small(30), k = (int)c.u(n + 3);
        std::ostringstream os;
        os.precision(17);
        lut.printLUT(os, rows, k);
        std::istringstream is(os.str());
        std::string line;
        long prev = -1;
        double xprev = -1;
        NOTE("print " << rows << " rows up to order " << k);
        while (std::getline(is, line)) {
            std::istringstream ls(line);
            long i;
            double x;
            REQUIRE((bool)(ls >> i >> x), "printed line " << line);
            REQUIRE(prev < 0 ? i == 0 && x == 0 : i >= prev && x >= xprev, "printed sample " << i << " at " << x << " after " << prev << " at " << xprev);
            prev = i, xprev = x;
            double y;
            int j = 0;
            for (; ls >> y; ++j) REQUIRE(j <= n && std::fabs(lut.eval(j, x) - y) <= 1e-12, "printed value " << y << " of order " << j << " at " << x << " but eval gives " << lut.eval(j, x));
            REQUIRE(j == std::min(k, n) + 1, "printed " << j << " orders, expected up to order " << k << " of " << n);
        }
        REQUIRE(prev >= 0 && std::fabs(lut.eval(0, xprev) - lut.eval(0, xprev * 2 + 1)) <= 1e-13, "the last printed sample is not the end of the table");
    }
    c.nontrivial(n >= 2);
}
