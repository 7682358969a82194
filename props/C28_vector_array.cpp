//@ quickscale: 20
//@ fuzz: 200000
// C28: VectorArray arithmetic is componentwise.
#include "pbt.h"
#include <limits>
#include <rofl/common/vector_array.h>
#include <cmath>
#include <type_traits>

PBT_PROPERTY("C28",
             "random vectors of dimension 1 to 6 over int, long, float and double, random sequences of operators applied to a VectorArray "
             "and to plain arrays. Non-trivial: dimension at least 2 with different components.")

template <class T, size_t D>
static void run(pbt::Ctx& c) {
    using V = rofl::VectorArray<T, D>;
    using A = std::array<T, D>;
    auto gen = [&](bool nonzero) {
        if (c.b(1, 4)) {
            // values with as many bits as the products allow
            T v = std::is_floating_point<T>::value ? (T)std::ldexp((double)(1 + c.u(1ull << 52)), (int)c.i(-90, 20)) : (T)c.bits(sizeof(T) * 4 - 2);
            if (nonzero && v == 0) v = 1;
            return c.b() ? v : (T)-v;
        }
        int k = (int)c.i(-40, 40);
        if (nonzero && k == 0) k = 1;
        return std::is_floating_point<T>::value ? (T)k / 8 : (T)k;
    };
    auto make = [&](A& a, bool nonzero = false) {
        V v;
        for (size_t d = 0; d < D; ++d) {
            a[d] = gen(nonzero);
            if (c.b()) v[d] = a[d]; else v(d) = a[d];
        }
        return v;
    };
    auto same = [&](const V& v, const A& a, const char* what) {
        auto eq = [](T p, T q) { return p == q || (std::is_floating_point<T>::value && std::fabs((double)p - (double)q) <= 4 * (double)std::numeric_limits<T>::epsilon() * std::fabs((double)q)); };
        for (size_t d = 0; d < D; ++d) REQUIRE(eq(v[d], a[d]) && eq(v(d), a[d]), what << ": component " << d << " is " << v[d] << " expected " << a[d]);
    };
    A ax;
    V x = make(ax);
    bool diff = false;
    size_t steps = 1 + c.small(6);
    for (size_t s = 0; s < steps; ++s) {
        A ay, ar;
        size_t op = c.u(8);
        V y = make(ay, op == 4), r;
        T k = gen(false);
        switch (op) {
            case 0: for (size_t d = 0; d < D; ++d) ar[d] = ax[d] + ay[d]; r = x + y; same(r, ar, "x + y"); break;
            case 1: for (size_t d = 0; d < D; ++d) ar[d] = ax[d] - ay[d]; r = x - y; same(r, ar, "x - y"); break;
            case 2: for (size_t d = 0; d < D; ++d) ar[d] = ax[d] * ay[d]; r = x * y; same(r, ar, "x * y"); break;
            case 3: for (size_t d = 0; d < D; ++d) ar[d] = k * ax[d]; r = x * k; same(r, ar, "x * k"); break;
            case 4: for (size_t d = 0; d < D; ++d) ar[d] = ax[d] / ay[d]; r = x / y; same(r, ar, "x / y"); break;
            case 5: for (size_t d = 0; d < D; ++d) ar[d] = ax[d] + ay[d]; r = x; same(r += y, ar, "result of +="); same(r, ar, "x += y"); break;
            case 6: for (size_t d = 0; d < D; ++d) ar[d] = ax[d] * ay[d]; r = x; same(r *= y, ar, "result of *="); same(r, ar, "x *= y"); break;
            default: for (size_t d = 0; d < D; ++d) ar[d] = ax[d] * k; r = x; same(r *= k, ar, "result of *="); same(r, ar, "x *= k"); break;
        }
        same(x, ax, "left operand"), same(y, ay, "right operand");
        for (size_t d = 1; d < D; ++d) diff = diff || ax[d] != ax[d - 1];
        V cp(x);
        same(cp, ax, "copy");
        // the same vector on both sides
        for (size_t d = 0; d < D; ++d) ar[d] = ax[d] + ax[d];
        same(cp += cp, ar, "x += x");
        same(x + x, ar, "x + x");
        cp = x;
        for (size_t d = 0; d < D; ++d) ar[d] = ax[d] * ax[d];
        same(cp *= cp, ar, "x *= x");
        same(x, ax, "copied vector");
        // a component of the vector as the scalar
        size_t own = c.u(D);
        for (size_t d = 0; d < D; ++d) ar[d] = ax[own] * ax[d];
        cp = x;
        same(cp *= cp[own], ar, "x *= x[d]");
        cp = x;
        same(cp *= cp(own), ar, "x *= x(d)");
        cp = x;
        cp = cp * cp[own];
        same(cp, ar, "x = x * x[d]");
        V fresh;
        same(fresh, A{}, "new vector");
        ar = ax;
        for (size_t d = 0; d < D; ++d) ar[d] = r[d];
        // a new x of moderate size
        bool big = false;
        for (size_t d = 0; d < D; ++d) big = big || !(std::fabs((double)ar[d]) < std::ldexp(1.0, (int)sizeof(T) * 4 - 2));
        if (big || c.b(1, 4)) x = make(ax); else x = r, ax = ar;
    }
    c.nontrivial(D > 1 && diff);
}
template <size_t D>
static void types(pbt::Ctx& c) {
    switch (c.u(4)) {
        case 0: run<int, D>(c); break;
        case 1: run<double, D>(c); break;
        case 2: run<float, D>(c); break;
        default: run<long, D>(c); break;
    }
}
FACET(arithmetic, 200000, 4000000) {
    switch (c.u(8)) {
        case 5: types<5>(c); break;
        case 6: types<7>(c); break;
        case 7: types<12>(c); break;
        case 0: types<1>(c); break;
        case 1: types<2>(c); break;
        case 2: types<3>(c); break;
        case 3: types<4>(c); break;
        default: types<6>(c); break;
    }
}
