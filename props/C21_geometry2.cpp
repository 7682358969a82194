//@ quickscale: 12
//@ sources: geometry/src/*.cpp
//@ fuzz: 200000
// C21: planar primitives.
#include "pbt.h"
#include <rofl/geometry/base_geometry2.h>
#include <boost/geometry.hpp>
#include <cmath>

PBT_PROPERTY("C21",
             "random poses and points, angles (many turns, multiples of pi/4, exactly on interval ends) and integer triangles: transforms "
             "against rotation and translation in double precision, normalised angles and interval membership against counter-clockwise "
             "distances in double precision, the orientation against exact integer arithmetic. Non-trivial: rotated pose and nonzero point, "
             "angle outside [0,2pi[, non-degenerate interval or triangle.")

using rofl::Scalar;
static const double PI2 = 2 * M_PI;

static float genAngle(pbt::Ctx& c) {
    switch (c.w({3, 3, 1, 1})) {
        case 3: return (float)std::ldexp((double)c.i(-1000, 1000), -(int)c.u(50));
        case 0: return (float)((double)c.i(-16, 16) * M_PI_4);
        case 1: return (float)((double)c.i(-200000, 200000) / 10000);
        default: return (float)((double)c.i(-100000, 100000) / 1000);
    }
}
FACET(pose, 300000, 5000000) {
    float x = (float)c.i(-10000, 10000) / 64, y = (float)c.i(-10000, 10000) / 64, t = genAngle(c), px = (float)c.i(-10000, 10000) / 64, py = (float)c.i(-10000, 10000) / 64;
    if (c.b(1, 4)) {
        float k = (float)std::ldexp(1.0, (int)c.i(-30, 30));
        x *= k, y *= k, px *= k, py *= k;
    }
    NOTE("pose " << x << " " << y << " " << t << " point " << px << " " << py);
    rofl::Transform2 T;
    T.matrix().setConstant(7);
    if (c.b()) rofl::poseToIsometry2(x, y, t, T); else rofl::poseToIsometry2(rofl::Vector3(x, y, t), T);
    rofl::Vector2 q = T * rofl::Vector2(px, py);
    double ct = std::cos((double)t), st = std::sin((double)t), ex = ct * px - st * py + x, ey = st * px + ct * py + y, tol = 2e-6 * (std::fabs(px) + std::fabs(py) + std::fabs(x) + std::fabs(y)) + 1e-30;
    REQUIRE(std::fabs(q(0) - ex) <= tol && std::fabs(q(1) - ey) <= tol, "the point maps to " << q(0) << " " << q(1) << " expected " << ex << " " << ey);
    REQUIRE(std::fabs(T.linear().determinant() - 1) < 1e-5 && (T.linear() * T.linear().transpose() - Eigen::Matrix2f::Identity()).norm() < 1e-5, "the linear part is not a rotation");
    REQUIRE(T.translation()(0) == x && T.translation()(1) == y, "translation " << T.translation()(0) << " " << T.translation()(1));
    c.nontrivial(t != 0 && (px != 0 || py != 0));
}
static double mod(double a) { return a - PI2 * std::floor(a / PI2); }
static double circ(double a) {  // distance of an angle from 0 on the circle
    double m = mod(a);
    return std::min(m, PI2 - m);
}
FACET(normalize, 300000, 5000000) {
    float a = c.b(1, 10) ? (float)c.i(-10000000, 10000000) / 8 : genAngle(c);  // up to many turns
    double tol = 2e-5 + 3e-7 * std::fabs(a);
    float r = rofl::normalizeAngle2Pi(a);
    NOTE("angle " << a << " normalised " << r);
    REQUIRE(r >= -tol && r <= PI2 + tol, "normalizeAngle2Pi(" << a << ") = " << r << " is outside [0,2pi[");
    REQUIRE(circ((double)a - r) <= tol, "normalizeAngle2Pi(" << a << ") = " << r << " is another angle");
    c.nontrivial(a < 0 || a >= PI2);
}
FACET(intervals, 400000, 8000000) {
    float b = genAngle(c), e = genAngle(c), a;
    if (c.b(1, 5)) e = b + (float)c.i(-1000, 1000) / 10000;  // short, or nearly the whole circle
    if (c.b(1, 12)) e = b;  // nothing but its end
    switch (c.w({4, 1, 1, 1})) {
        case 3: a = (c.b() ? b : e) + (float)c.i(-100, 100) / 10000; break;
        case 0: a = genAngle(c); break;
        case 1: a = b; break;
        default: a = e; break;
    }
    NOTE("angle " << a << " interval " << b << " " << e);
    bool in = rofl::insideAngleInterval(a, b, e), inEq = rofl::insideAngleIntervalEq(a, b, e), in2 = rofl::insideAngleInterval(a, rofl::AngleInterval(b, e));
    REQUIRE(in == in2, "the overloads of insideAngleInterval differ");
    REQUIRE(!in || inEq, "insideAngleIntervalEq is false inside the interval");
    if (a == e) REQUIRE(inEq && !in, "the end of the interval: insideAngleInterval " << in << " insideAngleIntervalEq " << inEq);
    double da = mod((double)a - b), de = mod((double)e - b);
    double tol = 1e-4;
    if (e == b && circ((double)a - b) > tol) REQUIRE(!in && !inEq, "angle " << a << " is inside the empty interval at " << b << ": " << in << " " << inEq);
    if (circ((double)e - b) > tol) {
        if (a == b) REQUIRE(in && inEq, "the beginning of the interval is outside");
        if (circ((double)a - b) > tol && circ((double)a - e) > tol) {
            REQUIRE(in == (da < de) && inEq == (da < de), "angle " << a << " in [" << b << "," << e << "]: " << in << " " << inEq << " expected " << (da < de));
            c.nontrivial();
            c.label(da < de ? "inside" : "outside");
        }
    }
}
FACET(orientation, 300000, 5000000) {
    long n = c.b() ? 4 : 1000, v[6];
    for (long& x : v) x = c.i(-n, n);
    float k = c.b(1, 3) ? (float)std::ldexp(1.0, (int)c.i(-30, 20)) : 1.f;  // exact scaling
    rofl::Vector2 p((float)v[0] * k, (float)v[1] * k), q((float)v[2] * k, (float)v[3] * k), r((float)v[4] * k, (float)v[5] * k);
    NOTE("triangle " << v[0] << "," << v[1] << " " << v[2] << "," << v[3] << " " << v[4] << "," << v[5]);
    long e = (v[2] - v[0]) * (v[5] - v[1]) - (v[3] - v[1]) * (v[4] - v[0]);
    REQUIRE(rofl::ccw(p, q, r) == (float)e * k * k, "ccw = " << rofl::ccw(p, q, r) << " expected " << e << " at unit " << k);
    REQUIRE(rofl::ccw(q, r, p) == (float)e * k * k && rofl::ccw(q, p, r) == -(float)e * k * k, "ccw of permuted points");
    // vectors of the named sizes
    REQUIRE(rofl::Vector2().rows() == 2 && rofl::Vector3().rows() == 3 && rofl::Vector4().rows() == 4 && rofl::Vector5().rows() == 5 && rofl::Vector6().rows() == 6 && rofl::Vector7().rows() == 7, "VectorN does not have N components");
    c.nontrivial(e != 0);
}
// the polygon types take open counter-clockwise outer rings: their area is the signed area of the points as listed
FACET(polygons, 60000, 1000000) {
    size_t n = c.len(3, 12);
    std::vector<std::pair<long, long>> q;
    long lim = c.b() ? 8 : 400;
    for (size_t k = 0; k < n; ++k) q.push_back({c.i(-lim, lim), c.i(-lim, lim)});
    rofl::Polygon2 p;
    rofl::VectorVector2 pts;
    long e2 = 0;
    double per = 0;
    long x0 = lim, y0 = lim, x1 = -lim, y1 = -lim;
    std::string text;
    for (size_t k = 0; k < n; ++k) {
        auto& a = q[k];
        auto& b = q[(k + 1) % n];
        pts.push_back(rofl::Vector2((float)a.first, (float)a.second));
        boost::geometry::append(p.outer(), pts.back());
        e2 += a.first * b.second - a.second * b.first;
        per += std::hypot((double)(a.first - b.first), (double)(a.second - b.second));
        x0 = std::min(x0, a.first), x1 = std::max(x1, a.first), y0 = std::min(y0, a.second), y1 = std::max(y1, a.second);
        text += std::to_string(a.first) + "," + std::to_string(a.second) + " ";
    }
    NOTE("polygon " << text);
    double area = boost::geometry::area(p), tol = 1e-5 * (double)n * lim * lim;
    REQUIRE(std::fabs(area - e2 / 2.0) <= tol, "area " << area << " expected " << e2 / 2.0 << " (counter-clockwise is positive)");
    REQUIRE(std::fabs(boost::geometry::perimeter(p) - per) <= 1e-5 * (per + 1), "perimeter " << boost::geometry::perimeter(p) << " expected " << per);
    float fan = 0;
    for (size_t k = 1; k + 1 < n; ++k) fan += rofl::ccw(pts[0], pts[k], pts[k + 1]);
    REQUIRE(std::fabs(fan - e2) <= 2 * tol, "sum of the signed triangles " << fan << " expected " << e2);
    rofl::VectorPolygon2 mp{p, p, p};
    REQUIRE(std::fabs(boost::geometry::area(mp) - 1.5 * e2) <= 4 * tol, "area of three polygons " << boost::geometry::area(mp) << " expected " << 1.5 * e2);
    rofl::Box2 box;
    boost::geometry::envelope(p, box);
    REQUIRE(box.min_corner()(0) == x0 && box.min_corner()(1) == y0 && box.max_corner()(0) == x1 && box.max_corner()(1) == y1, "envelope of the polygon");
    rofl::Segment2 s(pts[0], pts[1]);
    double len = std::hypot((double)(q[0].first - q[1].first), (double)(q[0].second - q[1].second));
    REQUIRE(std::fabs(boost::geometry::length(s) - len) <= 1e-5 * (len + 1), "segment length " << boost::geometry::length(s) << " expected " << len);
    REQUIRE(std::fabs(rofl::K_PI - M_PI) < 1e-6 && std::fabs(rofl::K_2PI - 2 * M_PI) < 1e-6, "K_PI " << rofl::K_PI << " K_2PI " << rofl::K_2PI);
    c.nontrivial(e2 != 0);
}
