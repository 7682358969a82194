//@ fuzz: 40000
// C23: box registration.
#include "pbt.h"
#include <algorithm>
#include <cmath>
#include <rofl/geometry/box_registration.h>

PBT_PROPERTY("C23",
             "random boxes and query points (inside, on faces, edges and corners, outside) against a brute-force nearest surface point; "
             "random clouds (box surfaces moved by random rigid motions, noisy, flat, collinear, tiny, arbitrary) for one registration step: "
             "the result is compared with the optimum of the Procrustes problem (closed form in the plane, Horn's quaternion method in "
             "space) for the nearest-point associations, iterated steps for non-increasing error; the initial guess against centroid "
             "and principal axes. Non-trivial: query off the surface; cloud of 4 or more points, not all on a line.")

template <class S, int D>
struct T {
    using Box = rofl::BoxRegistration<S, D>;
    using P = typename Box::Point;
    using V = typename Box::VectorPoint;
    using X = typename Box::Transform;
    using M = Eigen::Matrix<double, D, D>;
    using Pd = Eigen::Matrix<double, D, 1>;

    // all lengths of a case are multiples of its unit
    static double genUnit(pbt::Ctx& c) {
        if (c.b(2, 3)) return 1;
        return sizeof(S) == 4 ? std::ldexp(1.0, (int)c.i(-1, 8)) : std::ldexp(1.0, (int)c.i(-8, 12));
    }
    static P genDims(pbt::Ctx& c, double unit) {
        P d;
        bool slender = c.b(1, 6);
        for (int k = 0; k < D; ++k) d(k) = (S)((double)(1 + c.u(40)) / 4 * unit * (slender && k == 0 ? 16 : 1));
        return d;
    }
    static std::string str(const P& p) {
        std::ostringstream os;
        os << "(" << p.transpose() << ")";
        return os.str();
    }
    // distance of q from the surface of the box
    static double surfaceDist(const Pd& q, const Pd& dims) {
        double out = 0, in = 1e300;
        for (int k = 0; k < D; ++k) {
            double h = 0.5 * dims(k), e = std::fabs(q(k)) - h;
            if (e > 0) out += e * e;
            in = std::min(in, -e);
        }
        return out > 0 ? std::sqrt(out) : in;
    }
    static void nearest(pbt::Ctx& c) {
        Box box;
        double unit = sizeof(S) == 4 || c.b() ? 1 : std::ldexp(1.0, (int)c.i(-30, 30));
        P dims = genDims(c, unit), q, n;
        if (c.b(1, 4)) box.setDimension(genDims(c, unit));
        box.setDimension(dims);
        for (int k = 0; k < D; ++k) {
            switch (c.w({3, 1, 1, 1})) {
                case 3: q(k) = (S)((double)dims(k) * ((double)c.i(-600, 600) / 1000)); break;
                case 0: q(k) = (S)((double)c.i(-64, 64) / 8 * unit); break;
                case 1: q(k) = dims(k) / 2 * (c.b() ? 1 : -1); break;
                default: q(k) = 0; break;
            }
            n(k) = 99;
        }
        NOTE(D << "-d box " << str(dims) << " query " << str(q));
        box.associate(q, n);
        bool face = false;
        for (int k = 0; k < D; ++k) {
            REQUIRE(std::fabs(n(k)) <= dims(k) / 2 + 1e-6 * unit, "nearest " << str(n) << " is outside the box");
            face = face || std::fabs(std::fabs(n(k)) - dims(k) / 2) < 1e-6 * unit;
        }
        REQUIRE(face, "nearest " << str(n) << " of " << str(q) << " is not on the surface of the box " << str(dims));
        double e = surfaceDist(q.template cast<double>(), dims.template cast<double>()), d = (n - q).norm();
        REQUIRE(std::fabs(d - e) <= 1e-5 * unit, "nearest " << str(n) << " of " << str(q) << " is at distance " << d << ", the surface at " << e);
        c.nontrivial(e > 0);
    }
    static X genTransform(pbt::Ctx& c, double amount, double unit) {
        X t = X::Identity();
        Eigen::Matrix<S, D, D> R = Eigen::Matrix<S, D, D>::Identity();
        for (int a = 0; a < D; ++a)
            for (int b = a + 1; b < D; ++b) {
                double ang = amount * (c.b(1, 4) ? (double)c.i(-4, 4) * M_PI_2 / 4 : (double)c.i(-1000, 1000) / 1000 * M_PI);
                Eigen::Matrix<S, D, D> G = Eigen::Matrix<S, D, D>::Identity();
                G(a, a) = (S)std::cos(ang);
                G(b, b) = (S)std::cos(ang);
                G(a, b) = (S)-std::sin(ang);
                G(b, a) = (S)std::sin(ang);
                R = G * R;
            }
        t.linear() = R;
        for (int k = 0; k < D; ++k) t.translation()(k) = (S)(amount * (double)c.i(-40, 40) / 4 * unit);
        t.makeAffine();
        return t;
    }
    static V genCloud(pbt::Ctx& c, const P& dims, const X& truth, size_t minN, double unit) {
        V v;
        size_t n = c.b(1, 25) ? c.len(25, 300) : c.len(minN, 24);
        int kind = (int)c.w({5, 2, 1, 1});
        if (c.b(1, 300)) {  // a large scan, possibly sorted by a coordinate
            n = c.pick(std::vector<size_t>{1500, 5000, 20000});
            uint64_t x = c.bits(40) | 1;
            auto rnd = [&] { return (double)((x = x * 6364136223846793005ULL + 1442695040888963407ULL) >> 40) / 16777216.0 - 0.5; };
            for (size_t i = 0; i < n; ++i) {
                P p;
                for (int k = 0; k < D; ++k) p(k) = (S)rnd() * dims(k);
                int k = (int)((rnd() + 0.5) * D) % D;
                p(k) = (rnd() < 0 ? 1 : -1) * dims(k) / 2;
                v.push_back(p);
            }
            if (c.b()) {
                int k = (int)c.u(D);
                std::sort(v.begin(), v.end(), [k](const P& a, const P& b) { return a(k) < b(k); });
            }
            for (auto& p : v) p = truth * p;
            c.label("large");
            return v;
        }
        for (size_t i = 0; i < n; ++i) {
            P p;
            for (int k = 0; k < D; ++k) p(k) = (S)c.i(-32, 32) / 64 * dims(k);
            if (kind <= 1) {
                int k = (int)c.u(D);
                p(k) = (c.b() ? 1 : -1) * dims(k) / 2;
            }
            if (kind == 1)
                for (int k = 0; k < D; ++k) p(k) += (S)((double)c.i(-8, 8) / 32 * unit);
            if (kind == 2 && D > 1) p(D - 1) = dims(D - 1) / 2;  // a face
            if (kind == 3) p = dims * (S)c.i(-8, 8) / 8;          // a line
            v.push_back(truth * p);
        }
        c.label(kind == 0 ? "surface" : kind == 1 ? "noisy" : kind == 2 ? "face" : "line");
        return v;
    }
    // minimum of sum |R m + t - c|^2
    static double procrustes(const std::vector<Pd>& m, const std::vector<Pd>& cl) {
        Pd mm = Pd::Zero(), mc = Pd::Zero();
        size_t n = m.size();
        for (size_t i = 0; i < n; ++i) {
            mm += m[i];
            mc += cl[i];
        }
        mm /= (double)n;
        mc /= (double)n;
        M H = M::Zero();
        double ss = 0;
        for (size_t i = 0; i < n; ++i) {
            H += (m[i] - mm) * (cl[i] - mc).transpose();
            ss += (m[i] - mm).squaredNorm() + (cl[i] - mc).squaredNorm();
        }
        double gain;
        if (D == 2)
            gain = std::hypot(H(0, 0) + H(1, 1), H(0, 1) - H(1, 0));
        else {
            int z = D - 1;
            Eigen::Matrix4d N;
            double xx = H(0, 0), xy = H(0, 1), xz = H(0, z), yx = H(1, 0), yy = H(1, 1), yz = H(1, z), zx = H(z, 0), zy = H(z, 1), zz = H(z, z);
            N << xx + yy + zz, yz - zy, zx - xz, xy - yx, yz - zy, xx - yy - zz, xy + yx, zx + xz, zx - xz, xy + yx, -xx + yy - zz, yz + zy, xy - yx, zx + xz, yz + zy, -xx - yy + zz;
            // largest eigenvalue by bisection on the characteristic polynomial's sign is delicate: use Jacobi rotations
            for (int sweep = 0; sweep < 60; ++sweep)
                for (int p = 0; p < 4; ++p)
                    for (int q = p + 1; q < 4; ++q) {
                        if (std::fabs(N(p, q)) < 1e-300) continue;
                        double th = 0.5 * std::atan2(2 * N(p, q), N(q, q) - N(p, p)), cs = std::cos(th), sn = std::sin(th);
                        for (int k = 0; k < 4; ++k) {
                            double a = N(k, p), b = N(k, q);
                            N(k, p) = cs * a - sn * b;
                            N(k, q) = sn * a + cs * b;
                        }
                        for (int k = 0; k < 4; ++k) {
                            double a = N(p, k), b = N(q, k);
                            N(p, k) = cs * a - sn * b;
                            N(q, k) = sn * a + cs * b;
                        }
                    }
            gain = N(0, 0);
            for (int k = 1; k < 4; ++k) gain = std::max(gain, N(k, k));
        }
        return std::max(0.0, ss - 2 * gain);
    }
    static void isRotation(pbt::Ctx& c, const X& t, const char* what) {
        M R = t.linear().template cast<double>();
        double tol = sizeof(S) == 4 ? 2e-4 : 1e-9;
        REQUIRE((R * R.transpose() - M::Identity()).norm() <= tol, what << " is not orthogonal:\n" << R);
        REQUIRE(R.determinant() > 0, what << " is a reflection:\n" << R);
    }
    static double boxError(const V& cloud, const X& t, const P& dims) {
        double s = 0;
        M Rt = t.linear().template cast<double>().transpose();
        Pd tr = t.translation().template cast<double>();
        for (auto& p : cloud) {
            double d = surfaceDist(Rt * (p.template cast<double>() - tr), dims.template cast<double>());
            s += d * d;
        }
        return s;
    }
    static void step(pbt::Ctx& c) {
        Box box;
        double unit = genUnit(c);
        P dims = genDims(c, unit);
        if (c.b(1, 4)) box.setDimension(genDims(c, unit));
        box.setDimension(dims);
        X truth = genTransform(c, 1, unit), t = truth;
        double off = c.pick(std::vector<double>{0, 0.02, 0.1, 1});
        t = truth * genTransform(c, off, unit);
        V cloud = genCloud(c, dims, truth, 1, unit);
        NOTE(D << "-d box " << str(dims) << ", " << cloud.size() << " points, start off by " << off << " unit " << unit);
        double scale = unit * unit, tolS = sizeof(S) == 4 ? 1e-4 : 1e-10;
        for (auto& p : cloud) scale = std::max(scale, (double)p.squaredNorm());
        scale *= cloud.size();
        double err = boxError(cloud, t, dims);
        for (int it = 0; it < 3; ++it) {
            std::vector<Pd> m, cl;
            X inv = t.inverse();
            for (auto& p : cloud) {
                P n;
                box.associate(inv * p, n);
                m.push_back(n.template cast<double>());
                cl.push_back(p.template cast<double>());
            }
            X before = t;
            V copy = cloud;
            box.computeTransform(copy, t);
            isRotation(c, t, "the updated transformation");
            double cost = 0;
            M R = t.linear().template cast<double>();
            Pd tr = t.translation().template cast<double>();
            for (size_t i = 0; i < m.size(); ++i) cost += (R * m[i] + tr - cl[i]).squaredNorm();
            double best = procrustes(m, cl);
            REQUIRE(cost <= best + tolS * scale, "step " << it << ": the sum of squares is " << cost << ", the best rigid motion gives " << best);
            double e2 = boxError(cloud, t, dims);
            REQUIRE(e2 <= err + tolS * scale, "step " << it << ": the error grows from " << err << " to " << e2);
            err = e2;
        }
        c.nontrivial(cloud.size() >= 4);
    }
    static void initial(pbt::Ctx& c) {
        Box box;
        double unit = genUnit(c);
        P dims = genDims(c, unit);
        if (c.b(1, 4)) box.setDimension(genDims(c, unit));
        box.setDimension(dims);
        X truth = genTransform(c, 1, unit), t = genTransform(c, 1, unit);
        V cloud = genCloud(c, dims, truth, 0, unit);
        NOTE(D << "-d box " << str(dims) << ", " << cloud.size() << " points");
        box.estimateInitTranform(cloud, t);
        isRotation(c, t, "the initial transformation");
        if (cloud.size() < 2) {
            REQUIRE(t.matrix() == X::Identity().matrix(), "the initial transformation of fewer than two points is not the identity");
            return;
        }
        Pd ce = Pd::Zero();
        for (auto& p : cloud) ce += p.template cast<double>();
        ce /= (double)cloud.size();
        M C = M::Zero();
        for (auto& p : cloud) C += (p.template cast<double>() - ce) * (p.template cast<double>() - ce).transpose();
        double tol = (sizeof(S) == 4 ? 1e-3 : 1e-8) * (unit * unit * 1 + C.norm()) + (sizeof(S) == 4 ? 1e-5 : 1e-13) * cloud.size();
        REQUIRE((t.translation().template cast<double>() - ce).norm() <= (sizeof(S) == 4 ? 1e-3 : 1e-9) * (unit + ce.norm()), "translation is not the centroid");
        M R = t.linear().template cast<double>(), L = R.transpose() * C * R;
        for (int a = 0; a < D; ++a)
            for (int b = 0; b < D; ++b) {
                if (a == b) continue;
                REQUIRE(std::fabs(L(a, b)) <= tol, "the axes are not principal axes of the cloud:\n" << L);
                if (dims(a) < dims(b)) REQUIRE(L(a, a) <= L(b, b) + tol, "axis " << a << " (size " << dims(a) << ") has spread " << L(a, a) << ", axis " << b << " (size " << dims(b) << ") " << L(b, b));
            }
        c.nontrivial(cloud.size() >= 4);
    }
};
FACET(nearest2d, 150000, 2000000) { T<double, 2>::nearest(c); }
FACET(nearest3d, 200000, 3000000) { T<double, 3>::nearest(c); }
FACET(step2d, 15000, 300000) { T<double, 2>::step(c); }
FACET(step3d, 15000, 400000) { T<double, 3>::step(c); }
FACET(initial2d, 15000, 200000) { T<double, 2>::initial(c); }
FACET(initial3d, 15000, 300000) { T<double, 3>::initial(c); }
FACET(float3d, 15000, 200000) {
    switch (c.u(6)) {
        case 3: T<float, 2>::nearest(c); break;
        case 4: T<float, 2>::step(c); break;
        case 5: T<float, 2>::initial(c); break;
        case 0: T<float, 3>::nearest(c); break;
        case 1: T<float, 3>::step(c); break;
        default: T<float, 3>::initial(c); break;
    }
}
