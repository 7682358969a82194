//@ sources: geometry/src/*.cpp common/src/*.cpp
//@ fuzz: 30000
// C25: Hough transform and spectrum of 3D points, and the detected planes.
#include "pbt.h"
#include "hough_ref.h"
#include <rofl/geometry/hough_plane_detector.h>
#include <cmath>
#include <list>

PBT_PROPERTY("C25",
             "random bin numbers (1 to 12 per angle, 1 to 20 distances), default and custom parameter ranges, point sets on a few planes "
             "with noise and points outside the range; votes counted again in double precision from the bin parameters (points at a bin "
             "border within float rounding may fall in either bin), spectrum and peaks recomputed by brute force from the transform, "
             "histories of inserts and resets. Non-trivial: at least 2 points voting and at least one detected plane.")

using HD = rofl::HoughPlaneDetector;
static void checkVotes(pbt::Ctx& c, HD& h, const hough::Bag<rofl::Vector3>& pts) {
    for (int t = 0; t < h.getThetaNum(); ++t)
        for (int f = 0; f < h.getPhiNum(); ++f) {
            const rofl::Vector3& n = h.getNormal(t, f);
            double th = (double)h.getThetaMin() + (double)h.getThetaRes() * t, ph = (double)h.getPhiMin() + (double)h.getPhiRes() * f;
            double na = 4e-6 + 3e-7 * (std::fabs(th) + std::fabs(ph));
            REQUIRE(std::fabs(n(0) - std::cos(th) * std::cos(ph)) < na && std::fabs(n(1) - std::cos(th) * std::sin(ph)) < na && std::fabs(n(2) - std::sin(th)) < na,
                    "normal " << t << " " << f << " is " << n(0) << " " << n(1) << " " << n(2) << " for theta " << th << " phi " << ph);
            REQUIRE((h.getNormal(HD::Indices2{t, f}) - n).norm() <= 1e-6, "getNormal overloads differ");
            hough::Votes v(h.getRhoNum());
            for (auto& it : pts.items) {
                auto& p = it.first;
                double r = (double)n(0) * p(0) + (double)n(1) * p(1) + (double)n(2) * p(2);
                bool exact = hough::unit(n(0)) + hough::unit(n(1)) + hough::unit(n(2)) == 1 && hough::zero(n(0)) + hough::zero(n(1)) + hough::zero(n(2)) == 2;
                v.add(r, h.getRhoMin(), h.getRhoRes(), exact ? 0 : std::fabs(p(0)) + std::fabs(p(1)) + std::fabs(p(2)), it.second);
            }
            unsigned long long hs = 0;
            std::vector<size_t> row(h.getRhoNum());
            for (int r = 0; r < h.getRhoNum(); ++r) {
                row[r] = h.getHoughTransform(t, f, r);
                REQUIRE(h.getHoughTransform(HD::Indices3{t, f, r}) == row[r], "getHoughTransform overloads differ");
                hs += (unsigned long long)row[r] * row[r];
            }
            v.check(row, [&](const std::string& m) { PFAIL("transform at theta bin " << t << " phi bin " << f << ": " << m); });
            REQUIRE(h.getHoughSpectrum(t, f) == hs && h.getHoughSpectrum(HD::Indices2{t, f}) == hs, "spectrum at " << t << " " << f << " is " << h.getHoughSpectrum(t, f) << " expected " << hs);
        }
}
static bool closeParam(const HD::PlaneParam& p, HD& h, int t, int f, int r) {
    const rofl::Vector3& n = h.getNormal(t, f);
    double rho = (double)h.getRhoMin() + (double)h.getRhoRes() * r;
    return p(0) == n(0) && p(1) == n(1) && p(2) == n(2) && std::fabs(p(3) + rho) <= 1e-6 * (std::fabs(h.getRhoMin()) + std::fabs(h.getRhoRes() * r)) + 1e-9;
}
static size_t checkFind(pbt::Ctx& c, HD& h, int wt, int wf, int wr) {
    int T = h.getThetaNum(), F = h.getPhiNum(), R = h.getRhoNum();
    auto hs = [&](int t, int f) { return (long)h.getHoughSpectrum(t, f); };
    auto ht = [&](int t, int f, int r) { return (long)h.getHoughTransform(t, f, r); };
    auto rhoPeaks = [&](int t, int f) { return hough::peaks1(R, wr, [&](int r) { return ht(t, f, r); }); };
    std::set<std::pair<int, int>> want, got;
    for (int t = 0; t < T; ++t)
        for (int f = 0; f < F; ++f) {
            bool peak = true;
            for (int a = std::max(0, t - wt); a <= std::min(T - 1, t + wt); ++a)
                for (int b = std::max(0, f - wf); b <= std::min(F - 1, f + wf); ++b)
                    if ((a != t || b != f) && hs(a, b) >= hs(t, f)) peak = false;
            if (peak) want.insert({t, f});
        }
    std::vector<HD::Indices2> sm;
    h.findSpectrumMax(sm);
    for (size_t i = 0; i < sm.size(); ++i) {
        got.insert({sm[i][0], sm[i][1]});
        if (i) REQUIRE(hs(sm[i - 1][0], sm[i - 1][1]) >= hs(sm[i][0], sm[i][1]), "spectrum maxima are not sorted");
    }
    REQUIRE(got == want && got.size() == sm.size(), "findSpectrumMax found " << sm.size() << " maxima, " << want.size() << " expected");
    rofl::VectorVector3 nm;
    if (c.b()) nm.push_back(rofl::Vector3(1, 2, 3));
    h.findNormalMax(nm);
    REQUIRE(nm.size() == sm.size(), "findNormalMax found " << nm.size() << " of " << sm.size());
    for (size_t i = 0; i < sm.size(); ++i) REQUIRE((nm[i] - h.getNormal(sm[i])).norm() <= 1e-6, "normal " << i << " is not the one of its spectrum maximum");
    // parallel planes of one direction
    int t = (int)c.u(T), f = (int)c.u(F);
    std::vector<HD::Indices3> par, planes;
    HD::VectorPlaneParam pp;
    if (c.b()) par.push_back(HD::Indices3{0, 0, 0}), pp.resize(1);
    h.findParallelPlanes(t, f, par);
    h.findParallelPlanes(t, f, pp);
    std::set<int> wantR = rhoPeaks(t, f), gotR;
    for (auto& p : par) {
        REQUIRE(p[0] == t && p[1] == f, "findParallelPlanes returns another direction");
        gotR.insert(p[2]);
    }
    REQUIRE(gotR == wantR && par.size() == gotR.size(), "findParallelPlanes found " << par.size() << " planes, expected " << wantR.size());
    REQUIRE(pp.size() == par.size(), "findParallelPlanes found " << pp.size() << " parameters of " << par.size());
    for (size_t i = 0; i < par.size(); ++i) {
        REQUIRE(closeParam(pp[i], h, t, f, par[i][2]), "plane parameters of " << t << " " << f << " " << par[i][2] << " are " << pp[i].transpose());
        if (i) REQUIRE(ht(t, f, par[i - 1][2]) >= ht(t, f, par[i][2]), "parallel planes are not sorted");
    }
    // all planes
    std::set<std::array<int, 3>> wp, gp;
    for (auto& d : want)
        for (int r : rhoPeaks(d.first, d.second)) wp.insert({d.first, d.second, r});
    h.findPlanes(planes);
    for (size_t i = 0; i < planes.size(); ++i) {
        gp.insert({planes[i][0], planes[i][1], planes[i][2]});
        if (i) REQUIRE(h.getHoughTransform(planes[i - 1]) >= h.getHoughTransform(planes[i]), "planes are not sorted by votes");
    }
    REQUIRE(gp == wp && gp.size() == planes.size(), "findPlanes found " << planes.size() << " planes, expected " << wp.size());
    HD::VectorPlaneParam ap;
    if (c.b()) ap.resize(c.u(40));
    h.findPlanes(ap);
    REQUIRE(ap.size() == planes.size(), "findPlanes found " << ap.size() << " parameters of " << planes.size());
    for (size_t i = 0; i < ap.size(); ++i) REQUIRE(closeParam(ap[i], h, planes[i][0], planes[i][1], planes[i][2]), "parameters of plane " << i << " are " << ap[i].transpose());
    int r = (int)c.u(R);
    REQUIRE(closeParam(h.getPlaneParam(t, f, r), h, t, f, r) && closeParam(h.getPlaneParam(HD::Indices3{t, f, r}), h, t, f, r), "getPlaneParam of " << t << " " << f << " " << r);
    return planes.size();
}
FACET(history, 30000, 600000) {
    HD h;
    bool wide = c.b(1, 60);
    int maxT = wide ? 40 : 8, maxF = wide ? 40 : 12, maxR = wide ? 60 : 20;
    int T = 1 + (int)c.u(maxT), F = 1 + (int)c.u(maxF), R = 1 + (int)c.u(maxR);
    float res = c.b() ? 0.25f * (float)(1 + c.u(8)) : (float)(1 + c.u(300)) / 100;
    auto init = [&]() {
        if (c.b()) {
            h.init(T, F, R, res);
            REQUIRE(std::fabs(h.getPhiRes() - 2 * M_PI / F) < 1e-5, "phi resolution " << h.getPhiRes() << " with " << F << " bins");
            REQUIRE(h.getRhoRes() == res, "rho resolution " << h.getRhoRes());
        } else {
            rofl::Vector3 mn, rs;
            mn << (float)c.i(-8, 8) / 8, (float)c.i(-16, 16) / 8, c.b() ? 0.f : (float)c.i(-40, 40) / 4;
            rs << (float)c.i(1, 40) / 50, (float)c.i(1, 40) / 50, res;
            h.init(HD::Indices3{T, F, R}, mn, rs);
            REQUIRE(h.getThetaMin() == mn(0) && h.getPhiMin() == mn(1) && h.getRhoMin() == mn(2) && h.getThetaRes() == rs(0) && h.getPhiRes() == rs(1) && h.getRhoRes() == res, "the getters do not return the parameters of init");
        }
        REQUIRE(h.getThetaNum() == T && h.getPhiNum() == F && h.getRhoNum() == R, "bins " << h.getThetaNum() << " " << h.getPhiNum() << " " << h.getRhoNum());
        NOTE("init " << T << " " << F << " " << R << " min " << h.getThetaMin() << " " << h.getPhiMin() << " " << h.getRhoMin() << " res " << h.getThetaRes() << " " << h.getPhiRes() << " " << res);
    };
    if (c.b(1, 4)) {
        h = HD(T, F, R, res);
        NOTE("constructor " << T << " " << F << " " << R << " " << res);
    } else
        init();
    int wt = 1, wf = 1, wr = 1;
    hough::Bag<rofl::Vector3> all;
    bool longRun = !wide && c.b(1, 10);  // several changes of the bins under one peak window
    size_t steps = longRun ? 4 + c.u(5) : 1 + c.small(3), found = 0;
    for (size_t s = 0; s < steps; ++s) {
        if (s && (longRun ? c.b() : c.b(1, 5))) {
            if (c.b()) T = 1 + (int)c.u(maxT), F = 1 + (int)c.u(maxF), R = 1 + (int)c.u(maxR);
            init();
            all.clear();
            if (c.b()) checkVotes(c, h, all);
        } else if (s && c.b(1, 4)) {
            h.setZero();
            all.clear();
            NOTE("setZero");
            checkVotes(c, h, all);
        }
        rofl::VectorVector3 pts;
        size_t n = c.len(0, 12);
        int d = (int)c.i(-10, 10), axis = (int)c.u(4);
        bool many = !wide && c.b(1, 60);
        hough::Bag<rofl::Vector3> bag;
        auto add = [&]() { for (auto& it : bag.items) all.add(it.first, it.second); };
        for (size_t i = 0; i < n; ++i) {
            rofl::Vector3 p((float)c.i(-64, 64) / 8, (float)c.i(-64, 64) / 8, (float)c.i(-64, 64) / 8);
            if (axis < 3) p(axis) = (float)d / 2;
            else if (c.b(1, 8)) p *= (c.b() ? 8.f : std::ldexp(1.f, (int)c.i(-12, 16)));
            size_t k = hough::times(c, many);
            for (size_t j = 0; j < k; ++j) pts.push_back(p);
            bag.add(p, k);
            NOTE("point " << p.transpose() << " times " << k);
        }
        if (c.b(1, 3)) {
            std::list<std::array<double, 3>> l;
            for (auto& p : pts) l.push_back({p(0), p(1), p(2)});
            auto conv = [](const std::array<double, 3>& a) -> rofl::Vector3 { return rofl::Vector3((float)a[0], (float)a[1], (float)a[2]); };
            h.insert(l.begin(), l.end(), conv);  // starts from zero
            all.clear();
            add();
            NOTE("inserted by iterators");
        } else {
            h.insert(pts);
            add();
        }
        if (longRun ? c.b(1, 4) : c.b()) {
            wt = (int)c.small(wide ? 12 : 4), wf = (int)c.small(wide ? 12 : 4), wr = (int)c.small(wide ? 20 : 5);
            if (c.b()) h.setPeakWindow(hough::window(c, wt, h.getThetaRes()), hough::window(c, wf, h.getPhiRes()), hough::window(c, wr, h.getRhoRes()));
            else h.setPeakWindow(wt, wf, wr);
            NOTE("peak window " << wt << " " << wf << " " << wr);
        }
        checkVotes(c, h, all);
        if (c.b(1, 8)) {
            // a copy goes on alone
            HD copy(h);
            rofl::VectorVector3 one(1, rofl::Vector3(1.5f, 2.f, -1.f));
            if (c.b()) copy.insert(one); else copy.setZero();
            copy.setPeakWindow(3, 3, 3);
            checkVotes(c, h, all);
            HD back(h);
            h = back;
            NOTE("copied");
        }
        found += checkFind(c, h, wt, wf, wr);
    }
    c.nontrivial(all.size() >= 2 && found > 0);
}
