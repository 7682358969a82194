//@ sources: geometry/src/*.cpp common/src/*.cpp
//@ fuzz: 60000
// C26: Hough transform and spectrum of 2D points, and the detected lines.
#include "pbt.h"
#include "hough_ref.h"
#include <rofl/geometry/hough_line_detector.h>
#include <cmath>
#include <list>

PBT_PROPERTY("C26",
             "random bin numbers (1 to 24 angles, 1 to 24 distances), default and custom parameter ranges, point sets on a few lines with "
             "noise and points outside the range; votes counted again in double precision from the bin parameters (points at a bin border "
             "within float rounding may fall in either bin), spectrum and peaks recomputed by brute force, histories of inserts and "
             "resets. Non-trivial: at least 2 points and at least one detected line.")

using HD = rofl::HoughLineDetector;
static double angle(HD& h, int t) { return (double)h.getThetaMin() + (double)h.getThetaRes() * t; }
static void checkVotes(pbt::Ctx& c, HD& h, const hough::Bag<rofl::Vector2>& pts) {
    for (int t = 0; t < h.getThetaNum(); ++t) {
        double th = angle(h, t), nx = std::cos(th), ny = std::sin(th);
        hough::Votes v(h.getRhoNum());
        // the normal is a float approximation: 1e-6 on each component (exact at angle 0)
        for (auto& it : pts.items) {
            auto& p = it.first;
            v.add(nx * p(0) + ny * p(1), h.getRhoMin(), h.getRhoRes(), th == 0 ? 0 : (10 + 2 * std::fabs(th)) * (std::fabs(p(0)) + std::fabs(p(1))), it.second);
        }
        unsigned long long hs = 0;
        std::vector<size_t> row(h.getRhoNum());
        for (int r = 0; r < h.getRhoNum(); ++r) {
            row[r] = h.getHoughTransform(t, r);
            REQUIRE(h.getHoughTransform(HD::Indices2{t, r}) == row[r], "getHoughTransform overloads differ");
            hs += (unsigned long long)row[r] * row[r];
        }
        v.check(row, [&](const std::string& m) { PFAIL("transform at theta bin " << t << ": " << m); });
        REQUIRE(h.getHoughSpectrum(t) == hs, "spectrum at " << t << " is " << h.getHoughSpectrum(t) << " expected " << hs);
    }
}
static size_t checkFind(pbt::Ctx& c, HD& h, int wt, int wr) {
    int T = h.getThetaNum(), R = h.getRhoNum();
    auto hs = [&](int t) { return (long)h.getHoughSpectrum(t); };
    std::set<int> want = hough::peaks1(T, wt, hs), got;
    std::vector<HD::Indices1> im;
    h.findSpectrumIndicesMax(im);
    for (size_t i = 0; i < im.size(); ++i) {
        got.insert(im[i][0]);
        if (i) REQUIRE(hs(im[i - 1][0]) >= hs(im[i][0]), "spectrum maxima are not sorted");
    }
    REQUIRE(got == want && im.size() == got.size(), "findSpectrumIndicesMax found " << im.size() << " maxima, " << want.size() << " expected");
    std::vector<HD::Index> xm;
    std::vector<rofl::Scalar> am;
    rofl::VectorVector2 nm;
    h.findSpectrumIndexMax(xm);
    h.findSpectrumAngleMax(am);
    h.findNormalMax(nm);
    REQUIRE(xm.size() == im.size() && am.size() == im.size() && nm.size() == im.size(), "the spectrum maxima differ in number: " << im.size() << " " << xm.size() << " " << am.size() << " " << nm.size());
    for (size_t i = 0; i < im.size(); ++i) {
        double a = angle(h, im[i][0]), ea = 1e-5 + 3e-7 * std::fabs(a);
        REQUIRE(xm[i] == im[i][0] && std::fabs(am[i] - a) < ea && std::fabs(nm[i](0) - std::cos(a)) < ea && std::fabs(nm[i](1) - std::sin(a)) < ea,
                "maximum " << i << " at bin " << im[i][0] << " has index " << xm[i] << " angle " << am[i] << " normal " << nm[i].transpose());
    }
    std::set<std::pair<int, int>> wl, gl;
    for (int t : want)
        for (int r : hough::peaks1(R, wr, [&](int r) { return (long)h.getHoughTransform(t, r); })) wl.insert({t, r});
    std::vector<HD::Indices2> lines;
    h.findLines(lines);
    for (auto& l : lines) gl.insert({l[0], l[1]});
    REQUIRE(gl == wl && gl.size() == lines.size(), "findLines found " << lines.size() << " lines, expected " << wl.size());
    HD::VectorLineParam lp;
    if (c.b()) lp.resize(c.u(40));
    h.findLines(lp);
    REQUIRE(lp.size() == lines.size(), "findLines found " << lp.size() << " parameters of " << lines.size());
    for (size_t i = 0; i < lp.size(); ++i) {
        double a = angle(h, lines[i][0]), rho = (double)h.getRhoMin() + (double)h.getRhoRes() * lines[i][1];
        REQUIRE(std::fabs(lp[i](0) - std::cos(a)) < 1e-5 + 3e-7 * std::fabs(a) && std::fabs(lp[i](1) - std::sin(a)) < 1e-5 + 3e-7 * std::fabs(a) && std::fabs(lp[i](2) + rho) < 1e-5 * (1 + std::fabs(rho)), "parameters of line " << i << " are " << lp[i].transpose() << " for angle " << a << " distance " << rho);
    }
    return lines.size();
}
FACET(history, 40000, 800000) {
    HD h;
    bool wide = c.b(1, 30);
    int maxT = wide ? 200 : 24, maxR = wide ? 400 : 24;
    int T = 1 + (int)c.u(maxT), R = 1 + (int)c.u(maxR);
    float res = c.b() ? 0.25f * (float)(1 + c.u(8)) : (float)(1 + c.u(300)) / 100;
    auto init = [&]() {
        if (c.b()) {
            h.init(T, R, res);
            REQUIRE(h.getThetaMin() == 0 && h.getRhoMin() == 0, "minima " << h.getThetaMin() << " " << h.getRhoMin());
            REQUIRE(std::fabs(h.getThetaRes() - M_PI / T) < 1e-5 && h.getRhoRes() == res, "resolutions " << h.getThetaRes() << " " << h.getRhoRes());
        } else {
            rofl::Vector2 mn((float)c.i(-16, 16) / 8, (float)c.i(-40, 40) / 4), rs((float)c.i(1, 40) / 50, res);
            h.init(HD::Indices2{T, R}, mn, rs);
            REQUIRE(h.getThetaMin() == mn(0) && h.getRhoMin() == mn(1) && h.getThetaRes() == rs(0) && h.getRhoRes() == res, "the getters do not return the parameters of init");
        }
        REQUIRE(h.getThetaNum() == T && h.getRhoNum() == R, "bins " << h.getThetaNum() << " " << h.getRhoNum());
        NOTE("init " << T << " " << R << " min " << h.getThetaMin() << " " << h.getRhoMin() << " res " << h.getThetaRes() << " " << res);
    };
    if (c.b(1, 4)) {
        h = HD(T, R, res);
        NOTE("constructor " << T << " " << R << " " << res);
    } else
        init();
    int wt = 1, wr = 1;
    hough::Bag<rofl::Vector2> all;
    bool longRun = !wide && c.b(1, 10);  // several changes of the bins under one peak window
    size_t steps = longRun ? 4 + c.u(5) : 1 + c.small(3), found = 0;
    for (size_t s = 0; s < steps; ++s) {
        if (s && (longRun ? c.b() : c.b(1, 5))) {
            if (c.b()) T = 1 + (int)c.u(maxT), R = 1 + (int)c.u(maxR);
            init();
            all.clear();
            if (c.b()) checkVotes(c, h, all);
        } else if (s && c.b(1, 4)) {
            h.setZero();
            all.clear();
            NOTE("setZero");
            checkVotes(c, h, all);
        }
        rofl::VectorVector2 pts;
        size_t n = c.len(0, 16);
        int d = (int)c.i(-10, 10), axis = (int)c.u(3);
        bool many = c.b(1, 40);
        hough::Bag<rofl::Vector2> bag;
        auto add = [&]() { for (auto& it : bag.items) all.add(it.first, it.second); };
        for (size_t i = 0; i < n; ++i) {
            rofl::Vector2 p((float)c.i(-64, 64) / 8, (float)c.i(-64, 64) / 8);
            if (axis < 2) p(axis) = (float)d / 2;
            else if (c.b(1, 8)) p *= (c.b() ? 8.f : std::ldexp(1.f, (int)c.i(-12, 16)));
            size_t k = hough::times(c, many);
            for (size_t j = 0; j < k; ++j) pts.push_back(p);
            bag.add(p, k);
            NOTE("point " << p.transpose() << " times " << k);
        }
        if (c.b(1, 3)) {
            std::list<std::array<double, 2>> l;
            for (auto& p : pts) l.push_back({p(0), p(1)});
            auto conv = [](const std::array<double, 2>& a) -> rofl::Vector2 { return rofl::Vector2((float)a[0], (float)a[1]); };
            h.insert(l.begin(), l.end(), conv);  // starts from zero
            all.clear();
            add();
            NOTE("inserted by iterators");
        } else {
            h.insert(pts);
            add();
        }
        if (longRun ? c.b(1, 4) : c.b()) {
            wt = (int)c.small(wide ? 30 : 4), wr = (int)c.small(wide ? 30 : 5);
            if (c.b()) h.setPeakWindow(hough::window(c, wt, h.getThetaRes()), hough::window(c, wr, h.getRhoRes()));
            else h.setPeakWindow(wt, wr);
            NOTE("peak window " << wt << " " << wr);
        }
        checkVotes(c, h, all);
        if (c.b(1, 8)) {
            // a copy goes on alone
            HD copy(h);
            rofl::VectorVector2 one(1, rofl::Vector2(1.5f, 2.f));
            c.b() ? copy.insert(one) : copy.setZero();
            copy.setPeakWindow(3, 3);
            checkVotes(c, h, all);
            HD back(h);
            h = back;
            NOTE("copied");
        }
        found += checkFind(c, h, wt, wr);
    }
    c.nontrivial(all.size() >= 2 && found > 0);
}
