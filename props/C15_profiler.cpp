//@ quickscale: 4
//@ fuzz: 100000
// C15: profiler statistics and scoped timers.
#include "pbt.h"
#include <rofl/common/profiler.h>
#include <chrono>
#include <cmath>
#include <functional>
#include <iomanip>
#include <map>
#include <set>
#include <memory>
#include <sstream>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

PBT_PROPERTY("C15",
             "random interleaved measurement series over several labels fed to a profiler; the printed statistics are compared with batch "
             "mean, sample variance, minimum, maximum and count in extended precision; scoped timers (nested, by macro) are bracketed by "
             "clock readings. Non-trivial: a series with three or more distinct measurements.")

struct Prof : rofl::Profiler {
    Prof() {}
};
struct Row {
    double avg, var, mn, mx;
    long count;
};
// a clock that can be stopped and moved
static bool fakeOn = false;
static long long fakeNs = 0;
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) {
    if (fakeOn) {
        long long t = 1000000000000000LL + fakeNs;
        ts->tv_sec = (time_t)(t / 1000000000);
        ts->tv_nsec = (long)(t % 1000000000);
        return 0;
    }
    return (int)syscall(SYS_clock_gettime, id, ts);
}
struct FakeClock {
    FakeClock() { fakeNs = 0, fakeOn = true; }
    ~FakeClock() { fakeOn = false; }
};
static std::map<std::string, Row> stats(pbt::Ctx& c, const rofl::Profiler& p) {
    std::ostringstream os;
    os << std::setprecision(17);
    p.printStats(os);
    std::map<std::string, Row> out;
    std::istringstream is(os.str());
    std::string line;
    while (std::getline(is, line)) {
        // the label, which may have blanks, then five numbers
        size_t cut = line.find_last_not_of(" \t");
        for (int k = 0; k < 5 && cut != std::string::npos; ++k) {
            cut = line.find_last_of(" \t", cut);
            if (cut != std::string::npos && k < 4) cut = line.find_last_not_of(" \t", cut);
        }
        REQUIRE(cut != std::string::npos, "statistics line \"" << line << "\"");
        std::string label = line.substr(0, cut);
        label.erase(label.find_last_not_of(" \t") == std::string::npos ? 0 : label.find_last_not_of(" \t") + 1);
        std::istringstream ls(line.substr(cut));
        Row r;
        REQUIRE((bool)(ls >> r.avg >> r.var >> r.mn >> r.mx >> r.count), "statistics line \"" << line << "\"");
        REQUIRE(out.insert({label, r}).second, "label " << label << " printed twice");
    }
    return out;
}
static double genTime(pbt::Ctx& c, int mode, double offset) {
    switch (mode) {
        case 0: return (double)c.i(0, 20);
        case 1: return offset + (double)c.i(-1000, 1000) / 64;
        case 2: return std::ldexp((double)(1 + c.u(1000)), (int)c.i(-30, 20));
        default: return (double)c.i(-1000000, 1000000) / 1000;
    }
}
static void judge(pbt::Ctx& c, const Prof& p, const std::map<std::string, std::vector<double>>& m) {
    auto s = stats(c, p);
    REQUIRE(s.size() == m.size(), "statistics of " << s.size() << " labels expected " << m.size());
    for (auto& kv : m) {
        REQUIRE(s.count(kv.first), "no statistics of " << kv.first);
        Row r = s[kv.first];
        const auto& v = kv.second;
        long double sum = 0, var = 0, big = 0;
        double mn = v[0], mx = v[0];
        for (double t : v) {
            sum += t;
            mn = std::min(mn, t);
            mx = std::max(mx, t);
            big = std::max(big, (long double)std::fabs(t));
        }
        long double mean = sum / v.size();
        for (double t : v) var += (t - mean) * (t - mean);
        var = v.size() > 1 ? var / (v.size() - 1) : 0;
        REQUIRE(r.count == (long)v.size(), kv.first << ": count " << r.count << " expected " << v.size());
        REQUIRE(r.mn == mn && r.mx == mx, kv.first << ": min " << r.mn << " max " << r.mx << " expected " << mn << " " << mx);
        // rounding of an incremental or two-pass computation (a difference of sums of squares is not one)
        long double eps = 2.3e-16L * (v.size() + 8), sd = std::sqrt(var);
        std::string vals = v.size() <= 60 ? pbt::show(v) : std::to_string(v.size()) + " values";
        REQUIRE(std::fabs(r.avg - mean) <= 16 * eps * big, kv.first << " " << vals << ": mean " << r.avg << " expected " << (double)mean);
        REQUIRE(std::fabs(r.var - var) <= 1e-9L * var + 64 * eps * big * sd + 4096 * eps * eps * big * big, kv.first << " " << vals << ": variance " << r.var << " expected " << (double)var);
        c.nontrivial(std::set<double>(v.begin(), v.end()).size() >= 3);
    }
}
FACET(series, 250000, 1500000) {
    Prof p;
    std::map<std::string, std::vector<double>> m;
    int mode = (int)c.u(4);
    double offset = c.pick(std::vector<double>{0, 100, 1e5, 1e9});
    bool longNames = c.b(1, 10);
    size_t stem = longNames ? c.len(1, 400) : 0;
    REQUIRE(stats(c, p).empty(), "a new profiler has statistics");
    auto loop = c.loop(60);
    while (loop.more()) {
        std::string l = longNames ? std::string(stem, 'p') + c.pick(std::vector<std::string>{"", "a", "b", "c/x", ":12"}) : c.pick(std::vector<std::string>{"a", "b", "main.cpp_main_12", "c", "A", "a b", "a  b", "12", ""});
        double t = genTime(c, mode, offset);
        NOTE(l << " " << t);
        p.updateStat(l, t);
        m[l].push_back(t);
        if (c.b(1, 20)) judge(c, p, m);
    }
    judge(c, p, m);
}
FACET(longSeries, 60, 2000) {
    Prof p;
    std::map<std::string, std::vector<double>> m;
    size_t labels = 1 + c.small(300), n = c.pick(std::vector<size_t>{300, 3000, 40000, 70000, 300000});
    double offset = c.pick(std::vector<double>{0, 100, 1e5}), step = c.pick(std::vector<double>{1, 0.125, 1000, 0});
    uint64_t x = c.bits(32) | 1, drift = c.u(3);
    NOTE(n << " measurements over " << labels << " labels, offset " << offset << " step " << step << " drift " << drift);
    for (size_t k = 0; k < n; ++k) {
        x = x * 6364136223846793005ULL + 1442695040888963407ULL;
        std::string l = "f.cpp_g_" + std::to_string((x >> 33) % labels);
        double t = offset + step * (double)((x >> 45) % 1000) + (double)(drift * k) / 100;
        p.updateStat(l, t);
        m[l].push_back(t);
    }
    judge(c, p, m);
}
static void spin(uint64_t n) {
    volatile uint64_t x = 0;
    for (uint64_t k = 0; k < n; ++k) x = x + k;
}
using Clock = std::chrono::steady_clock;
static double ms(Clock::duration d) { return std::chrono::duration<double, std::milli>(d).count(); }
static Row of(pbt::Ctx& c, const std::string& l) {
    auto s = stats(c, rofl::Profiler::getProfiler());
    return s.count(l) ? s[l] : Row{0, 0, 0, 0, 0};
}
// One timing attempt; an empty string when it held.  A step of the system clock may spoil an attempt, a defect spoils them all.
static void attempts(pbt::Ctx& c, std::function<std::string()> f) {
    std::string e;
    for (int k = 0; k < 3; ++k)
        if ((e = f()).empty()) return;
    PFAIL(e);
}
#define TRY(cond, msg) \
    if (!(cond)) { \
        std::ostringstream o; \
        o << msg; \
        return o.str(); \
    }
FACET(timers, 4000, 40000) {
    std::string l = c.pick(std::vector<std::string>{"t0", "t1", "t2"});
    uint64_t n1 = c.small(20000), n2 = c.small(20000);
    NOTE("timer " << l << " work " << n1 << " " << n2);
    attempts(c, [&]() -> std::string {
        Row before = of(c, l);
        double lo, hi, e, elo, ehi;
        {
            auto t0 = Clock::now();
            Clock::time_point t1, t2;
            {
                rofl::ScopedTimer t(l);
                t1 = Clock::now();
                spin(n1);
                auto a = Clock::now();
                e = t.elapsedTimeMs();
                auto b = Clock::now();
                elo = ms(a - t1), ehi = ms(b - t0);
                spin(n2);
                t2 = Clock::now();
            }
            auto t3 = Clock::now();
            lo = ms(t2 - t1);
            hi = ms(t3 - t0);
        }
        TRY(e >= elo - 1e-3 && e <= ehi + 1e-3, "elapsed " << e << " ms, between clock readings " << elo << " and " << ehi);
        Row after = of(c, l);
        TRY(after.count == before.count + 1, "a timer adds one measurement: " << before.count << " -> " << after.count);
        // the new measurement from the means
        double x = after.avg * after.count - before.avg * before.count;
        double tol = 1e-3 + 1e-9 * (std::fabs(after.avg) * after.count);
        TRY(x >= lo - tol && x <= hi + tol, "the stored time " << x << " ms is not in [" << lo << "," << hi << "] of the scope");
        return "";
    });
    c.nontrivial(n1 + n2 > 100);
}
// Nested and interleaved timers over a clock moved by the test: exact durations, from nanoseconds to weeks.
FACET(clockModel, 20000, 400000) {
    FakeClock fc;
    struct Open {
        std::string label;
        long long start;
        std::unique_ptr<rofl::ScopedTimer> t;
    };
    std::vector<Open> open;
    std::map<std::string, std::vector<double>> m;
    std::map<std::string, Row> before = stats(c, rofl::Profiler::getProfiler());
    static const std::vector<std::string> labels{"v0", "v1", "v2"};
    auto loop = c.loop(20);
    bool moved = false;
    auto close = [&](size_t k) {
        NOTE("end of timer " << k << " (" << open[k].label << ")");
        m[open[k].label].push_back((double)(fakeNs - open[k].start) / 1e6);
        open.erase(open.begin() + k);
    };
    while (loop.more()) {
        switch (c.w({3, 4, 2, 2})) {
            case 0: {
                std::string l = c.pick(labels);
                NOTE("timer " << l << " at " << fakeNs << " ns");
                open.push_back({l, fakeNs, std::unique_ptr<rofl::ScopedTimer>(new rofl::ScopedTimer(l))});
                break;
            }
            case 1: {
                long long d = (long long)c.u(1000) << c.u(41);
                NOTE("clock + " << d << " ns");
                fakeNs += d;
                moved = moved || d > 0;
                break;
            }
            case 2:
                if (!open.empty()) {
                    size_t k = c.index(open.size());
                    double e = open[k].t->elapsedTimeMs(), x = (double)(fakeNs - open[k].start) / 1e6;
                    REQUIRE(std::fabs(e - x) <= 1e-12 * x + 1e-9, "elapsedTimeMs " << e << " after " << x << " ms");
                }
                break;
            default:
                if (!open.empty()) close(c.index(open.size()));
        }
    }
    while (!open.empty()) close(open.size() - 1);
    auto after = stats(c, rofl::Profiler::getProfiler());
    for (auto& l : labels) {
        Row b = before.count(l) ? before[l] : Row{0, 0, 0, 0, 0}, a = after.count(l) ? after[l] : Row{0, 0, 0, 0, 0};
        double sum = b.avg * b.count, mn = b.mn, mx = b.mx;
        bool any = b.count > 0;
        for (double x : m[l]) {
            sum += x;
            mn = any ? std::min(mn, x) : x;
            mx = any ? std::max(mx, x) : x;
            any = true;
        }
        REQUIRE(a.count == b.count + (long)m[l].size(), l << ": " << a.count - b.count << " measurements of " << m[l].size() << " timers");
        REQUIRE(std::fabs(a.avg * a.count - sum) <= 1e-9 * std::fabs(sum) + 1e-6, l << ": the measurements sum to " << a.avg * a.count << " ms expected " << sum);
        REQUIRE(std::fabs(a.mn - mn) <= 1e-12 * mn + 1e-9 && std::fabs(a.mx - mx) <= 1e-12 * mx + 1e-9, l << ": min " << a.mn << " max " << a.mx << " expected " << mn << " " << mx);
    }
    c.nontrivial(moved && m.size() > 0);
}
static void timedByMacro(uint64_t n, Clock::time_point& t1, Clock::time_point& t2) {
    ROFL_COMMON_PROFILER_SCOPED_TIMER_HERE
    t1 = Clock::now();
    spin(n);
    t2 = Clock::now();
}
FACET(macro, 1500, 15000) {
    auto total = [&](long& count, std::string& label) {
        double sum = 0;
        count = 0;
        for (auto& kv : stats(c, rofl::Profiler::getProfiler()))
            if (kv.first.find("timedByMacro") != std::string::npos) {
                sum += kv.second.avg * kv.second.count;
                count += kv.second.count;
                label = kv.first;
            }
        return sum;
    };
    uint64_t n = 5000 + c.small(60000);
    NOTE("macro timer, work " << n);
    attempts(c, [&]() -> std::string {
        long c0, c1;
        std::string label;
        double s0 = total(c0, label);
        Clock::time_point t0 = Clock::now(), t1, t2;
        timedByMacro(n, t1, t2);
        Clock::time_point t3 = Clock::now();
        double s1 = total(c1, label), tol = 1e-3 + 1e-9 * std::fabs(s1);
        TRY(c1 == c0 + 1, "the macro adds one measurement labelled with the function: " << c0 << " -> " << c1);
        TRY(label.find("C15_profiler.cpp") != std::string::npos, "label " << label << " names the file");
        TRY(s1 - s0 >= ms(t2 - t1) - tol && s1 - s0 <= ms(t3 - t0) + tol, "stored " << s1 - s0 << " ms, the rest of the scope took " << ms(t2 - t1) << ", the call " << ms(t3 - t0));
        return "";
    });
    c.nontrivial();
}
FACET(debugMacros, 2000, 20000) {
    long a = c.i(-99, 99), b = c.i(-99, 99), d = c.i(-99, 99), e = c.i(-99, 99), f = c.i(-99, 99), g = c.i(-99, 99), h = c.i(-99, 99);
    std::vector<long> v{a, b, d, e, f, g, h};
    const char* names[] = {"a", "b", "d", "e", "f", "g", "h"};
    int n = 1 + (int)c.u(7);
    std::ostringstream os, ex;
    auto* old = std::cout.rdbuf(os.rdbuf());
    switch (n) {
        case 1: ROFL_VAR1(a); break;
        case 2: ROFL_VAR2(a, b); break;
        case 3: ROFL_VAR3(a, b, d); break;
        case 4: ROFL_VAR4(a, b, d, e); break;
        case 5: ROFL_VAR5(a, b, d, e, f); break;
        case 6: ROFL_VAR6(a, b, d, e, f, g); break;
        default: ROFL_VAR7(a, b, d, e, f, g, h); break;
    }
    std::cout.rdbuf(old);
    for (int k = 0; k < n; ++k) ex << (k ? ", " : " ") << names[k] << " " << v[k];
    ex << "\n";
    std::string s = os.str();
    size_t p = s.find(": ");
    NOTE("ROFL_VAR" << n << " of " << pbt::show(v));
    REQUIRE(p != std::string::npos && s.compare(0, 16, "C15_profiler.cpp") == 0, "output \"" << s << "\" names the file");
    REQUIRE(s.substr(p + 1) == ex.str(), "ROFL_VAR" << n << " printed \"" << s << "\" expected the pairs" << ex.str());
    c.nontrivial(n > 1);
}
