//@ fuzz: 20000
// C20: directory listing and time stamped names.
#include "pbt.h"
#include "scratch.h"
#include <rofl/common/io.h>
#include <algorithm>
#include <ctime>
#include <filesystem>
#include <fstream>
#include <set>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

PBT_PROPERTY("C20",
             "scratch directories with random entries (files with odd names, hidden files, sub-directories with files, links to files, "
             "directories and nothing, fifos) listed through several spellings of the path and compared with the entries made; stamped "
             "names for random times (the clock is replaced), zones, prefixes and postfixes compared with the calendar fields. "
             "Non-trivial: two or more regular files and another entry; a time with a nonempty prefix or postfix.")

namespace fs = std::filesystem;

// a replaceable clock
static bool fakeOn = false;
static long long fakeNow = 0;
extern "C" time_t time(time_t* t) {
    time_t v;
    if (fakeOn)
        v = (time_t)fakeNow;
    else {
        struct timespec ts;
        syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
        v = ts.tv_sec;
    }
    if (t) *t = v;
    return v;
}
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) {
    if (fakeOn && id == CLOCK_REALTIME) {
        ts->tv_sec = (time_t)fakeNow;
        ts->tv_nsec = 500000000;
        return 0;
    }
    return (int)syscall(SYS_clock_gettime, id, ts);
}
extern "C" int gettimeofday(struct timeval* tv, void*) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}

static struct Init {
    Init() { pbt::onWorkerEnd = scratch::clean; }
} init;

static std::string genName(pbt::Ctx& c) {
    static const std::string al = "abcABC019._- ~%#";
    std::string s;
    if (c.b(1, 10)) s = ".";
    size_t n = c.b(1, 40) ? c.len(9, 200) : c.len(1, 8);
    for (size_t k = 0; k < n; ++k) s += al[c.u(al.size())];
    if (c.b(1, 4)) s += c.pick(std::vector<std::string>{".txt", ".cfg", ".csv", ".d", "é", "~"});
    if (s == "." || s == "..") s = "x" + s;
    return s;
}
FACET(listing, 20000, 120000) {
    std::string dir = scratch::dir() + "/d";
    fs::remove_all(dir);
    fs::create_directory(dir);
    std::string out = scratch::dir() + "/b_out";
    if (!fs::exists(out)) {
        fs::create_directory(out);
        std::ofstream(out + "/f") << "x";
    }
    std::set<std::string> names, files;
    std::string last;
    size_t n = c.b(1, 100) ? c.len(13, 300) : c.len(0, 12);
    int other = 0;
    for (size_t k = 0; k < n; ++k) {
        std::string s = genName(c);
        if (!names.insert(s).second) continue;
        std::string p = dir + "/" + s;
        switch (c.w({6, 2, 1, 1, 1, 1, 1, 1})) {
            case 0: std::ofstream(p) << (c.b() ? "data" : ""); files.insert(s); NOTE("file " << s); break;
            case 1:
                fs::create_directory(p);
                if (c.b()) std::ofstream(p + "/inner") << "x";
                ++other;
                NOTE("directory " << s);
                break;
            case 2: fs::create_symlink(out + "/f", p); files.insert(s); NOTE("link to a file " << s); break;
            case 3: fs::create_symlink(out, p); ++other; NOTE("link to a directory " << s); break;
            case 4: fs::create_symlink(c.pick(std::vector<std::string>{out + "/missing", out + "/missing", s, out + "/f/x"}), p); ++other; NOTE("dangling or looping link " << s); break;
            case 5:
                fs::create_hard_link(out + "/f", p);
                files.insert(s);
                NOTE("hard link " << s);
                break;
            case 6: {  // unusual mode, size or age
                std::ofstream(p) << "data";
                chmod(p.c_str(), c.pick(std::vector<int>{0, 0400, 0755, 04755, 0222, 01644}));
                if (c.b(1, 3)) truncate(p.c_str(), (off_t)c.pick(std::vector<long>{4096, 1L << 20, 3L << 30}));
                if (c.b(1, 3)) {
                    struct timeval tv[2] = {{0, 0}, {(time_t)c.pick(std::vector<long>{0, 1000, 4000000000L}), 0}};
                    utimes(p.c_str(), tv);
                }
                files.insert(s);
                NOTE("file with unusual attributes " << s);
                break;
            }
            default: mkfifo(p.c_str(), 0600); ++other; NOTE("fifo " << s); break;
        }
    }
    std::string arg = c.pick(std::vector<std::string>{dir, dir + "/", scratch::dir() + "/./d", scratch::dir() + "/b_out/../d", "d", "./d", "d/"});
    std::vector<std::string> got, exp;
    if (c.b(1, 4)) {
        NOTE("a list that is not empty");
        got = exp = c.b() ? std::vector<std::string>{"zz/last", "0first", "/x/y"} : std::vector<std::string>{"zz"};
    }
    if (arg[0] != '/') {
        auto cwd = fs::current_path();
        fs::current_path(scratch::dir());
        rofl::getDirectoryFiles(arg, got);
        fs::current_path(cwd);
    } else
        rofl::getDirectoryFiles(arg, got);
    for (auto& s : files) exp.push_back((fs::path(arg) / s).string());
    std::sort(exp.begin(), exp.end());
    // a second directory into the same vector: the list holds both, sorted
    if (c.b(1, 3)) {
        NOTE("a second directory listed into the same vector");
        rofl::getDirectoryFiles(out, got);
        exp.push_back(out + "/f");
        std::sort(exp.begin(), exp.end());
    }
    REQUIRE(got == exp, "listing of " << arg << ": " << pbt::show(got) << " expected " << pbt::show(exp));
    c.nontrivial(files.size() >= 2 && other > 0);
}
static std::string two(int v) { return (v < 10 ? "0" : "") + std::to_string(v); }
static std::string stamp(long long t) {
    time_t tt = (time_t)t;
    struct tm m;
    localtime_r(&tt, &m);
    return std::to_string(m.tm_year + 1900) + two(m.tm_mon + 1) + two(m.tm_mday) + "_" + two(m.tm_hour) + two(m.tm_min) + "_" + two(m.tm_sec);
}
FACET(stamps, 200000, 1500000) {
    std::string tz = c.pick(std::vector<std::string>{"UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "JST-9", "NPT-5:45", "AAA12", "BBB-14", "CHA-12:45"});
    setenv("TZ", tz.c_str(), 1);
    tzset();
    long long t = c.b(1, 10) ? (long long)c.u(4000) * 86400 * 10 - (long long)c.u(3) : (long long)c.u(4000000000u);
    static const std::string al = "ab_%Y%S./- \\{}";
    std::string a, b;
    for (size_t k = c.b(1, 30) ? c.len(9, 400) : c.len(0, 8); k > 0; --k) a += al[c.u(al.size())];
    for (size_t k = c.b(1, 30) ? c.len(9, 400) : c.len(0, 8); k > 0; --k) b += al[c.u(al.size())];
    int how = (int)c.u(4);
    NOTE("time " << t << " zone " << tz << " prefix \"" << a << "\" postfix \"" << b << "\" form " << how);
    if (how == 0) a = b = "";
    if (how == 1) b = "";
    for (int call = 0; call < 3; ++call) {
    if (call) {
        if (c.b(2, 3)) break;
        t += c.pick(std::vector<long long>{0, 1, 59, 60, 3599, 3600, 86400});  // soon after
        NOTE("again at " << t);
    }
    long long r0 = (long long)time(nullptr);
    fakeNow = t;
    fakeOn = true;
    std::string got = how == 0 ? rofl::generateStampedString() : how == 1 ? rofl::generateStampedString(a) : rofl::generateStampedString(a, b);
    fakeOn = false;
    long long r1 = (long long)time(nullptr);
    bool ok = got == a + stamp(t) + b;
    for (long long r = r0; r <= r1 && !ok; ++r) ok = got == a + stamp(r) + b;  // a clock that is not replaced
    REQUIRE(ok, "stamped \"" << got << "\" expected \"" << a + stamp(t) + b << "\"");
    }
    c.nontrivial(!a.empty() || !b.empty());
}
