//@ fuzz: 100000
// C14: typed parameters, containers and the home directory.
#include "pbt.h"
#include <rofl/common/param_map.h>
#include <cmath>
#include <iomanip>
#include <iterator>
#include <list>
#include <map>

PBT_PROPERTY("C14",
             "random values of the parameter types set and read back, read with a default when missing, delimited lists read into fixed "
             "ranges and inserters (too short, too long, missing, custom delimiters), and random maps through adaptTildeInPaths with random "
             "HOME. Non-trivial: a value away from 0/empty, a list with two or more items, a map with a tilde path and another value.")

template <class T>
static bool close(T a, T b) { return a == b; }
static bool close(double a, double b) { return a == b || std::fabs(a - b) <= 1e-5 * std::fabs(b); }
static bool close(float a, float b) { return a == b || std::fabs(a - b) <= 1e-5f * std::fabs(b); }

template <class T>
static void access(pbt::Ctx& c, const T& v, const T& other) {
    rofl::ParamMap pm;
    T got = other;
    pm.setParam("x1", other);
    bool present = c.b();
    if (present) {
        pm.setParam("x", other);
        pm.setParam("x", v);  // the last one counts
        REQUIRE(pm.getParam("x", got, other), "getParam of a present parameter returns false");
        REQUIRE(close(got, v), "read back " << got << " after setting " << v);
    } else {
        REQUIRE(!pm.getParam("x", got, v), "getParam of a missing parameter returns true");
        REQUIRE(got == v, "default " << v << " gives " << got);
    }
    T again = other;
    REQUIRE(pm.getParam("x", again, other), "the parameter is missing at the second read");
    REQUIRE(close(again, v), "second read gives " << again << " expected " << v);
    // the variable as its own default
    T self = v;
    REQUIRE(pm.getParam("x", self, self) && close(self, v), "getParam with the variable as its default gives " << self << " expected " << v);
    self = v;
    REQUIRE(!pm.getParam("none", self, self) && self == v, "missing parameter with the variable as its default gives " << self << " expected " << v);
    pm.getParam("x1", again, v);
    REQUIRE(close(again, other), "another parameter changed to " << again << " expected " << other);
    pm.clear();
    REQUIRE(!pm.getParam("x1", again, v) && again == v, "after clear the default is not given");
}
static std::string genStr(pbt::Ctx& c) {
    static const std::string al = "abcXYZ 019.,;~/-_#[]\t\n\"";
    std::string s;
    size_t n = c.b(1, 40) ? c.len(16, 3000) : c.len(0, 15);
    for (size_t k = 0; k < n; ++k) s += al[c.u(al.size())];
    return s;
}
FACET(typed, 600000, 2000000) {
    switch (c.u(14)) {
        case 10: { long long v = (long long)c.bits(64), o = 3; NOTE("long long " << v); c.nontrivial(v != 0); access<long long>(c, v, o); break; }
        case 11: { unsigned short v = (unsigned short)c.bits(16), o = 3; NOTE("unsigned short " << v); c.nontrivial(v != 0); access<unsigned short>(c, v, o); break; }
        case 12: {
            static const std::vector<double> ext{1.7976931348623157e308, -1.7976931348623157e308, 2.2250738585072014e-308, 1e300, -1e-300, 123456, 1234560, 999999.5, 9999995, 0.0001, 0.00001, 1e22, HUGE_VAL, -HUGE_VAL, 100000, 1e6, 0.1, 2147483648.0};
            double v = c.pick(ext), o = 0.25;
            NOTE("double " << v);
            c.nontrivial();
            access<double>(c, v, o);
            break;
        }
        case 13: {
            static const std::vector<float> ext{3.40282347e38f, -3.40282347e38f, 1.17549435e-38f, 1e30f, -1e-30f, 123456, 1234560, 16777216, 0.0001f, HUGE_VALF, -HUGE_VALF, 0.1f};
            float v = c.pick(ext), o = 0.25f;
            NOTE("float " << v);
            c.nontrivial();
            access<float>(c, v, o);
            break;
        }
        case 0: { int v = (int)c.bits(32), o = (int)c.i(-5, 5); NOTE("int " << v); c.nontrivial(v != 0); access<int>(c, v, o); break; }
        case 1: { long v = (long)c.bits(64), o = (long)c.i(-5, 5); NOTE("long " << v); c.nontrivial(v != 0); access<long>(c, v, o); break; }
        case 2: { unsigned v = (unsigned)c.bits(32), o = (unsigned)c.u(5); NOTE("unsigned " << v); c.nontrivial(v != 0); access<unsigned>(c, v, o); break; }
        case 3: { size_t v = (size_t)c.bits(64), o = (size_t)c.u(5); NOTE("size_t " << v); c.nontrivial(v != 0); access<size_t>(c, v, o); break; }
        case 4: { short v = (short)c.bits(16), o = (short)c.i(-5, 5); NOTE("short " << v); c.nontrivial(v != 0); access<short>(c, v, o); break; }
        case 5: { bool v = c.b(), o = c.b(); NOTE("bool " << v); c.nontrivial(v); access<bool>(c, v, o); break; }
        case 6: {
            double v = (double)c.i(-2000000, 2000000) * std::pow(10.0, (double)c.i(-12, 9)), o = 0.5;
            NOTE("double " << v);
            c.nontrivial(v != 0);
            access<double>(c, v, o);
            break;
        }
        case 7: {
            float v = (float)((double)c.i(-2000000, 2000000) * std::pow(10.0, (double)c.i(-10, 6))), o = 0.5f;
            NOTE("float " << v);
            c.nontrivial(v != 0);
            access<float>(c, v, o);
            break;
        }
        case 8: { char v = (char)(1 + c.u(127)), o = 'q'; NOTE("char " << v); c.nontrivial(); access<char>(c, v, o); break; }
        default: { std::string v = genStr(c), o = genStr(c); NOTE("string \"" << v << "\""); c.nontrivial(v.size() > 1); access<std::string>(c, v, o); break; }
    }
}

// texts of list items and their values
template <class T>
static T item(pbt::Ctx& c, std::string& s);
template <>
int item<int>(pbt::Ctx& c, std::string& s) {
    int v = c.b(1, 10) ? (int)c.bits(32) : (int)c.ismall(-100000, 100000);
    s = std::to_string(v);
    if (v >= 0 && c.b(1, 12)) s = "+" + s;
    else if (v >= 0 && c.b(1, 12)) s = "00" + s;
    return v;
}
template <>
double item<double>(pbt::Ctx& c, std::string& s) {
    int64_t q = c.ismall(-100000, 100000);
    double v = (double)q / 16;
    std::ostringstream os;
    if (c.b(1, 4)) os << (c.b() ? std::scientific : std::fixed);
    os << std::setprecision(17) << v;
    s = os.str();
    if (v > 0 && c.b(1, 12)) s = "+" + s;
    if (v > 0 && v < 1 && s[0] == '0' && c.b()) s = s.substr(1);
    return v;
}
template <>
std::string item<std::string>(pbt::Ctx& c, std::string& s) {
    static const std::string al = "abcXYZ019._-";
    size_t n = c.len(1, 6);
    for (size_t k = 0; k < n; ++k) s += al[c.u(al.size())];
    return s;
}
// a string item may have any character that is not a delimiter
template <class T>
static void odd(pbt::Ctx&, T&, std::string&, const std::string&) {}
static void odd(pbt::Ctx& c, std::string& v, std::string& s, const std::string& delim) {
    if (!c.b(1, 5)) return;
    size_t n = 1 + c.small(3);
    for (size_t k = 0; k < n; ++k) {
        char ch = " ;:|{}()\t'\"\\=,[]/"[c.u(18)];
        if (delim.find(ch) == std::string::npos) s.insert(c.u(s.size() + 1), 1, ch);
    }
    v = s;
}
template <class T>
static void lists(pbt::Ctx& c) {
    size_t n = c.b(1, 30) ? c.len(10, c.b(1, 8) ? 3000 : 200) : c.len(0, 9), cap = c.b(1, 30) ? c.len(10, c.b(1, 8) ? 3000 : 200) : c.len(0, 9);
    bool custom = c.b(1, 3);
    std::string delim = custom ? c.pick(std::vector<std::string>{";", " ", "{};", "[], ", ":|"}) : "[],";
    std::vector<T> vals;
    std::string text;
    bool brackets = !custom && c.b();
    if (brackets) text = "[";
    for (size_t k = 0; k < n; ++k) {
        std::string s;
        vals.push_back(item<T>(c, s));
        odd(c, vals.back(), s, delim);
        if (k || c.b(1, 6)) {
            size_t m = 1 + c.small(3);
            for (size_t j = 0; j < m; ++j) text += delim[c.u(delim.size())];
        }
        text += s;
    }
    if (brackets) text += "]";
    std::string ds;
    T dflt = item<T>(c, ds);
    c.nontrivial(n >= 2);
    rofl::ParamMap pm;
    int mode = (int)c.u(3);
    NOTE("list \"" << text << "\" delimiters \"" << delim << "\" into " << cap << " places, mode " << mode);
    auto expect = [&](size_t size) {
        std::vector<T> e(size, dflt);
        for (size_t k = 0; k < size && k < n; ++k) e[k] = vals[k];
        return e;
    };
    std::string ignored;
    T junk = item<T>(c, ignored);
    if (mode == 0) {  // present, fixed range
        pm.setParamString("list", text);
        std::vector<T> v(cap, junk);
        bool r = custom ? pm.getParamContainer("list", v.begin(), v.end(), ignored, dflt, delim) : pm.getParamContainer("list", v.begin(), v.end(), ignored, dflt);
        REQUIRE(r, "getParamContainer of a present parameter returns false");
        REQUIRE(v == expect(cap), "got " << pbt::show(v) << " expected " << pbt::show(expect(cap)));
    } else if (mode == 1) {  // missing: default text, kept for the next read
        std::list<T> l(cap, junk);
        REQUIRE(!pm.getParamContainer("list", l.begin(), l.end(), text, dflt, delim), "getParamContainer of a missing parameter returns true");
        std::vector<T> v(l.begin(), l.end());
        REQUIRE(v == expect(cap), "default text gives " << pbt::show(v) << " expected " << pbt::show(expect(cap)));
        std::vector<T> v2(cap + 1, junk);
        REQUIRE(pm.getParamContainer("list", v2.begin(), v2.end(), ignored, dflt, delim), "second read of the default says missing");
        REQUIRE(v2 == expect(cap + 1), "second read gives " << pbt::show(v2) << " expected " << pbt::show(expect(cap + 1)));
    } else {
        std::vector<T> v;
        pm.setParamString("list", text);
        bool r = custom ? pm.template getParamContainerInserter<T>("list", std::back_inserter(v), dflt, delim) : pm.template getParamContainerInserter<T>("list", std::back_inserter(v), dflt);
        REQUIRE(r, "getParamContainerInserter of a present parameter returns false");
        REQUIRE(v == vals, "inserter got " << pbt::show(v) << " expected " << pbt::show(vals));
        std::vector<T> e;
        REQUIRE(!pm.template getParamContainerInserter<T>("other", std::back_inserter(e), dflt), "getParamContainerInserter of a missing parameter returns true");
        REQUIRE(e.empty(), "a missing list gives items");
        REQUIRE(pm.template getParamContainerInserter<T>("other", std::back_inserter(e), dflt) && e.empty(), "the second read of a missing list says missing, or gives items");
    }
}
template <>
long item<long>(pbt::Ctx& c, std::string& s) {
    long v = (long)c.bits(64);
    s = std::to_string(v);
    return v;
}
template <>
char item<char>(pbt::Ctx& c, std::string& s) {
    s = std::string(1, (char)('a' + c.u(26)));
    return s[0];
}
FACET(containers, 400000, 1500000) {
    switch (c.u(5)) {
        case 3: lists<long>(c); break;
        case 4: lists<char>(c); break;
        case 0: lists<int>(c); break;
        case 1: lists<double>(c); break;
        default: lists<std::string>(c); break;
    }
}
FACET(tilde, 200000, 800000) {
    static const std::string al = "ab~/.~_x";
    auto path = [&] {
        std::string s;
        size_t n = c.len(0, 10);
        for (size_t k = 0; k < n; ++k) s += al[c.u(al.size())];
        return s;
    };
    std::string home = c.pick(std::vector<std::string>{"/home/u", "/root", "/h", "/home/a~b", "/very/long/home/directory/path/of/somebody"});
    std::map<std::string, std::string> m;
    rofl::ParamMap pm;
    size_t n = c.b(1, 40) ? c.len(9, 60) : c.len(0, 8);
    bool tilde = false, other = false;
    for (size_t k = 0; k < n; ++k) {
        std::string key = c.pick(std::vector<std::string>{"a", "b", "cc", "d1", "~", "z", "path", "other", "q"}) + (n > 8 ? std::to_string(c.u(60)) : ""), v;
        switch (c.w({4, 4, 1, 1})) {
            case 3: v = "~" + path(); break;  // ~name is not a path of the home directory
            case 0: v = "~/" + path(); tilde = true; break;
            case 1:
                v = path();
                other = true;
                break;
            default: v = "~"; tilde = true; break;
        }
        pm.setParamString(key, v);
        m[key] = v;
    }
    NOTE("HOME=" << home << " map " << [&] { std::string s; for (auto& kv : m) s += kv.first + "=" + kv.second + " "; return s; }());
    c.nontrivial(tilde && other);
    if (c.b(1, 16)) {
        // no home directory known: nothing to put in place of the tilde
        NOTE("HOME unset");
        std::ostringstream before, after;
        pm.write(before);
        unsetenv("HOME");
        pm.adaptTildeInPaths();
        pm.write(after);
        REQUIRE(before.str() == after.str(), "without HOME adaptTildeInPaths changes the map to " << after.str());
    }
    setenv("HOME", home.c_str(), 1);
    pm.adaptTildeInPaths();
    for (auto& kv : m)
        if (kv.second == "~" || kv.second.compare(0, 2, "~/") == 0) kv.second = home + "/" + (kv.second.size() > 2 ? kv.second.substr(2) : "");
    std::ostringstream os, ex;
    pm.write(os);
    for (auto& kv : m) ex << kv.first << " " << kv.second << "\n";
    REQUIRE(os.str() == ex.str(), "after adaptTildeInPaths: " << os.str() << " expected: " << ex.str());
    pm.adaptTildeInPaths();
    std::ostringstream o2;
    pm.write(o2);
    REQUIRE(o2.str() == ex.str(), "a second adaptTildeInPaths changes the map");
}
// a number as people write it
FACET(spellings, 60000, 600000) {
    rofl::ParamMap pm;
    std::string s;
    if (c.b()) {
        int v = item<int>(c, s), got = 7;
        NOTE("int from \"" << s << "\"");
        pm.setParamString("x", s);
        REQUIRE(pm.getParam("x", got, 5) && got == v, "text \"" << s << "\" gives " << got);
        c.nontrivial(v != 0);
    } else {
        double v = item<double>(c, s), got = 7;
        NOTE("double from \"" << s << "\"");
        pm.setParamString("x", s);
        REQUIRE(pm.getParam("x", got, 5.0) && got == v, "text \"" << s << "\" gives " << got);
        c.nontrivial(v != 0);
    }
    std::ostringstream os;
    pm.write(os);
    REQUIRE(os.str() == "x " + s + "\n", "reading a parameter changes its text to " << os.str());
}
template <class T>
static void notOfType(pbt::Ctx& c, T before, T dflt, const std::string& text) {
    rofl::ParamMap pm;
    pm.setParamString("k", "7");
    pm.setParamString("x", text);
    std::ostringstream a, b;
    pm.write(a);
    T v = before;
    pm.getParam("x", v, dflt);
    pm.write(b);
    REQUIRE(v == before, "text \"" << text << "\" changes the variable from " << before << " to " << v);
    REQUIRE(a.str() == b.str(), "text \"" << text << "\": the map changes to " << b.str());
}
// an item that is not a number ends the list there
template <class T>
static void badItem(pbt::Ctx& c) {
    size_t n = c.len(1, 8), bad = c.u(n), cap = c.len(0, 10);
    std::vector<T> vals;
    std::string text;
    for (size_t k = 0; k < n; ++k) {
        std::string s;
        T v = item<T>(c, s);
        if (k < bad) vals.push_back(v);
        if (k == bad) s = c.pick(std::vector<std::string>{"abc", "1x", "--3", "x1", "~/3", "+", "-", "1;5", "."});
        text += (k ? "," : "") + s;
    }
    std::string ds;
    T dflt = item<T>(c, ds);
    NOTE("list \"" << text << "\" with a bad item at " << bad << " into " << cap << " places");
    c.nontrivial(bad > 0 && cap > bad);
    std::vector<T> e(cap, dflt), v(cap, T(77)), w;
    for (size_t k = 0; k < cap && k < bad; ++k) e[k] = vals[k];
    rofl::ParamMap pm;
    bool present = c.b();
    if (present) pm.setParamString("list", text);
    REQUIRE(pm.getParamContainer("list", v.begin(), v.end(), text, dflt) == present, "presence of the list");
    REQUIRE(v == e, "got " << pbt::show(v) << " expected " << pbt::show(e));
    REQUIRE(pm.template getParamContainerInserter<T>("list", std::back_inserter(w), dflt), "the list is missing at the second read");
    REQUIRE(w == vals, "inserter got " << pbt::show(w) << " expected " << pbt::show(vals));
    std::ostringstream os;
    pm.write(os);
    REQUIRE(os.str() == "list " + text + "\n", "reading the list changes its text to " << os.str());
}
FACET(badItems, 40000, 400000) {
    if (c.b())
        badItem<int>(c);
    else
        badItem<double>(c);
}
FACET(wrongText, 20000, 200000) {
    std::string t = c.pick(std::vector<std::string>{"abc", "1x", "--3", "", "x1", "[1]", "1 2", "~/3", "+", "-", "1,5"});
    int before = (int)c.i(-50, 50), dflt = (int)c.i(-50, 50);
    NOTE("\"" << t << "\" read as a number, before " << before);
    c.nontrivial(before != dflt && before != 0);
    switch (c.u(4)) {
        case 0: notOfType<int>(c, before, dflt, t); break;
        case 1: notOfType<double>(c, before, dflt, t); break;
        case 2: notOfType<float>(c, (float)before, (float)dflt, t); break;
        default: notOfType<long>(c, before, dflt, t); break;
    }
}
