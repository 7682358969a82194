//@ fuzz: 100000
// C13: ParamMap as a map from names to values, filled from text, files and command lines.
#include "pbt.h"
#include "scratch.h"
#include <rofl/common/param_map.h>
#include <cctype>
#include <set>
#include <fstream>
#include <map>
#include <sstream>

PBT_PROPERTY("C13",
             "random histories of read (generated configuration text with indentation, comments, partial lines, extra words, CRLF, very long "
             "lines, missing final newline; from streams, files and command lines), set, get, clear and write on a ParamMap, mirrored on a "
             "std::map by an independent parser; the whole map is compared after every step through write. Non-trivial: two reads and three "
             "distinct names.")

static struct Init {
    Init() {
        pbt::onWorkerEnd = scratch::clean;
    }
} init;

using Model = std::map<std::string, std::string>;

// characters of a word: anything that is not white space or a control character
static std::string word(pbt::Ctx& c, bool key) {
    static const std::string first = "abcxyz_AZ/.~0129-+\"[é";
    static const std::string rest = "abcd_09.-#=:,/[]~'\"$%&()\\ZY*";
    std::string s;
    if (c.b(2, 3)) {
        s = c.pick(std::vector<std::string>{"a", "b", "ab", "key", "key2", "abc", "B", "fileName", "k.x", "k-1"});
        if (key) return s;
    }
    if (!key && c.b(1, 12)) return c.pick(std::vector<std::string>{"=", ":", "->", "''", "\"a\"", "'b'", ";", ",", "\\", "$HOME", "true", "nan"});
    if (!key && c.b(1, 60)) {  // very long value
        size_t n = c.pick(std::vector<size_t>{500, 1990, 1996, 1997, 1998, 1999, 2000, 2001, 2010, 4100, 10000});
        return std::string(n, 'v') + "w";
    }
    if (key && c.b(1, 3)) return c.pick(std::vector<std::string>{"p", "q", "key", "K"}) + std::to_string(c.u(200));  // many names
    size_t n = c.b(1, 30) ? c.len(13, 400) : c.len(1, 12);
    s.clear();
    for (size_t k = 0; k < n; ++k) s += k == 0 ? first[c.u(first.size() - 2)] : rest[c.u(rest.size())];
    if (!key && c.b(1, 10)) s = "#" + s;
    return s;
}
static std::string blanks(pbt::Ctx& c, bool some) {
    std::string s;
    size_t n = some ? 1 + c.small(4) : c.small(4);
    for (size_t k = 0; k < n; ++k) s += c.b(3, 4) ? ' ' : '\t';
    return s;
}
static std::string line(pbt::Ctx& c) {
    std::string s;
    switch (c.w({8, 2, 2, 1, 1, 1})) {
        case 0: s = blanks(c, false) + word(c, true) + blanks(c, true) + word(c, false) + blanks(c, false); break;
        case 1: s = blanks(c, false) + "#" + blanks(c, false) + word(c, true) + " " + word(c, false); break;
        case 2: s = word(c, true) + " " + word(c, false) + " " + word(c, false); break;
        case 3: s = blanks(c, false) + word(c, true); break;
        case 4: s = blanks(c, false); break;
        default: {
            size_t n = c.pick(std::vector<size_t>{100, 1998, 1999, 2000, 2001, 5000});
            s = c.b() ? "# " + std::string(n, 'c') : std::string(n, ' ') + word(c, true) + " " + word(c, false);
            break;
        }
    }
    if (c.b(1, 12)) s += "\r";
    return s;
}
static std::vector<std::string> split(const std::string& s) {
    std::vector<std::string> out;
    std::string cur;
    for (char ch : s) {
        if (ch == ' ' || ch == '\t' || ch == '\r' || ch == '\n' || ch == '\v' || ch == '\f') {
            if (!cur.empty()) out.push_back(cur);
            cur.clear();
        } else
            cur += ch;
    }
    if (!cur.empty()) out.push_back(cur);
    return out;
}
static void parse(const std::string& text, Model& m) {
    size_t b = 0;
    while (b <= text.size()) {
        size_t e = text.find('\n', b);
        if (e == std::string::npos) e = text.size();
        auto w = split(text.substr(b, e - b));
        if (w.size() >= 2 && w[0][0] != '#') m[w[0]] = w[1];
        b = e + 1;
    }
}
static std::string text(pbt::Ctx& c) {
    std::string s;
    size_t n = c.b(1, 25) ? c.len(11, 300) : c.len(0, 10);
    for (size_t k = 0; k < n; ++k) s += (k ? "\n" : "") + line(c);
    if (c.b(2, 3)) s += "\n";
    return s;
}
static bool opt(const std::string& s) { return s.size() >= 2 && s[0] == '-' && ((s[1] >= 'a' && s[1] <= 'z') || (s[1] >= 'A' && s[1] <= 'Z')); }
static std::string dump(const Model& m, const std::string& prefix) {
    std::string s;
    for (auto& kv : m) s += prefix + kv.first + " " + kv.second + "\n";
    return s;
}
static std::string brief(const std::string& s) {
    std::string o;
    for (char ch : s) o += ch == '\n' ? "\\n" : ch == '\r' ? "\\r" : ch == '\t' ? "\\t" : std::string(1, ch);
    if (o.size() > 400) o = o.substr(0, 200) + "...(" + std::to_string(o.size()) + ")..." + o.substr(o.size() - 100);
    return o;
}

static void history(pbt::Ctx& c, int maxOps) {
    rofl::ParamMap pm;
    Model m;
    int reads = 0;
    std::set<std::string> names;
    auto same = [&](const char* when) {
        std::ostringstream os;
        REQUIRE(pm.write(os), "write returns false");
        REQUIRE(os.str() == dump(m, ""), when << ": the map is \"" << brief(os.str()) << "\" expected \"" << brief(dump(m, "")) << "\"");
        for (auto& kv : m) names.insert(kv.first);
    };
    auto loop = c.loop(maxOps);
    while (loop.more()) {
        switch (c.w({5, 3, 4, 3, 2, 3, 1, 2, 2, 1})) {
            case 0: {
                std::string t = text(c);
                NOTE("read stream \"" << brief(t) << "\"");
                std::istringstream is(t);
                REQUIRE(pm.read(is), "read of a stream returns false");
                parse(t, m);
                ++reads;
                break;
            }
            case 1: {
                std::string t = text(c), f = scratch::dir() + "/in.cfg";
                NOTE("read file \"" << brief(t) << "\"");
                {
                    std::ofstream of(f, std::ios::binary);
                    of << t;
                }
                REQUIRE(pm.read(f), "read of a file returns false");
                parse(t, m);
                ++reads;
                break;
            }
            case 2: {
                std::vector<std::string> args{c.b(1, 8) ? c.pick(std::vector<std::string>{"-sh", "-a", "", "./dir/prog"}) : "prog"};
                size_t n = c.b(1, 25) ? c.len(9, 120) : c.len(0, 8);
                for (size_t k = 0; k < n; ++k) {
                    switch (c.w({5, 4, 1, 1, 1})) {
                        case 0: args.push_back("-" + word(c, true)); break;
                        case 1: args.push_back(word(c, false)); break;
                        case 2: args.push_back(c.pick(std::vector<std::string>{"-", "--", "--key", "-1", "-.5", "-0", ""})); break;
                        case 3: args.push_back(std::to_string(c.i(-100, 100))); break;
                        default: args.push_back("two words"); break;
                    }
                }
                std::vector<char*> argv;
                for (auto& a : args) argv.push_back(&a[0]);
                argv.push_back(nullptr);
                NOTE("read command line " << pbt::show(args));
                REQUIRE(pm.read((int)args.size(), argv.data()), "read of a command line returns false");
                for (size_t k = 1; k + 1 < args.size(); ++k)
                    if (opt(args[k]) && !opt(args[k + 1])) m[args[k].substr(1)] = args[k + 1];
                ++reads;
                break;
            }
            case 3: {
                std::string k = word(c, true), v = c.b(1, 8) ? c.pick(std::vector<std::string>{"", " ", "  lead", "trail ", "two words", "tab\there", "# x", "= y", "\"q w\""}) : word(c, false);
                NOTE("set " << k << " = \"" << brief(v) << "\"");
                if (c.b()) pm.setParamString(k, v); else pm.setParam(k, v);
                m[k] = v;
                break;
            }
            case 4: {
                std::string k = word(c, true);
                int v = (int)c.i(-1000, 1000);
                NOTE("set " << k << " = " << v);
                pm.setParam(k, v);
                m[k] = std::to_string(v);
                break;
            }
            case 5: {
                std::string k = word(c, true), d = word(c, false), got = "?";
                bool has = m.count(k);
                NOTE("get " << k << " default " << brief(d));
                bool r = pm.getParam<std::string>(k, got, d);
                if (!has) m[k] = d;
                REQUIRE(r == has && got == m[k], "getParam(" << k << ") = \"" << brief(got) << "\" (" << r << ") expected \"" << brief(m[k]) << "\" (" << has << ")");
                break;
            }
            case 6:
                NOTE("clear");
                pm.clear();
                m.clear();
                break;
            case 7: {
                std::string p = c.pick(std::vector<std::string>{"# ", "", "  ", "//", "a b "});
                NOTE("write with prefix \"" << p << "\"");
                std::ostringstream os;
                REQUIRE(pm.write(os, p), "write with a prefix returns false");
                REQUIRE(os.str() == dump(m, p), "with prefix \"" << p << "\": \"" << brief(os.str()) << "\" expected \"" << brief(dump(m, p)) << "\"");
                break;
            }
            case 9: {  // copies are independent
                NOTE("copy");
                rofl::ParamMap q(pm), r;
                r.setParamString("old", "1");
                r = pm;
                std::string k = word(c, true), v = word(c, false);
                if (c.b()) {
                    q.setParamString(k, v);
                    r.clear();
                    same("after changes of its copies");
                } else {
                    pm.setParamString(k, v);
                    std::ostringstream oq, orr;
                    q.write(oq), r.write(orr);
                    REQUIRE(oq.str() == dump(m, "") && orr.str() == dump(m, ""), "a copy is \"" << brief(oq.str()) << "\" / \"" << brief(orr.str()) << "\" expected \"" << brief(dump(m, "")) << "\"");
                    m[k] = v;
                }
                break;
            }
            default: {  // through a file
                std::string f = scratch::dir() + "/out.cfg";
                NOTE("write and read a file");
                {  // what the file held before does not matter
                    std::ofstream of(f, std::ios::binary);
                    if (c.b()) of << text(c) << "\nleft over\n";
                }
                REQUIRE(pm.write(f), "write to a file returns false");
                rofl::ParamMap q;
                REQUIRE(q.read(f), "read of the written file returns false");
                Model plain;
                parse(dump(m, ""), plain);  // equals m unless a value is empty or has blanks
                std::ostringstream os;
                q.write(os);
                REQUIRE(os.str() == dump(plain, ""), "after a file round trip \"" << brief(os.str()) << "\" expected \"" << brief(dump(plain, "")) << "\"");
                std::string missing = scratch::dir() + "/no/such/file";
                REQUIRE(!pm.read(missing), "read of a missing file returns true");
                REQUIRE(!pm.write(missing), "write to an impossible path returns true");
                break;
            }
        }
        same("after step");
    }
    c.nontrivial(reads >= 2 && names.size() >= 3);
}
FACET(histories, 40000, 400000) { history(c, 20); }
FACET(longHistories, 1500, 40000) { history(c, 80); }
