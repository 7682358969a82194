//@ quickscale: 40
//@ fuzz: 300000
// C03: LabelSet is a mathematical set of integers.
#include "pbt.h"
#include <rofl/common/label_set.h>
#include <climits>

PBT_PROPERTY("C03",
             "random histories over four LabelSet registers (insert, remove, clear, copy, assignment, range construction, union, "
             "intersection, difference with sets and labels, equality) mirrored on std::set<int>; every result and every operand is "
             "compared after each operation. Non-trivial: some binary set operation or comparison on two non-empty operands.")

namespace other {  // a second unit-like use of the stream operator
static std::string print(const rofl::LabelSet& s) {
    std::ostringstream os;
    os << s;
    return os.str();
}
}  // namespace other

static void same(pbt::Ctx& c, const rofl::LabelSet& s, const std::set<int>& m, const char* what) {
    REQUIRE(s.size() == m.size(), what << ": size " << s.size() << " expected " << m.size());
    REQUIRE(s.empty() == m.empty(), what);
    std::vector<int> v(s.begin(), s.end());
    REQUIRE(v == std::vector<int>(m.begin(), m.end()), what << ": contents " << pbt::show(v) << " expected " << pbt::show(m));
}
static int genLabel(pbt::Ctx& c, int mode) {
    if (mode == 0) return (int)c.i(-4, 8);
    if (mode == 1) return (int)c.i(-100, 100);
    return (int)(int32_t)c.bits(32);
}

FACET(histories, 60000, 2000000) {
    rofl::LabelSet s[4];
    std::set<int> m[4];
    int mode = (int)c.w({6, 3, 2});
    auto loop = c.loop(40);
    while (loop.more()) {
        size_t a = c.u(4), b = c.u(4), d = c.u(4);
        size_t op = c.w({8, 4, 1, 2, 3, 3, 3, 2, 2, 4, 2, 2});
        switch (op) {
            case 0: {
                int l = genLabel(c, mode);
                NOTE("s" << a << ".insert(" << l << ")");
                bool was = m[a].count(l) > 0;
                REQUIRE(s[a].insert(l) == was, "insert(" << l << ") says that the label was " << (was ? "new" : "present"));
                m[a].insert(l);
                break;
            }
            case 1: {
                int l = genLabel(c, mode);
                if (!m[a].empty() && c.b(2, 3)) l = *std::next(m[a].begin(), c.u(m[a].size()));
                NOTE("s" << a << ".remove(" << l << ")");
                s[a].remove(l);
                m[a].erase(l);
                break;
            }
            case 2:
                NOTE("s" << a << ".clear()");
                s[a].clear();
                m[a].clear();
                break;
            case 3: {
                int l = genLabel(c, mode);
                if (!m[a].empty() && c.b()) l = *std::next(m[a].begin(), c.u(m[a].size()));
                NOTE("s" << a << ".inside(" << l << ")");
                REQUIRE(s[a].inside(l) == (m[a].count(l) > 0), "inside(" << l << ") of " << pbt::show(m[a]));
                break;
            }
            case 4: {
                NOTE("s" << d << " = s" << a << " union s" << b);
                rofl::LabelSet r = s[a].unionSet(s[b]);
                std::set<int> e = m[a];
                e.insert(m[b].begin(), m[b].end());
                same(c, r, e, "union");
                c.nontrivial(!m[a].empty() && !m[b].empty());
                s[d] = r;
                m[d] = e;
                break;
            }
            case 5: {
                NOTE("s" << d << " = s" << a << " intersection s" << b);
                rofl::LabelSet r = s[a].intersectionSet(s[b]);
                std::set<int> e;
                for (int x : m[a])
                    if (m[b].count(x)) e.insert(x);
                same(c, r, e, "intersection");
                c.nontrivial(!m[a].empty() && !m[b].empty());
                s[d] = r;
                m[d] = e;
                break;
            }
            case 6: {
                NOTE("s" << d << " = s" << a << " minus s" << b);
                rofl::LabelSet r = s[a].differenceSet(s[b]);
                std::set<int> e;
                for (int x : m[a])
                    if (!m[b].count(x)) e.insert(x);
                same(c, r, e, "difference");
                c.nontrivial(!m[a].empty() && !m[b].empty());
                s[d] = r;
                m[d] = e;
                break;
            }
            case 7: {
                int l = genLabel(c, mode);
                NOTE("s" << d << " = s" << a << " union label " << l);
                rofl::LabelSet r = s[a].unionSet(l);
                std::set<int> e = m[a];
                e.insert(l);
                same(c, r, e, "union with label");
                s[d] = r;
                m[d] = e;
                break;
            }
            case 8: {
                int l = genLabel(c, mode);
                if (!m[a].empty() && c.b()) l = *std::next(m[a].begin(), c.u(m[a].size()));
                NOTE("s" << d << " = s" << a << " minus label " << l);
                rofl::LabelSet r = s[a].differenceSet(l);
                std::set<int> e = m[a];
                e.erase(l);
                same(c, r, e, "difference with label");
                s[d] = r;
                m[d] = e;
                break;
            }
            case 9: {
                NOTE("s" << a << " == s" << b);
                c.nontrivial(!m[a].empty() && !m[b].empty());
                if (!m[a].empty() && c.b(1, 4)) {  // nearly the same set
                    int x = *std::next(m[a].begin(), c.u(m[a].size())), y = (int)((unsigned)x + c.pick(std::vector<unsigned>{1u, ~0u, 256u, 65536u, 1u << 31, 0u}));
                    m[b] = m[a];
                    m[b].erase(x);
                    if (c.b(3, 4)) m[b].insert(y);
                    s[b] = rofl::LabelSet(m[b].begin(), m[b].end());
                    NOTE("with s" << b << " = s" << a << " where " << x << " is replaced by " << y);
                }
                bool e = m[a] == m[b];
                REQUIRE((s[a] == s[b]) == e, "== of " << pbt::show(m[a]) << " and " << pbt::show(m[b]));
                REQUIRE((s[a] != s[b]) == !e, "!= of " << pbt::show(m[a]) << " and " << pbt::show(m[b]));
                break;
            }
            case 10: {
                std::vector<int> v;
                size_t n = c.b(1, 30) ? c.u(300) : c.len(0, 8);
                if (n > 8) c.label("large set");
                for (size_t k = 0; k < n; ++k) v.push_back(genLabel(c, mode));
                NOTE("s" << d << " = LabelSet over " << pbt::show(v));
                s[d] = rofl::LabelSet(v.begin(), v.end());
                m[d] = std::set<int>(v.begin(), v.end());
                break;
            }
            default: {
                NOTE("s" << d << " = copy of s" << a);
                rofl::LabelSet copy(s[a]);
                same(c, copy, m[a], "copy");
                s[d] = copy;
                m[d] = m[a];
                break;
            }
        }
        for (int k = 0; k < 4; ++k) same(c, s[k], m[k], "register");
        if (op == 9) {
            std::ostringstream os;
            s[a].print(os);
            std::string t = os.str(), digits;
            REQUIRE(t == other::print(s[a]), "print and operator<< differ");
            for (char& ch : t)
                if (!isdigit((unsigned char)ch) && ch != '-') ch = ' ';
            std::istringstream is(t);
            std::vector<int> v;
            int x;
            while (is >> x) v.push_back(x);
            REQUIRE(v == std::vector<int>(m[a].begin(), m[a].end()), "printed labels of " << pbt::show(m[a]));
        }
    }
}
// all pairs of subsets of a small universe
FACET(allSmallPairs, 4096, 65536) {
    int n = c.thorough ? 8 : 6;
    uint64_t idx = c.index(1ull << (2 * n));
    std::set<int> A, B, U, I, D;
    for (int k = 0; k < n; ++k) {
        bool a = (idx >> k) & 1, b = (idx >> (n + k)) & 1;
        int v = k - n / 2;
        if (a) A.insert(v);
        if (b) B.insert(v);
        if (a || b) U.insert(v);
        if (a && b) I.insert(v);
        if (a && !b) D.insert(v);
    }
    rofl::LabelSet a(A.begin(), A.end()), b(B.begin(), B.end());
    NOTE("A=" << pbt::show(A) << " B=" << pbt::show(B));
    same(c, a.unionSet(b), U, "union");
    same(c, a.intersectionSet(b), I, "intersection");
    same(c, a.differenceSet(b), D, "difference");
    REQUIRE((a == b) == (A == B), "== of " << pbt::show(A) << " and " << pbt::show(B));
    REQUIRE((a != b) == (A != B), "!= of " << pbt::show(A) << " and " << pbt::show(B));
    same(c, a, A, "left operand");
    same(c, b, B, "right operand");
    c.nontrivial(!A.empty() && !B.empty());
}
