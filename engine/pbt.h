// Minimal property-based testing engine (Hypothesis-style choice tapes).
//
// A test case is a pure function of a tape of integer choices. In GENERATE mode the choices come
// from a PRNG seeded by (VERIF_SEED, property, facet, case index) and are recorded; in TAPE mode
// they are replayed (0 once the tape is exhausted; 0 is always the simplest choice), which is what
// shrinking edits; in BYTES mode they are decoded from a byte string (libFuzzer).
#pragma once
#include <cstdint>
#include <cstddef>
#include <algorithm>
#include <cmath>
#include <functional>
#include <initializer_list>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Fail {
    std::string msg;
};
struct Discard {};

inline uint64_t splitmix(uint64_t& s) {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
inline uint64_t fnv(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ull) {
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i) {
        h ^= c[i];
        h *= 0x100000001b3ull;
    }
    return h;
}

enum class Mode { GENERATE, TAPE, BYTES };

class Ctx {
   public:
    Mode mode = Mode::GENERATE;
    uint64_t rng = 0;
    uint64_t caseIndex_ = 0;
    bool thorough = false;
    std::vector<uint64_t> tape;      // recorded (effective) choices
    std::vector<uint64_t> replay;    // choices to replay in TAPE mode
    std::vector<unsigned char> bytes;
    size_t bytePos = 0;
    bool verbose = false;            // collect notes
    std::map<std::string, uint64_t> labels;
    bool nontrivial_ = false;
    std::function<void(uint64_t)> mirror;  // streams choices out (for cases that die)
    uint64_t units = 0;              // elementary oracle comparisons made

    uint64_t raw() { return splitmix(rng); }

    // One recorded choice in [0, n) (n == 0: the full 64-bit range). gen supplies the value in
    // GENERATE mode (default: uniform).
    uint64_t choose(uint64_t n, const std::function<uint64_t()>& gen = nullptr) {
        uint64_t v = 0;
        if (mode == Mode::GENERATE) {
            v = gen ? gen() : raw();
            if (n != 0) v = gen ? (v < n ? v : v % n) : scale(v, n);
        } else if (mode == Mode::TAPE) {
            v = tape.size() < replay.size() ? replay[tape.size()] : 0;
            if (n != 0 && v >= n) v = n - 1;
        } else {
            int nb = 1;
            uint64_t m = n == 0 ? ~0ull : n - 1;
            while (nb < 8 && (m >> (8 * nb)) != 0) ++nb;
            for (int i = 0; i < nb; ++i) v = (v << 8) | (bytePos < bytes.size() ? bytes[bytePos++] : 0);
            if (n != 0) v %= n;
        }
        tape.push_back(v);
        if (mirror) mirror(v);
        if (tape.size() > 2000000) throw Discard{};
        return v;
    }
    static uint64_t scale(uint64_t v, uint64_t n) { return (uint64_t)(((__uint128_t)v * n) >> 64); }

    uint64_t u(uint64_t n) { return choose(n); }
    // biased towards small values
    uint64_t small(uint64_t n) {
        return choose(n, [&] {
            uint64_t r = raw();
            uint64_t m = 1 + scale(raw(), n);
            if (r % 3 == 0) m = 1 + scale(raw(), m);
            return scale(raw(), m);
        });
    }
    // integer in [lo, hi]; 0 (or the end nearest to it) is the simplest
    int64_t i(int64_t lo, int64_t hi) { return unzig(choose((uint64_t)hi - (uint64_t)lo + 1), lo, hi); }
    int64_t ismall(int64_t lo, int64_t hi) { return unzig(small((uint64_t)hi - (uint64_t)lo + 1), lo, hi); }
    static int64_t unzig(uint64_t v, int64_t lo, int64_t hi) {
        if (lo >= 0) return (int64_t)((uint64_t)lo + v);
        if (hi <= 0) return (int64_t)((uint64_t)hi - v);
        uint64_t a = 0 - (uint64_t)lo, b = (uint64_t)hi;
        uint64_t m = a < b ? a : b;
        if (v <= 2 * m && m < (1ull << 62)) return (v & 1) ? (int64_t)((v + 1) / 2) : -(int64_t)(v / 2);
        if (m >= (1ull << 62)) {  // avoid overflow: plain offset
            return (int64_t)((uint64_t)lo + v);
        }
        uint64_t rest = v - 2 * m;
        return a > b ? -(int64_t)(m + rest) : (int64_t)(m + rest);
    }
    // true with probability num/den; false is the simplest
    bool b(unsigned num = 1, unsigned den = 2) {
        return choose(2, [&] { return (uint64_t)(scale(raw(), den) < num ? 1 : 0); }) != 0;
    }
    // index chosen with the given weights; 0 is the simplest
    size_t w(std::initializer_list<unsigned> weights) {
        return (size_t)choose(weights.size(), [&] {
            uint64_t sum = 0;
            for (unsigned x : weights) sum += x;
            uint64_t r = scale(raw(), sum), k = 0;
            for (unsigned x : weights) {
                if (r < x) return k;
                r -= x;
                ++k;
            }
            return (uint64_t)(weights.size() - 1);
        });
    }
    template <class T>
    const T& pick(const std::vector<T>& v) {
        return v[(size_t)u(v.size())];
    }
    // full-range integers with a random bit width, often near powers of two
    uint64_t bits(unsigned width) {
        uint64_t mask = width >= 64 ? ~0ull : ((1ull << width) - 1);
        return choose(width >= 64 ? 0 : mask + 1, [&] {
            uint64_t r = raw(), v = raw();
            unsigned k = (unsigned)scale(raw(), width + 1);
            uint64_t km = k >= 64 ? ~0ull : ((1ull << k) - 1);
            switch (r % 8) {
                case 0: return v & mask;
                case 1: return (km + 1) & mask;
                case 2: return km & mask;
                case 3: return (km + 2) & mask;
                case 4: return (0 - (v & km)) & mask;
                case 5: return (~km) & mask;
                default: return v & km & mask;
            }
        });
    }
    // dyadic rational m / 2^s with |m| <= M: exactly representable
    double dyadic(int64_t M, int s) { return std::ldexp((double)i(-M, M), -s); }
    // double in [lo, hi] on a fine grid of 2^40 steps
    double real(double lo, double hi) {
        uint64_t v = choose(1ull << 40);
        return lo + (hi - lo) * ((double)v / (double)((1ull << 40) - 1));
    }
    // Length of a history: number of times more() answers true.
    struct Loop {
        Ctx& c;
        int64_t left;
        bool more() {
            bool r = c.choose(2, [&] { return (uint64_t)(left > 0 ? 1 : 0); }) != 0;
            if (left-- <= -100000) return false;
            if (c.mode != Mode::GENERATE && ++count > maxLen) return false;
            return r;
        }
        int64_t count = 0;
        int64_t maxLen;
    };
    Loop loop(int64_t maxLen, int64_t minLen = 0) {
        int64_t n = 0;
        if (mode == Mode::GENERATE) {
            uint64_t r = raw() % 4;
            int64_t cap = r == 0 ? std::min<int64_t>(maxLen, minLen + 4) : r == 1 ? std::min<int64_t>(maxLen, minLen + 24) : maxLen;
            n = minLen + (int64_t)scale(raw(), (uint64_t)(cap - minLen + 1));
        }
        return Loop{*this, mode == Mode::GENERATE ? n : (int64_t)1 << 40, 0, maxLen};
    }
    // length in [lo, hi] with small bias
    size_t len(size_t lo, size_t hi) { return lo + (size_t)small(hi - lo + 1); }
    // Index of the case for enumerating facets (count = size of the enumerated space)
    uint64_t index(uint64_t count) {
        return choose(count, [&] { return caseIndex_ % count; });
    }

    void label(const std::string& s, uint64_t k = 1) { labels[s] += k; }
    void nontrivial(bool v = true) {
        if (v) nontrivial_ = true;
    }
    void unit(uint64_t k = 1) { units += k; }
    std::function<void(const std::string&)> noteSink;
    std::string notes;
    void addNote(const std::string& s) {
        notes += s + "\n";
        if (noteSink) noteSink(s);
    }
    // the inputs of a run (not its recordings)
    void setupFrom(const Ctx& p) {
        mode = p.mode;
        rng = p.rng;
        caseIndex_ = p.caseIndex_;
        thorough = p.thorough;
        replay = p.replay;
        bytes = p.bytes;
        verbose = p.verbose;
    }
};

struct Facet {
    std::string name;
    std::function<void(Ctx&)> fn;
    uint64_t quick, thorough;
};
inline std::vector<Facet>& facets() {
    static std::vector<Facet> f;
    return f;
}
struct Reg {
    Reg(const char* n, std::function<void(Ctx&)> f, uint64_t q, uint64_t t) { facets().push_back({n, f, q, t}); }
};
extern const char* PROPERTY_ID;
extern const char* PROPERTY_RULE;
// optional per-process initialisation (scratch directories...)
extern std::function<void()> onWorkerStart;
extern std::function<void()> onWorkerEnd;

#define PBT_PROPERTY(id, rule)             \
    const char* pbt::PROPERTY_ID = id;     \
    const char* pbt::PROPERTY_RULE = rule;
#define FACET(name, quick, thorough)                                    \
    static void facet_##name(pbt::Ctx& c);                              \
    static pbt::Reg reg_##name(#name, facet_##name, quick, thorough);   \
    static void facet_##name(pbt::Ctx& c)

#define PFAIL(expr)                              \
    do {                                         \
        std::ostringstream os_;                  \
        os_.precision(17);                       \
        os_ << expr;                             \
        throw pbt::Fail{os_.str()};              \
    } while (0)
#define REQUIRE(cond, expr)                      \
    do {                                         \
        c.unit();                                \
        if (!(cond)) PFAIL(#cond << ": " << expr); \
    } while (0)
#define NOTE(expr)                               \
    do {                                         \
        if (c.verbose) {                         \
            std::ostringstream os_;              \
            os_.precision(17);                   \
            os_ << expr;                         \
            c.addNote(os_.str());                \
        }                                        \
    } while (0)

template <class It>
inline std::string join(It b, It e, const char* sep = " ") {
    std::ostringstream os;
    os.precision(17);
    for (It it = b; it != e; ++it) {
        if (it != b) os << sep;
        os << *it;
    }
    return os.str();
}
template <class V>
inline std::string show(const V& v) {
    return "[" + join(v.begin(), v.end()) + "]";
}

}  // namespace pbt
