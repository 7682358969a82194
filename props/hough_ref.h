#pragma once
#include "pbt.h"
#include <Eigen/Core>
#include <Eigen/StdVector>
#include <cmath>
#include <functional>
#include <set>
#include <sstream>
#include <string>
#include <vector>
namespace hough {
inline int unit(float x) { return std::fabs(x) == 1.f; }
inline bool pow2(double x) { int e; return std::frexp(x, &e) == 0.5; }
inline int zero(float x) { return x == 0.f; }
// Votes of one direction: bin k holds rhoMin + k res <= rho < rhoMin + (k+1) res; a rho whose rounding error reaches a border is
// counted in either bin.
struct Votes {
    std::vector<size_t> sure;
    std::vector<std::pair<long, long>> either;  // first and last possible bin, possibly out of range
    std::vector<size_t> weight;
    explicit Votes(int n) : sure(n, 0) {}
    void add(double rho, double mn, double res, double size, size_t times = 1) {
        double q = (rho - mn) / res;
        double e = 3e-7 * ((size + std::fabs(mn)) / res + std::fabs(q));
        if (size == 0 && pow2(res)) {
            // exact values, however the quotient is computed
            float f = ((float)rho - (float)mn);
            if ((double)f == rho - mn && (double)(float)(f / (float)res) == q) e = 0;
        }
        long a = (long)std::floor(q - e), b = (long)std::floor(q + e);
        long n = (long)sure.size();
        if (a == b) {
            if (a >= 0 && a < n) sure[a] += times;
        } else if (b >= 0 && a < n)
            either.push_back({a, b}), weight.push_back(times);
    }
    void check(const std::vector<size_t>& row, std::function<void(const std::string&)> fail) const {
        std::vector<size_t> hi = sure;
        long n = (long)sure.size();
        size_t lowTotal = 0, highTotal = 0, total = 0;
        for (size_t j = 0; j < either.size(); ++j) {
            auto& e = either[j];
            size_t w = weight[j];
            for (long k = std::max(0l, e.first); k <= std::min(n - 1, e.second); ++k) hi[k] += w;
            if (e.first >= 0 && e.second < n) lowTotal += w;
            highTotal += w;
        }
        for (long k = 0; k < n; ++k) {
            lowTotal += sure[k], highTotal += sure[k], total += row[k];
            if (row[k] < sure[k] || row[k] > hi[k]) {
                std::ostringstream o;
                o << "bin " << k << " has " << row[k] << " votes, expected " << sure[k] << " to " << hi[k];
                fail(o.str());
            }
        }
        if (total < lowTotal || total > highTotal) {
            std::ostringstream o;
            o << total << " votes in all, expected " << lowTotal << " to " << highTotal;
            fail(o.str());
        }
    }
};
inline std::set<int> peaks1(int n, int w, std::function<long(int)> v) {
    std::set<int> out;
    for (int i = 0; i < n; ++i) {
        bool peak = true;
        for (int j = std::max(0, i - w); j <= std::min(n - 1, i + w); ++j)
            if (j != i && v(j) >= v(i)) peak = false;
        if (peak) out.insert(i);
    }
    return out;
}
// A peak window of w cells given as a length: any length above w - 1 and up to w cells, the exact multiple where every way to divide is exact.
inline float window(pbt::Ctx& c, int w, float res) {
    if (w == 0) return 0.f;
    float m = (float)w * res;
    if (c.b(1, 3) && pow2(res) && (double)m == (double)w * res) return m;
    return (float)((w - 0.05 - 0.9 * (double)c.u(1000) / 1000) * res);
}
// The points inserted so far, equal ones together.
template <class P>
struct Bag {
    std::vector<std::pair<P, size_t>, Eigen::aligned_allocator<std::pair<P, size_t>>> items;
    void clear() { items.clear(); }
    void add(const P& p, size_t times) { items.push_back({p, times}); }
    size_t size() const { size_t n = 0; for (auto& i : items) n += i.second; return n; }
};
// multiplicity of a point: mostly one, at times hundreds or above 2^16
inline size_t times(pbt::Ctx& c, bool many) {
    if (!many) return 1;
    return c.w({3, 1, 1}) == 0 ? 1 : c.b(1, 8) ? 65000 + c.u(10000) : 200 + c.u(400);
}
}  // namespace hough
