// Generators shared by the checks: data sets (flattened row-major), index subsets, queries, feature masks.
#pragma once

#include "pbt.hpp"

#include <algorithm>
#include <numeric>
#include <set>

namespace gen {

template <typename T>
struct Data {
    std::vector<T> v;           // n * d values
    std::size_t    n     = 0;
    std::size_t    d     = 1;
    bool           exact = false;  // small dyadic values: squared distances are computed without rounding
    double         step  = 1;      // exact: values are multiples of step
    double         span  = 1;      // magnitude of the coordinates
    std::string    mode;

    const T* row(std::size_t i) const { return v.data() + i * d; }
};

inline std::string fmt(double x) {
    std::ostringstream o;
    o.precision(9);
    o << x;
    return o.str();
}

template <typename T>
std::string show_rows(const std::vector<T>& v, std::size_t d, std::size_t max_rows = 60) {
    std::ostringstream oss;
    oss.precision(9);
    const std::size_t n = d ? v.size() / d : 0;
    for (std::size_t i = 0; i < n && i < max_rows; ++i) {
        oss << (i ? " " : "") << i << ":(";
        for (std::size_t f = 0; f < d; ++f) oss << (f ? "," : "") << v[i * d + f];
        oss << ")";
    }
    if (n > max_rows) oss << " ... (" << n << " rows)";
    return oss.str();
}

// n_features
inline std::size_t features(pbt::Case& c, std::size_t max = 6) {
    static const std::vector<std::size_t> w = {1, 2, 2, 2, 3, 3, 4, 5, 6, 8, 11};
    const std::size_t d = std::min<std::size_t>(max, c.pick(w));
    if (!c.chance(1, 20)) return d;
    // sometimes many more, seldom more than 8 bits can count
    return c.chance(1, 16) ? 257 + c.draw(20) : max + 1 + c.draw(34 - std::min<std::size_t>(max, 30));
}

// The "-huge" laws: more samples than a 16 bit number can count. Their values come from a generator seeded by one draw (a
// tape of a million choices could not be shrunk).
constexpr std::size_t kHuge = 70000;
inline bool           is_huge(std::size_t n) { return n > 20000; }

struct Stream {
    std::uint64_t state;
    explicit Stream(pbt::Case& c) : state(c.draw(std::uint64_t(1) << 40)) {}
    std::uint64_t draw(std::uint64_t n) {
        std::uint64_t z = (state += 0x9e3779b97f4a7c15ULL);
        z               = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z               = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return (z ^ (z >> 31)) % n;
    }
};

inline std::size_t dims(pbt::Case& c, std::size_t n, std::size_t max) { return is_huge(n) ? 1 + c.draw(3) : features(c, max); }

// number of samples in [lo, hi], log-biased
inline std::size_t count(pbt::Case& c, std::size_t lo, std::size_t hi) {
    if (is_huge(hi)) return 65537 + static_cast<std::size_t>(c.draw(hi - 65536));
    // the laws about many samples: one case out of three with any number of them
    if (hi >= lo + 200 && c.chance(1, 3)) return static_cast<std::size_t>(c.range(static_cast<std::int64_t>(lo), static_cast<std::int64_t>(hi)));
    return static_cast<std::size_t>(c.small_range(static_cast<std::int64_t>(lo), static_cast<std::int64_t>(hi)));
}

// number of samples, mostly uniform in [lo, hi], sometimes small (from `least`)
inline std::size_t sizeable(pbt::Case& c, std::size_t least, std::size_t lo, std::size_t hi) {
    if (is_huge(hi)) return count(c, lo, hi);
    static const std::vector<std::size_t> edges = {8, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025};
    if (c.chance(1, 8)) {  // around the sizes of blocks and narrow counters
        const std::size_t n = c.pick(edges);
        if (n >= least && n <= hi) return n;
    }
    return c.chance(3, 4) ? static_cast<std::size_t>(c.range(static_cast<std::int64_t>(lo), static_cast<std::int64_t>(hi))) : count(c, least, hi);
}

// Values of "exact" data sets are small multiples of a power of two: coordinates, differences, squared distances and
// sums of a few thousands of them are exact in float and in double, so every comparison can be checked strictly.
template <typename T>
Data<T> exact_data(pbt::Case& c, std::size_t n, std::size_t d) {
    Data<T> out;
    out.n     = n;
    out.d     = d;
    out.exact = true;
    out.v.resize(n * d);
    static const std::vector<int>    ranges = {4, 1, 2, 8, 15, 30};
    static const std::vector<double> steps  = {1, 1, 0.5, 0.25, 4, 0.125};
    const int                        range  = c.pick(ranges);
    out.step                                = c.pick(steps);
    if (std::is_floating_point_v<T> && c.chance(1, 8)) out.step = std::ldexp(out.step, int(c.symmetric(16)));  // tiny or huge
    const std::uint64_t shape               = c.draw(8);
    const std::int64_t  offset              = c.chance(1, 4) ? c.symmetric(40) : 0;
    auto                val                 = [&](std::int64_t k) { return static_cast<T>(static_cast<double>(k + offset) * out.step); };
    out.span                                = (range + std::llabs(offset)) * out.step;
    switch (shape) {
        default:
            out.mode = "grid";
            for (auto& x : out.v) x = val(c.symmetric(range));
            break;
        case 4: {
            out.mode = "negative-grid";
            for (auto& x : out.v) x = static_cast<T>(-static_cast<double>(1 + c.draw(2 * range + 1)) * out.step);
            break;
        }
        case 5: {  // few distinct rows, many duplicates
            out.mode                 = "duplicates";
            const std::size_t m      = 1 + c.draw(std::min<std::size_t>(4, std::max<std::size_t>(n, 1)));
            std::vector<T>    protos(m * d);
            for (auto& x : protos) x = val(c.symmetric(range));
            for (std::size_t i = 0; i < n; ++i) {
                const std::size_t p = c.draw(m);
                std::copy(protos.begin() + p * d, protos.begin() + (p + 1) * d, out.v.begin() + i * d);
            }
            break;
        }
        case 6: {  // one or several constant features
            out.mode = "constant-feature";
            std::vector<bool> constant(d);
            for (std::size_t f = 0; f < d; ++f) constant[f] = c.chance(1, 2);
            for (std::size_t i = 0; i < n; ++i)
                for (std::size_t f = 0; f < d; ++f) out.v[i * d + f] = constant[f] ? val(1) : val(c.symmetric(range));
            break;
        }
        case 7: {  // collinear
            out.mode = "collinear";
            std::vector<std::int64_t> dir(d);
            for (auto& x : dir) x = c.symmetric(2);
            for (std::size_t i = 0; i < n; ++i) {
                const std::int64_t t = c.symmetric(range);
                for (std::size_t f = 0; f < d; ++f) out.v[i * d + f] = val(dir[f] * t);
            }
            break;
        }
    }
    return out;
}

// Reals: coordinates with ~16 significant bits times a scale, so that two different coordinates differ by clearly more
// than a rounding error, but distances are not exact.
template <typename T>
Data<T> real_data(pbt::Case& c, std::size_t n, std::size_t d) {
    Data<T> out;
    out.n = n;
    out.d = d;
    out.v.resize(n * d);
    static const std::vector<double> scales = {1, 10, 100, 1000};
    const double                     scale  = c.pick(scales);
    const double                     offset = c.chance(1, 4) ? c.symmetric(3) * scale : 0;
    auto                             coord  = [&](double spread) {
        return spread * (static_cast<double>(c.symmetric(1 << 12)) / (1 << 12));
    };
    out.span = scale * 2 + std::fabs(offset);
    switch (c.draw(4)) {
        default:
            out.mode = "uniform";
            for (auto& x : out.v) x = static_cast<T>(offset + coord(scale));
            break;
        case 2: {
            out.mode            = "blobs";
            const std::size_t m = 1 + c.draw(5);
            std::vector<double> centers(m * d);
            for (auto& x : centers) x = coord(scale);
            for (std::size_t i = 0; i < n; ++i) {
                const std::size_t p = c.draw(m);
                for (std::size_t f = 0; f < d; ++f) out.v[i * d + f] = static_cast<T>(offset + centers[p * d + f] + coord(scale / 16));
            }
            break;
        }
        case 3: {
            out.mode = "anisotropic";
            for (std::size_t i = 0; i < n; ++i)
                for (std::size_t f = 0; f < d; ++f) out.v[i * d + f] = static_cast<T>(offset + coord(f == 0 ? scale : scale / 32));
            break;
        }
    }
    // differences that a float cannot tell apart but a double can, well above its rounding errors
    if constexpr (std::is_same_v<T, double>) {
        if (c.chance(1, 6)) {
            out.mode += "-fine";
            for (auto& x : out.v) x = std::round(x / scale * 4) / 4 * scale + scale * std::ldexp(double(c.symmetric(4)), -32);
        }
    }
    return out;
}

// a grid, fine enough for runs of equal coordinates to stay short
template <typename T>
Data<T> huge_data(pbt::Case& c, std::size_t n, std::size_t d) {
    Data<T> out;
    out.n = n, out.d = d, out.exact = true, out.mode = "huge-grid";
    out.v.resize(n * d);
    Stream             s(c);
    // the library sums the squares of integers in their own type
    const std::int64_t range  = std::is_integral_v<T> ? 150 : d == 1 ? 1 << 11 : 1 << 9;
    const std::int64_t offset = std::is_unsigned_v<T> ? range : 0;
    for (auto& v : out.v) v = static_cast<T>(offset + static_cast<std::int64_t>(s.draw(2 * range + 1)) - range);
    out.span = double(range + offset);
    return out;
}

// very many features: few of them vary, the last one among them
inline bool is_wide(std::size_t d) { return d > 256; }

template <typename T>
Data<T> widen(pbt::Case& c, const Data<T>& x, std::size_t d) {
    Data<T> out = x;
    out.d       = d;
    out.mode += "-wide";
    out.v.assign(x.n * d, T(c.chance(1, 2) || x.v.empty() ? T(0) : x.v[0]));
    std::vector<std::size_t> at;
    for (std::size_t f = 0; f < x.d; ++f) at.push_back(f == 0 ? d - 1 : c.chance(1, 2) ? d - 1 - f : f);
    for (std::size_t i = 0; i < x.n; ++i)
        for (std::size_t f = 0; f < x.d; ++f) out.v[i * d + at[f]] = x.v[i * x.d + f];
    return out;
}

template <typename T>
Data<T> data(pbt::Case& c, std::size_t n, std::size_t d) {
    if (is_huge(n)) return huge_data<T>(c, n, d);
    if (is_wide(d)) return widen(c, data<T>(c, n, 1 + c.draw(4)), d);
    return c.chance(1, 3) ? real_data<T>(c, n, d) : exact_data<T>(c, n, d);
}

// small integers: every distance fits the type of the samples
template <typename T>
Data<T> integers(pbt::Case& c, std::size_t n, std::size_t d, int max_range) {
    if (is_huge(n)) return huge_data<T>(c, n, d);
    if (is_wide(d)) return widen(c, integers<T>(c, n, 1 + c.draw(4), max_range), d);
    Data<T> r;
    r.n = n, r.d = d, r.exact = true, r.mode = "integers";
    r.v.resize(n * d);
    const int m = 1 + static_cast<int>(c.draw(max_range));
    r.span      = m;
    if (std::is_unsigned_v<T>) {
        const std::uint64_t offset = c.chance(1, 2) ? m : m + c.draw(1000);
        for (auto& v : r.v) v = static_cast<T>(static_cast<std::int64_t>(offset) + c.symmetric(m));
        r.span = double(offset + m);
    } else {
        for (auto& v : r.v) v = static_cast<T>(c.symmetric(m));
    }
    return r;
}

template <typename T>
Data<T> any_data(pbt::Case& c, std::size_t n, std::size_t d) {
    if constexpr (std::is_floating_point_v<T>) {
        return data<T>(c, n, d);
    } else {
        return integers<T>(c, n, d, 40);
    }
}

// nearest value the type can hold
template <typename T>
T clamped(double v) {
    return std::is_unsigned_v<T> && v < 0 ? T(0) : static_cast<T>(v);
}

template <typename T>
void describe(pbt::Case& c, const Data<T>& x, const char* name = "samples") {
    if (!c.showing()) return;
    c.show() << name << " (" << (std::is_unsigned_v<T> ? "unsigned" : std::is_integral_v<T> ? "int" : sizeof(T) == 4 ? "float" : "double") << ", n=" << x.n << ", n_features=" << x.d << ", " << x.mode
             << "): " << show_rows(x.v, x.d) << "\n";
}

// indices 0..n-1, optionally shuffled
inline std::vector<std::size_t> iota(std::size_t n) {
    std::vector<std::size_t> v(n);
    std::iota(v.begin(), v.end(), std::size_t{0});
    return v;
}

template <typename V>
void shuffle(pbt::Case& c, V& v) {
    if (is_huge(v.size())) {
        Stream s(c);
        for (std::size_t i = 0; i + 1 < v.size(); ++i) std::swap(v[i], v[i + s.draw(v.size() - i)]);
        return;
    }
    for (std::size_t i = 0; i + 1 < v.size(); ++i) std::swap(v[i], v[i + c.draw(v.size() - i)]);
}

// identity, permutation or strict subset of 0..n-1 (at least `lo` elements)
inline std::vector<std::size_t> indices(pbt::Case& c, std::size_t n, std::size_t lo, bool subsets = true) {
    auto v = iota(n);
    switch (c.draw(subsets ? 4 : 2)) {
        default:
            break;
        case 1:
            shuffle(c, v);
            break;
        case 2:
        case 3: {
            shuffle(c, v);
            const std::size_t m = lo >= n ? n : is_huge(n) ? n - c.draw(n - 65536) : lo + c.draw(n - lo + 1);
            v.resize(m);
            break;
        }
    }
    return v;
}

struct Labels {  // simple reference union-find
    std::vector<std::size_t> p;
    explicit Labels(std::size_t n) : p(iota(n)) {}
    std::size_t find(std::size_t i) {
        while (p[i] != i) i = p[i] = p[p[i]];
        return i;
    }
    bool join(std::size_t a, std::size_t b) {
        a = find(a), b = find(b);
        if (a == b) return false;
        p[b] = a;
        return true;
    }
};

// reference distances ------------------------------------------------------------------------------------------------
template <typename A, typename B>
double dist2(const A* a, const B* b, std::size_t d) {
    long double s = 0;
    for (std::size_t f = 0; f < d; ++f) {
        const long double x = static_cast<long double>(a[f]) - static_cast<long double>(b[f]);
        s += x * x;
    }
    return static_cast<double>(s);
}
template <typename A, typename B>
double dist(const A* a, const B* b, std::size_t d) {
    return std::sqrt(dist2(a, b, d));
}

// absolute error the library may make on a distance between coordinates of magnitude `span`
template <typename T>
double dist_tol(const Data<T>& x) {
    if (x.exact) return 4 * std::numeric_limits<T>::epsilon() * std::max(x.span, 24 * x.step) * std::sqrt(double(x.d));
    return 64 * std::numeric_limits<T>::epsilon() * 2 * x.span * std::sqrt(double(x.d));
}

}  // namespace gen
