// P20: the distance functions are the distances they are named after, and metrics.
#include "kmeans.hpp"

#include <list>

namespace {

namespace h = ffcl::common::math::heuristics;

template <typename T>
struct Points {
    std::size_t    d;
    std::vector<T> a, b, m;
    double         size;  // largest magnitude
};

template <typename T>
Points<T> points(pbt::Case& c, std::size_t max_d) {
    Points<T> p;
    p.d = c.chance(1, 20) ? 0 : c.range(1, max_d);
    int e = 0;
    if (std::is_floating_point_v<T>) e = int(c.symmetric(sizeof(T) == 4 ? 14 : 60));
    const int  m     = 1 + int(c.draw(std::is_floating_point_v<T> ? 1 << 10 : 40));
    const bool exact = c.chance(1, 2), full = sizeof(T) <= 2 && c.chance(1, 2);  // whole range of a narrow type
    auto value = [&]() -> T {
        if constexpr (std::is_floating_point_v<T>) {
            return static_cast<T>(std::ldexp(exact ? double(c.symmetric(8)) : double(c.symmetric(m)) / 3, e));
        } else if (full) {
            return static_cast<T>(c.chance(1, 3) ? (c.chance(1, 2) ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min()) : c.draw(std::size_t(1) << (8 * sizeof(T))));
        } else if constexpr (std::is_signed_v<T>) {
            return static_cast<T>(c.symmetric(m));
        } else {
            return static_cast<T>(c.draw(m + 1));
        }
    };
    for (auto* v : {&p.a, &p.b, &p.m})
        for (std::size_t f = 0; f < p.d; ++f) v->push_back(value());
    for (auto* v : {&p.b, &p.m}) {
        if (c.chance(1, 6)) *v = p.a;
        if (c.chance(1, 12)) std::fill(v->begin(), v->end(), T(0));
        if (p.d && c.chance(1, 6)) {  // differ on one feature only
            const auto f = c.draw(p.d);
            const T    x = (*v)[f];
            *v = p.a, (*v)[f] = x;
        }
    }
    p.size = 0;
    for (auto* v : {&p.a, &p.b, &p.m})
        for (auto x : *v) p.size = std::max(p.size, std::fabs(double(x)));
    if (c.showing()) c.show() << "a " << gen::show_rows(p.a, p.d ? p.d : 1) << "\nb " << gen::show_rows(p.b, p.d ? p.d : 1) << "\nm " << gen::show_rows(p.m, p.d ? p.d : 1) << "\n";
    return p;
}

#define BOTH(x, y) x.begin(), x.end(), y.begin(), y.end()

template <typename T>
void real(pbt::Case& c) {
    const auto p = points<T>(c, 12);
    const auto zero = std::vector<T>(p.d, 0);
    const double eps = double(std::numeric_limits<T>::epsilon());
    double       sq = 0, man = 0, o2 = 0, dot = 0, bb = 0, mo = 0;
    for (std::size_t f = 0; f < p.d; ++f) {
        const double x = p.a[f], y = p.b[f];
        sq += (x - y) * (x - y), man += std::fabs(x - y), o2 += x * x, bb += y * y, dot += x * y, mo += std::fabs(x);
    }
    const double tol = eps * 4 * double(p.d + 2), scale = p.size;
    auto near = [&](double got, double want, double abs, const char* tag) {
        c.require(pbt::close(got, want, tol, abs), tag, "got ", got, " instead of ", want);
    };
    // the difference of two features is rounded once: relative to the difference itself, exact in the floating point type otherwise
    near(h::squared_euclidean_distance(BOTH(p.a, p.b)), sq, 0, "squared-euclidean");
    near(h::euclidean_distance(BOTH(p.a, p.b)), std::sqrt(sq), 0, "euclidean");
    near(h::manhattan_distance(BOTH(p.a, p.b)), man, 0, "manhattan");
    near(h::auto_distance(BOTH(p.a, p.b)), std::sqrt(sq), 0, "auto");
    near(h::squared_euclidean_distance_from_origin(p.a.begin(), p.a.end()), o2, 0, "squared-euclidean-origin");
    near(h::euclidean_distance_from_origin(p.a.begin(), p.a.end()), std::sqrt(o2), 0, "euclidean-origin");
    near(h::auto_distance_from_origin(p.a.begin(), p.a.end()), std::sqrt(o2), 0, "auto-origin");
    near(h::manhattan_distance_from_origin(p.a.begin(), p.a.end()), mo, 0, "manhattan-origin");
    const double cosine = h::cosine_similarity(BOTH(p.a, p.b));
    if (o2 == 0 || bb == 0) {
        c.require(cosine == double(std::numeric_limits<T>::infinity()), "cosine-zero", "cosine of a zero vector is ", cosine);
    } else {
        c.require(pbt::close(cosine, dot / std::sqrt(o2 * bb), 0, 2 * tol), "cosine", "cosine ", cosine, " instead of ", dot / std::sqrt(o2 * bb));
        c.require(cosine <= 1 + 2 * tol && cosine >= -1 - 2 * tol, "cosine-range", cosine);
    }
    // metric: symmetry, identity, triangle inequality
    c.require(h::auto_distance(BOTH(p.a, p.b)) == h::auto_distance(BOTH(p.b, p.a)) && h::manhattan_distance(BOTH(p.a, p.b)) == h::manhattan_distance(BOTH(p.b, p.a)), "symmetry", "");
    c.require((h::auto_distance(BOTH(p.a, p.b)) == 0) == (p.a == p.b), "identity", double(h::auto_distance(BOTH(p.a, p.b))));
    const double am = h::auto_distance(BOTH(p.a, p.m)), mb = h::auto_distance(BOTH(p.m, p.b)), ab = h::auto_distance(BOTH(p.a, p.b));
    c.require(ab <= (am + mb) * (1 + 2 * tol), "triangle", ab, " > ", am, " + ", mb);
    (void)scale;
    c.nontrivial(p.d > 1 && p.a != p.b);
}

template <typename T>
void integral(pbt::Case& c) {
    const auto p = points<T>(c, 12);
    long long  man = 0, origin = 0, am = 0, mb = 0;
    for (std::size_t f = 0; f < p.d; ++f) {
        const long long x = p.a[f], y = p.b[f], z = p.m[f];
        man += std::llabs(x - y), origin += std::llabs(x), am += std::llabs(x - z), mb += std::llabs(z - y);
    }
    const auto got = h::auto_distance(BOTH(p.a, p.b));
    c.require((long long)(got) == man, "manhattan", "got ", (long long)(got), " instead of ", man);
    c.require((long long)(h::auto_distance(BOTH(p.b, p.a))) == man, "symmetry", "");
    const auto from = h::auto_distance_from_origin(p.a.begin(), p.a.end());
    c.require((long long)(from) == origin, "origin", "got ", (long long)(from), " instead of ", origin);
    c.require((long long)(h::auto_distance(BOTH(p.a, p.m))) == am && (long long)(h::auto_distance(BOTH(p.m, p.b))) == mb && man <= am + mb, "triangle", "");
    c.nontrivial(p.d > 1 && p.a != p.b);
}

// length of the shortest edit script, by suffixes
template <typename T>
std::size_t edits(const std::vector<T>& a, const std::vector<T>& b) {
    std::vector<std::vector<std::size_t>> rest(a.size() + 1, std::vector<std::size_t>(b.size() + 1));
    for (std::size_t i = a.size() + 1; i-- > 0;) {
        for (std::size_t j = b.size() + 1; j-- > 0;) {
            if (i == a.size() || j == b.size()) {
                rest[i][j] = a.size() - i + b.size() - j;
            } else {
                rest[i][j] = a[i] == b[j] ? rest[i + 1][j + 1] : 1 + std::min({rest[i + 1][j + 1], rest[i + 1][j], rest[i][j + 1]});
            }
        }
    }
    return rest[0][0];
}

template <typename T>
void levenshtein(pbt::Case& c, bool large = false) {
    const std::size_t most = large ? 300 : 15, n = c.draw(most), m = c.draw(most), letters = 1 + c.draw(4);
    std::vector<T>    a, b;
    for (std::size_t i = 0; i < n; ++i) a.push_back(static_cast<T>('a' + c.draw(letters)));
    if (c.chance(1, 2)) {  // a few edits
        b = a;
        for (std::size_t e = c.draw(5); e; --e) {
            const std::size_t at = c.draw(b.size() + 1);
            switch (c.draw(3)) {
                case 0: b.insert(b.begin() + at, static_cast<T>('a' + c.draw(letters))); break;
                case 1: if (at < b.size()) b.erase(b.begin() + at); break;
                default: if (at < b.size()) b[at] = static_cast<T>('a' + c.draw(letters)); break;
            }
        }
    } else {
        for (std::size_t i = 0; i < m; ++i) b.push_back(static_cast<T>('a' + c.draw(letters)));
    }
    if (c.showing()) c.show() << "a " << std::string(a.begin(), a.end()) << "\nb " << std::string(b.begin(), b.end()) << "\n";
    const auto want = edits(a, b);
    const auto got  = h::levenshtein_distance(BOTH(a, b));
    c.require(std::size_t(got) == want, "edits", "got ", (long long)(got), " instead of ", want);
    c.require(std::size_t(h::levenshtein_distance(BOTH(b, a))) == want, "symmetry", "");
    c.nontrivial(a.size() > 1 && b.size() > 1 && a != b);
}

LAW("real-float", 60000, 2000000, [](pbt::Case& c) { real<float>(c); });
LAW("real-double", 60000, 2000000, [](pbt::Case& c) { real<double>(c); });
LAW("integral-int", 40000, 1000000, [](pbt::Case& c) { integral<int>(c); });
LAW("integral-short", 20000, 500000, [](pbt::Case& c) { integral<short>(c); });
LAW("integral-long", 20000, 500000, [](pbt::Case& c) { integral<long>(c); });
LAW("integral-unsigned", 40000, 1000000, [](pbt::Case& c) { integral<unsigned>(c); });
LAW("integral-byte", 20000, 500000, [](pbt::Case& c) { integral<unsigned char>(c); });
LAW("levenshtein-char", 40000, 1000000, [](pbt::Case& c) { levenshtein<char>(c); });
LAW("integral-signed-byte", 20000, 500000, [](pbt::Case& c) { integral<signed char>(c); });
LAW("integral-ushort", 20000, 500000, [](pbt::Case& c) { integral<unsigned short>(c); });
LAW("levenshtein-long", 100, 3000, [](pbt::Case& c) { levenshtein<char>(c, true); });
LAW("levenshtein-int", 20000, 500000, [](pbt::Case& c) { levenshtein<int>(c); });

}  // namespace
