// P23: random selections are made of distinct elements of the pool, all of them being possible and equally likely.
#include "gen.hpp"

#include <cassert>
#include <numeric>

#include "ffcl/common/math/random/Sampling.hpp"

namespace {

namespace rnd = ffcl::common::math::random;

// 9 standard deviations of a binomial (plus the discretisation): missed by chance less than once in 1e17 counts
bool likely(std::size_t count, std::size_t trials, double p) {
    return std::fabs(double(count) - double(trials) * p) <= 9 * std::sqrt(double(trials) * p * (1 - p)) + 20;
}

// n elements out of m, at distinct positions
template <typename Draw>
void distinct_and_uniform(pbt::Case& c, std::size_t m, std::size_t n, Draw&& draw) {
    const std::size_t        trials = c.chance(1, 16) ? 5000 : 300;
    std::vector<std::size_t> counts(m * n), presence(m);
    for (std::size_t t = 0; t < trials; ++t) {
        const std::vector<std::size_t> got = draw();
        c.require(got.size() == n, "size", got.size(), " elements instead of ", n);
        std::vector<char> seen(m);
        for (std::size_t k = 0; k < n; ++k) {
            c.require(got[k] < m, "foreign", "an element is not one of the pool");
            c.require(!seen[got[k]], "repeated", "element ", got[k], " is drawn twice");
            seen[got[k]] = 1;
            ++counts[k * m + got[k]];
            ++presence[got[k]];
        }
    }
    for (std::size_t i = 0; i < m; ++i)
        c.require(likely(presence[i], trials, double(n) / double(m)), "presence", "element ", i, " of ", m, " is one of the ", n, " drawn in ", presence[i], " of ", trials, " selections");
    for (std::size_t k = 0; k < n; ++k)
        for (std::size_t i = 0; i < m; ++i)
            c.require(likely(counts[k * m + i], trials, 1.0 / double(m)), "uniform", "element ", i, " of ", m, " is drawn as number ", k, " in ", counts[k * m + i], " of ", trials, " selections");
    c.nontrivial(m > 2 && n > 0 && n < m);
}

// pairs of distinct elements: all of them are possible (selections are not only rotations, say)
template <typename Draw>
void pairs_uniform(pbt::Case& c, std::size_t m, Draw&& draw) {
    const std::size_t        trials = 3000;
    std::vector<std::size_t> counts(m * m);
    for (std::size_t t = 0; t < trials; ++t) {
        const std::vector<std::size_t> got = draw();
        ++counts[got[0] * m + got[1]];
    }
    for (std::size_t i = 0; i < m; ++i)
        for (std::size_t j = 0; j < m; ++j)
            c.require(likely(counts[i * m + j], trials, i == j ? 0.0 : 1.0 / double(m * (m - 1))), "pairs", "elements ", i, " and ", j, " are drawn in this order in ", counts[i * m + j], " of ", trials, " selections");
    c.nontrivial(m > 2);
}

// samples of which the first feature is the position: 10 * position + 3
template <typename T>
std::vector<T> rows(pbt::Case& c, std::size_t m, std::size_t d) {
    std::vector<T> v(m * d);
    for (std::size_t i = 0; i < m; ++i)
        for (std::size_t f = 0; f < d; ++f) v[i * d + f] = f == 0 ? static_cast<T>(10 * i + 3) : static_cast<T>(c.draw(5));
    return v;
}

template <typename T>
std::vector<std::size_t> positions(pbt::Case& c, const std::vector<T>& pool, const std::vector<T>& got, std::size_t d) {
    c.require(got.size() % d == 0, "size", got.size(), " values");
    std::vector<std::size_t> out;
    for (std::size_t k = 0; k < got.size() / d; ++k) {
        const double      q = (double(got[k * d]) - 3) / 10;
        const std::size_t i = q >= 0 && q == std::floor(q) ? std::size_t(q) : pool.size();
        c.require(i < pool.size() / d && std::equal(got.begin() + k * d, got.begin() + (k + 1) * d, pool.begin() + i * d), "not-a-sample", "drawn sample ", k, " is not one of the samples");
        out.push_back(i);
    }
    return out;
}

// whole shuffles of few elements, often enough to see a bias of a tenth
void shuffles(pbt::Case& c) {
    const std::size_t        m = 2 + c.draw(4), trials = 40000;
    std::vector<std::size_t> pool(m), counts(m * m), pairs(m * m);
    std::iota(pool.begin(), pool.end(), std::size_t{0});
    if (c.showing()) c.show() << m << " elements shuffled\n";
    for (std::size_t t = 0; t < trials; ++t) {
        const auto got = rnd::select_n_elements(pool.begin(), pool.end(), m);
        c.require(got.size() == m, "size", got.size(), " elements instead of ", m);
        for (std::size_t k = 0; k < m; ++k) {
            c.require(got[k] < m, "foreign", "an element is not one of the pool");
            ++counts[k * m + got[k]];
        }
        ++pairs[got[0] * m + got[1]];
    }
    for (std::size_t i = 0; i < m; ++i)
        for (std::size_t j = 0; j < m; ++j) {
            c.require(likely(counts[i * m + j], trials, 1.0 / double(m)), "uniform", "element ", j, " of ", m, " is drawn as number ", i, " in ", counts[i * m + j], " of ", trials, " selections");
            c.require(likely(pairs[i * m + j], trials, i == j ? 0.0 : 1.0 / double(m * (m - 1))), "pairs", "elements ", i, " and ", j, " are drawn in this order in ", pairs[i * m + j], " of ", trials, " selections");
        }
    c.nontrivial(m > 2);
}

void elements(pbt::Case& c) {
    const std::size_t m = 1 + c.draw(10), n = c.draw(m + 1);
    std::vector<int>  pool(m);
    for (std::size_t i = 0; i < m; ++i) pool[i] = int(7 * i) - 20;
    if (c.showing()) c.show() << n << " of " << m << " elements\n";
    auto draw = [&](std::size_t k) {
        std::vector<std::size_t> out;
        for (int e : rnd::select_n_elements(pool.begin(), pool.end(), k)) out.push_back((e + 20) % 7 == 0 && e >= -20 ? std::size_t((e + 20) / 7) : m);
        return out;
    };
    distinct_and_uniform(c, m, n, [&] { return draw(n); });
    if (m > 1 && m < 7 && c.chance(1, 4)) pairs_uniform(c, m, [&] { return draw(2); });
}

void interval(pbt::Case& c) {
    const std::size_t m = 1 + c.draw(10), n = c.draw(m + 1);
    const long        first = c.symmetric(50);
    if (c.showing()) c.show() << n << " of [" << first << ", " << first + long(m) << ")\n";
    auto draw = [&](std::size_t k) {
        std::vector<std::size_t> out;
        for (long e : rnd::make_n_elements_from_interval<long>(k, {first, first + long(m)})) out.push_back(e >= first ? std::size_t(e - first) : m);
        return out;
    };
    distinct_and_uniform(c, m, n, [&] { return draw(n); });
    if (m > 1 && m < 7 && c.chance(1, 4)) pairs_uniform(c, m, [&] { return draw(2); });
}

template <typename T>
void samples(pbt::Case& c) {
    const std::size_t m = 1 + c.draw(8), d = 1 + c.draw(3), n = 1 + c.draw(m);
    const auto        pool = rows<T>(c, m, d);
    const auto        how  = c.draw(4);
    if (c.showing()) c.show() << n << " of " << gen::show_rows(pool, d) << " by " << how << "\n";
    const auto b = pool.begin(), e = pool.end();
    if (how == 0) {
        distinct_and_uniform(c, m, 1, [&] { return positions(c, pool, rnd::select_random_sample(b, e, d), d); });
    } else if (how == 1) {
        distinct_and_uniform(c, m, n, [&] { return positions(c, pool, rnd::select_n_random_samples(b, e, d, n), d); });
        const auto more = positions(c, pool, rnd::select_n_random_samples(b, e, d, m + c.draw(4)), d);
        c.require(more.size() == m, "clipped", more.size(), " samples out of ", m);
    } else if (how == 2) {
        distinct_and_uniform(c, m, n, [&] { return positions(c, pool, rnd::init_uniform(b, e, d, n), d); });
    } else {
        auto chosen = gen::iota(m);
        gen::shuffle(c, chosen);
        chosen.resize(1 + c.draw(m));
        if (c.showing()) c.show() << "from indices " << pbt::list_of(chosen) << "\n";
        const std::size_t k = 1 + c.draw(chosen.size());
        distinct_and_uniform(c, chosen.size(), k, [&] {
            auto out = positions(c, pool, rnd::select_n_random_samples_from_indices(chosen.begin(), chosen.end(), b, e, d, k), d);
            for (auto& i : out) i = std::size_t(std::find(chosen.begin(), chosen.end(), i) - chosen.begin());
            return out;
        });
    }
}

// pools of hundreds or thousands of elements, counted by eighths of the pool and of the selection
void large(pbt::Case& c, bool huge = false) {
    const std::size_t m = huge ? 65537 + c.draw(140000) : 20 + c.draw(std::size_t(1) << (4 + c.draw(9))), n = 1 + c.draw(c.chance(1, 3) ? m : std::min<std::size_t>(m, 40)), how = c.draw(5);
    const std::size_t d = how < 2 ? 1 : 1 + c.draw(2), trials = std::max<std::size_t>(30, 6000 / n);
    if (c.showing()) c.show() << n << " of " << m << " elements or samples by " << how << "\n";
    std::vector<double>      pool(m * d);
    std::vector<std::size_t> indices(m);
    for (std::size_t i = 0; i < m; ++i) {
        indices[i] = m - 1 - i;
        for (std::size_t f = 0; f < d; ++f) pool[i * d + f] = double(10 * i + 3) + double(f) / 4;
    }
    const auto b = pool.begin(), e = pool.end();
    auto       draw = [&]() -> std::vector<std::size_t> {
        switch (how) {
            case 0: return rnd::select_n_elements(indices.begin(), indices.end(), n);
            case 1: return rnd::make_n_elements_from_interval<std::size_t>(n, {0, m});
            case 2: return positions(c, pool, rnd::select_n_random_samples(b, e, d, n), d);
            case 3: return positions(c, pool, rnd::init_uniform(b, e, d, n), d);
            default: return positions(c, pool, rnd::select_n_random_samples_from_indices(indices.begin(), indices.end(), b, e, d, n), d);
        }
    };
    std::vector<std::size_t> counts(64), widths(8), heights(8);
    for (std::size_t i = 0; i < m; ++i) ++widths[i * 8 / m];
    for (std::size_t k = 0; k < n; ++k) ++heights[k * 8 / n];
    for (std::size_t t = 0; t < trials; ++t) {
        const auto got = draw();
        c.require(got.size() == n, "size", got.size(), " elements instead of ", n);
        std::vector<char> seen(m);
        for (std::size_t k = 0; k < n; ++k) {
            c.require(got[k] < m, "foreign", "an element is not one of the pool");
            c.require(!seen[got[k]], "repeated", "element ", got[k], " is drawn twice");
            seen[got[k]] = 1;
            ++counts[(k * 8 / n) * 8 + got[k] * 8 / m];
        }
    }
    for (std::size_t h = 0; h < 8; ++h)
        for (std::size_t w = 0; w < 8; ++w)
            c.require(likely(counts[h * 8 + w], trials * heights[h], double(widths[w]) / double(m)), "uniform", "eighth ", w, " of the pool gives ", counts[h * 8 + w], " of the ", trials * heights[h], " elements of the eighth ", h, " of the selections");
    c.nontrivial(m > 64 && n < m);
}

// every element of a larger pool is drawn sooner or later, the first and the last one included: one of m elements is not among 45 m draws with a
// probability of m exp(-45)
void reached(pbt::Case& c) {
    const std::size_t m = 20 + c.draw(std::size_t(1) << (4 + c.draw(5))), how = c.draw(6), n = how == 5 ? 1 : 1 + c.draw(std::min<std::size_t>(m, 40));
    const std::size_t d = how < 2 ? 1 : 1 + c.draw(2), trials = 45 * m / n + 1;
    if (c.showing()) c.show() << n << " of " << m << " elements or samples by " << how << "\n";
    std::vector<double>      pool(m * d);
    std::vector<std::size_t> indices(m);
    for (std::size_t i = 0; i < m; ++i) {
        indices[i] = m - 1 - i;
        for (std::size_t f = 0; f < d; ++f) pool[i * d + f] = double(10 * i + 3) + double(f) / 4;
    }
    const auto b = pool.begin(), e = pool.end();
    auto       draw = [&]() -> std::vector<std::size_t> {
        auto rows = [&](const std::vector<double>& s) {
            std::vector<std::size_t> out;
            for (std::size_t i = 0; i < s.size(); i += d) out.push_back(std::size_t(s[i] / 10));
            return out;
        };
        switch (how) {
            case 0: return rnd::select_n_elements(indices.begin(), indices.end(), n);
            case 1: return rnd::make_n_elements_from_interval<std::size_t>(n, {0, m});
            case 2: return rows(rnd::select_n_random_samples(b, e, d, n));
            case 3: return rows(rnd::init_uniform(b, e, d, n));
            case 4: return rows(rnd::select_n_random_samples_from_indices(indices.begin(), indices.end(), b, e, d, n));
            default: return rows(rnd::select_random_sample(b, e, d));
        }
    };
    std::vector<std::size_t> counts(m);
    for (std::size_t t = 0; t < trials; ++t)
        for (auto i : draw()) {
            c.require(i < m, "foreign", "an element is not one of the pool");
            ++counts[i];
        }
    for (std::size_t i = 0; i < m; ++i) c.require(counts[i] > 0, "reached", "element ", i, " of ", m, " is not among ", trials * n, " drawn ones");
    c.nontrivial(m > 32);
}

// centroids spread over the bounds of the samples
template <typename T>
void spatial(pbt::Case& c) {
    const std::size_t m = 1 + c.draw(8), d = 1 + c.draw(3);
    std::vector<T>    v(m * d);
    const bool        below = c.chance(1, 2);
    for (auto& x : v) x = static_cast<T>(below ? -1 - std::int64_t(c.draw(30)) : c.symmetric(30));
    if (c.showing()) c.show() << "samples " << gen::show_rows(v, d) << "\n";
    const std::size_t k   = 300;
    const auto        got = rnd::init_spatial_uniform(v.begin(), v.end(), d, k);
    c.require(got.size() == k * d, "size", got.size());
    for (std::size_t f = 0; f < d; ++f) {
        T lo = v[f], hi = v[f], glo = got[f], ghi = got[f];
        for (std::size_t i = 0; i < m; ++i) lo = std::min(lo, v[i * d + f]), hi = std::max(hi, v[i * d + f]);
        for (std::size_t i = 0; i < k; ++i) glo = std::min(glo, got[i * d + f]), ghi = std::max(ghi, got[i * d + f]);
        c.require(glo >= lo && ghi <= hi, "bounds", "feature ", f, " in [", double(glo), ", ", double(ghi), "], outside of [", double(lo), ", ", double(hi), "]");
        // each quarter at the ends holds about a quarter of the draws: 300 draws miss it once in 1e37
        c.require(double(glo) <= double(lo) + 0.25 * double(hi - lo) && double(ghi) >= double(hi) - 0.25 * double(hi - lo), "spread", "feature ", f, " in [", double(glo), ", ", double(ghi), "] only, the samples are in [", double(lo), ", ", double(hi), "]");
        c.nontrivial(lo < hi);
    }
}

// uniform numbers
template <typename T>
void uniform(pbt::Case& c) {
    const std::int64_t lo = c.symmetric(20), span = std::int64_t(c.draw(8)) + (std::is_integral<T>::value ? 0 : 1);
    if (c.showing()) c.show() << "[" << lo << ", " << lo + span << "]\n";
    rnd::uniform_distribution<T> u(static_cast<T>(lo), static_cast<T>(lo + span));
    const bool                   seeded = c.chance(1, 3);
    const std::size_t            seed = c.draw(1000), trials = 600, bins = std::size_t(span) + std::is_integral<T>::value;
    std::vector<std::size_t>     counts(bins);
    for (std::size_t t = 0; t < trials; ++t) {
        const double x = double(seeded ? u(seed) : u());
        c.require(x >= double(lo) && x <= double(lo + span), "bounds", x);
        const auto bin = std::min(std::size_t(std::floor(x - double(lo))), bins - 1);
        ++counts[bin];
    }
    for (std::size_t i = 0; i < bins; ++i) c.require(likely(counts[i], trials, 1.0 / double(bins)), "uniform", "bin ", i, " of ", bins, ": ", counts[i], " of ", trials);
    c.nontrivial(bins > 1);
}

// normal numbers and their discrete counterpart
template <typename T>
void normal(pbt::Case& c) {
    const std::int64_t a = std::is_integral<T>::value ? std::int64_t(c.draw(30)) : c.symmetric(30);
    const double       b = std::is_integral<T>::value ? double(1 + c.draw(9)) / 10 : double(1 + c.draw(40)) / 10;
    if (c.showing()) c.show() << (std::is_integral<T>::value ? "trials " : "mean ") << a << (std::is_integral<T>::value ? ", success rate " : ", standard deviation ") << b << "\n";
    rnd::normal_distribution<T> g(static_cast<T>(a), b);
    const double      mean = std::is_integral<T>::value ? double(a) * b : double(a), sd = std::is_integral<T>::value ? std::sqrt(double(a) * b * (1 - b)) : b;
    const std::size_t trials = 600;
    double            sum = 0, squares = 0;
    for (std::size_t t = 0; t < trials; ++t) {
        const double x = double(g());
        if (std::is_integral<T>::value) c.require(x >= 0 && x <= double(a), "bounds", x);
        sum += x - mean;
        squares += (x - mean) * (x - mean);
    }
    c.require(std::fabs(sum / double(trials)) <= 9 * sd / std::sqrt(double(trials)) + 1e-6, "normal-mean", sum / double(trials) + mean, " instead of ", mean);
    const double v = squares / double(trials);
    if (!std::is_integral<T>::value) c.require(v > 0.4 * sd * sd && v < 2.2 * sd * sd, "normal-sd", std::sqrt(v), " instead of ", sd);
    c.nontrivial(sd > 0);
}

LAW("reached", 1200, 20000, reached);
LAW("shuffles", 40, 800, shuffles);
LAW("large", 600, 12000, [](pbt::Case& c) { large(c); });
LAW("huge", 6, 200, [](pbt::Case& c) { large(c, true); }, 120);
LAW("elements", 6000, 240000, elements);
LAW("interval", 6000, 240000, interval);
LAW("samples-double", 6000, 200000, samples<double>);
LAW("samples-int", 6000, 200000, samples<int>);
LAW("spatial-double", 10000, 200000, spatial<double>);
LAW("spatial-float", 10000, 200000, spatial<float>);
LAW("spatial-int", 10000, 200000, spatial<int>);
LAW("uniform-double", 8000, 160000, uniform<double>);
LAW("uniform-int", 8000, 160000, uniform<int>);

LAW("normal-double", 4000, 80000, normal<double>);
LAW("normal-float", 4000, 80000, normal<float>);
LAW("normal-int", 4000, 80000, normal<int>);

}  // namespace
