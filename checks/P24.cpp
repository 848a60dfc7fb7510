// P24: weighted draws follow their weights, k-means++ draws samples away from the centroids it has.
#include "kmeans.hpp"

#include <cassert>
#include <map>
#include <numeric>

#include "ffcl/common/math/random/VosesAliasMethod.hpp"
#include "ffcl/kmeans/KMeansPlusPlus.hpp"

namespace {

namespace rnd = ffcl::common::math::random;

bool likely(std::size_t count, std::size_t trials, double p) {
    return std::fabs(double(count) - double(trials) * p) <= 9 * std::sqrt(double(trials) * p * (1 - p)) + 20;
}

template <typename W>
void alias(pbt::Case& c, std::size_t most, std::size_t factor = 1) {
    const std::size_t n = gen::sizeable(c, 1, 2, most);
    std::vector<W>    w(n);
    const auto        shape = c.draw(5);
    for (auto& x : w) {
        const double base = shape == 0 ? double(c.draw(4)) : shape == 1 ? double(c.chance(1, 4) ? 1 + c.draw(20) : 0) : shape == 2 ? 1 + double(c.draw(3)) : shape == 3 ? double(c.draw(100)) : 1;
        x = std::is_floating_point<W>::value ? static_cast<W>(base * (1 + (shape == 3 ? c.unit() : 0)) / (shape == 4 ? 3 : 1)) : static_cast<W>(base);
    }
    if (shape == 1 && c.chance(1, 2)) w[c.draw(n)] = static_cast<W>(std::is_floating_point<W>::value ? 1e6 : 1000);
    double sum = 0;
    for (auto x : w) sum += double(x);
    if (!(sum > 0)) w[c.draw(n)] = 1, sum = 1;
    if (c.showing()) c.show() << "weights " << pbt::list_of(w) << "\n";
    rnd::VosesAliasMethod<W> method(w);
    const std::size_t        trials = factor * (1000 + 20 * n);
    std::vector<std::size_t> counts(n);
    for (std::size_t t = 0; t < trials; ++t) {
        const auto i = t % 2 ? method.sample() : method();
        c.require(i < n, "range", i, " out of ", n, " weights");
        c.require(w[i] > 0, "zero-weight", "element ", i, " of weight 0 is drawn");
        ++counts[i];
    }
    for (std::size_t i = 0; i < n; ++i) {
        const double p = double(w[i]) / sum;
        c.require(likely(counts[i], trials, p), "frequency", "element ", i, " of probability ", p, " is drawn ", counts[i], " times out of ", trials);
    }
    // the lightest half together, for the elements too light to be judged alone
    std::vector<std::size_t> by(n);
    std::iota(by.begin(), by.end(), std::size_t{0});
    std::stable_sort(by.begin(), by.end(), [&](auto i, auto j) { return w[i] < w[j]; });
    double      p = 0;
    std::size_t count = 0;
    for (std::size_t k = 0; k < n; ++k) {
        p += double(w[by[k]]) / sum;
        count += counts[by[k]];
        c.require(likely(count, trials, std::min(p, 1.0)), "frequency", "the ", k + 1, " lightest elements, of probability ", p, ", are drawn ", count, " times out of ", trials);
    }
    c.nontrivial(n > 2 && std::count(w.begin(), w.end(), w[0]) != std::ptrdiff_t(n));
}

LAW("alias-huge", 3, 60, [](pbt::Case& c) { alias<double>(c, gen::kHuge); }, 120);
LAW("alias-float", 8000, 160000, [](pbt::Case& c) { alias<float>(c, 12); });
LAW("alias-double", 8000, 160000, [](pbt::Case& c) { alias<double>(c, 12); });
LAW("alias-int", 8000, 160000, [](pbt::Case& c) { alias<int>(c, 12); });
LAW("alias-accurate", 60, 1200, [](pbt::Case& c) { c.chance(1, 2) ? alias<float>(c, 12, 50) : alias<int>(c, 12, 50); });
LAW("alias-many", 300, 6000, [](pbt::Case& c) { alias<float>(c, 400); });

// without weights there is nothing to draw
LAW("alias-empty", 20, 20, [](pbt::Case& c) {
    bool thrown = false;
    try {
        rnd::VosesAliasMethod<double> method(std::vector<double>{});
    } catch (const std::invalid_argument&) {
        thrown = true;
    }
    c.require(thrown, "empty", "no weights are accepted");
});

template <typename T>
void plusplus(pbt::Case& c, std::size_t max_n) {
    const std::size_t n = gen::sizeable(c, 1, 2, max_n);
    const std::size_t d = gen::features(c, 3);
    gen::Data<T>      x;
    if constexpr (std::is_floating_point<T>::value) {
        x = gen::exact_data<T>(c, n, d);
    } else {
        x = gen::integers<T>(c, n, d, 20);
    }
    const std::size_t k    = 1 + c.draw(n);
    const bool        prev = c.chance(1, 3);
    if (c.showing()) c.show() << "samples " << gen::show_rows(x.v, d) << ", " << k << " centroids" << (prev ? " from the previous one" : "") << "\n";
    const auto got = prev ? ffcl::kmeansplusplus::make_centroids_from_previous_centroid(x.v.begin(), x.v.end(), d, k) : ffcl::kmeansplusplus::make_centroids(x.v.begin(), x.v.end(), d, k);
    c.require(got.size() == k * d, "size", got.size(), " values");
    auto same = [&](const T* a, const T* b) { return std::equal(a, a + d, b); };
    std::size_t distinct = 0;
    for (std::size_t i = 0; i < n; ++i) {
        bool first = true;
        for (std::size_t j = 0; j < i; ++j) first = first && !same(x.row(i), x.row(j));
        distinct += first;
    }
    for (std::size_t q = 0; q < k; ++q) {
        bool found = false;
        for (std::size_t i = 0; i < n; ++i) found = found || same(&got[q * d], x.row(i));
        c.require(found, "not-a-sample", "centroid ", q, " is not a sample");
        if (prev && distinct > 1 && q > 0) c.require(!same(&got[q * d], &got[(q - 1) * d]), "repeats-previous", "centroid ", q, " is the one before");
        if (!prev && q < distinct)
            for (std::size_t r = 0; r < q; ++r) c.require(!same(&got[q * d], &got[r * d]), "repeats", "centroid ", q, " is centroid ", r, " while other samples are left");
    }
    c.nontrivial(k > 1 && distinct > 2);
}

LAW("plusplus-float", 30000, 600000, [](pbt::Case& c) { plusplus<float>(c, 16); });
LAW("plusplus-double", 30000, 600000, [](pbt::Case& c) { plusplus<double>(c, 16); });
LAW("plusplus-large", 100, 2000, [](pbt::Case& c) { plusplus<double>(c, 300); });
LAW("plusplus-unsigned", 10000, 200000, [](pbt::Case& c) { plusplus<unsigned>(c, 16); });
LAW("plusplus-int", 30000, 600000, [](pbt::Case& c) { plusplus<int>(c, 16); });

// the second centroid is drawn with the distance to the first one as weight, the first one uniformly
template <typename T>
void second(pbt::Case& c) {
    const std::size_t n = 2 + c.draw(5);
    std::vector<T>    v(n);
    std::int64_t      at = c.symmetric(20);
    for (auto& e : v) e = static_cast<T>(at), at += 1 + std::int64_t(c.draw(9));
    gen::shuffle(c, v);
    if (c.showing()) c.show() << "samples " << gen::show_rows(v, 1) << "\n";
    const std::size_t                     trials = 2000;
    std::vector<std::size_t>              counts(n * n), first(n);
    for (std::size_t t = 0; t < trials; ++t) {
        const auto got = ffcl::kmeansplusplus::make_centroids(v.begin(), v.end(), 1, 2);
        const auto i   = std::size_t(std::find(v.begin(), v.end(), got[0]) - v.begin());
        const auto j   = std::size_t(std::find(v.begin(), v.end(), got[1]) - v.begin());
        c.require(i < n && j < n, "not-a-sample", "a centroid is not a sample");
        ++counts[i * n + j];
        ++first[i];
    }
    for (std::size_t i = 0; i < n; ++i) {
        c.require(likely(first[i], trials, 1.0 / double(n)), "first", "sample ", i, " is the first centroid ", first[i], " times out of ", trials);
        double total = 0;
        for (std::size_t j = 0; j < n; ++j) total += gen::metric(&v[i], &v[j], 1);
        for (std::size_t j = 0; j < n; ++j) {
            const double p = gen::metric(&v[i], &v[j], 1) / total;
            c.require(likely(counts[i * n + j], first[i], p), "second", "sample ", j, " of probability ", p, " is drawn ", counts[i * n + j], " times out of ", first[i]);
        }
    }
    c.nontrivial(n > 2);
}

// each further centroid given the ones before, in more dimensions and in both versions
template <typename T>
void chain(pbt::Case& c) {
    const std::size_t n = 3 + c.draw(3), d = 1 + c.draw(2), k = 3 + c.draw(n - 2);
    std::vector<T>    v(n * d);
    for (std::size_t i = 0; i < n; ++i)
        for (std::size_t f = 0; f < d; ++f) v[i * d + f] = static_cast<T>(c.symmetric(12));
    std::vector<const T*> row(n);
    for (std::size_t i = 0; i < n; ++i) row[i] = &v[i * d];
    for (std::size_t i = 0; i < n; ++i)
        for (std::size_t j = 0; j < i; ++j)
            if (std::equal(row[i], row[i] + d, row[j])) return;
    const bool prev = c.chance(1, 2);
    if (c.showing()) c.show() << "samples " << gen::show_rows(v, d) << ", " << k << " centroids" << (prev ? " from the previous one" : "") << "\n";
    const std::size_t                                          trials = 8000;
    std::map<std::vector<std::size_t>, std::vector<std::size_t>> next;
    for (std::size_t t = 0; t < trials; ++t) {
        const auto got = prev ? ffcl::kmeansplusplus::make_centroids_from_previous_centroid(v.begin(), v.end(), d, k) : ffcl::kmeansplusplus::make_centroids(v.begin(), v.end(), d, k);
        c.require(got.size() == k * d, "size", got.size(), " values");
        std::vector<std::size_t> before;
        for (std::size_t q = 0; q < k; ++q) {
            std::size_t i = 0;
            while (i < n && !std::equal(row[i], row[i] + d, got.begin() + q * d)) ++i;
            c.require(i < n, "not-a-sample", "a centroid is not a sample");
            auto& counts = next[before];
            counts.resize(n);
            ++counts[i];
            before.push_back(i);
        }
    }
    for (const auto& [before, counts] : next) {
        std::vector<double> weight(n, 1.0);
        double              total = 0;
        std::size_t         all = 0;
        for (std::size_t i = 0; i < n; ++i) {
            if (!before.empty()) {
                weight[i] = gen::metric(row[i], row[before.back()], d);
                for (std::size_t b : before)
                    if (!prev) weight[i] = std::min<double>(weight[i], gen::metric(row[i], row[b], d));
            }
            total += weight[i];
            all += counts[i];
        }
        for (std::size_t i = 0; i < n; ++i)
            c.require(likely(counts[i], all, weight[i] / total), "next", "sample ", i, " of probability ", weight[i] / total, " comes ", counts[i], " times out of ", all, " after ", pbt::list_of(before));
    }
    c.nontrivial(true);
}

LAW("chain-double", 160, 4000, chain<double>);
LAW("chain-int", 160, 4000, chain<int>);
LAW("second-double", 600, 30000, second<double>);
LAW("second-int", 600, 30000, second<int>);

}  // namespace
