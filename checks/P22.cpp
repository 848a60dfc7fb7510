// P22: the statistics of Statistics.hpp are those of the elements they are given.
#include "gen.hpp"

#include <cassert>

#include "ffcl/common/math/statistics/Statistics.hpp"

namespace {

namespace st = ffcl::common::math::statistics;

template <typename T>
std::vector<T> values(pbt::Case& c, std::size_t least, std::size_t most) {
    const std::size_t n = gen::sizeable(c, least, least, most);
    std::vector<T>    v(n);
    const auto        shape = c.draw(5);
    const std::int64_t span = 1 + c.draw(shape == 0 ? 3 : 100);
    if (gen::is_huge(n)) {
        gen::Stream s(c);
        for (auto& x : v) x = static_cast<T>(s.draw(shape == 0 ? 200 : 1u << 30));
    } else for (auto& x : v) {
        if (std::is_floating_point<T>::value) x = static_cast<T>(shape == 4 ? double(c.symmetric(span)) * 1e-3 : double(c.symmetric(span)));
        else if (std::is_signed<T>::value) x = static_cast<T>(c.symmetric(span));
        else x = static_cast<T>(c.draw(span + 1));
    }
    if (n && shape == 3) v[c.draw(n)] = std::numeric_limits<T>::lowest();
    if (n && shape == 2) v[c.draw(n)] = std::numeric_limits<T>::max();
    if (c.showing()) c.show() << "values " << pbt::list_of(v) << "\n";
    return v;
}

// positions and values of smallest, largest, second largest, n-th smallest elements
template <typename T>
void order(pbt::Case& c, std::size_t most) {
    auto       v = values<T>(c, 1, most);
    const auto w = v;
    const auto n = v.size();
    std::vector<std::size_t> by(n);
    std::iota(by.begin(), by.end(), std::size_t{0});
    std::stable_sort(by.begin(), by.end(), [&](auto i, auto j) { return w[i] < w[j]; });
    std::size_t lo = 0, hi = 0;
    for (std::size_t i = 1; i < n; ++i) {
        if (w[i] < w[lo]) lo = i;
        if (w[hi] < w[i]) hi = i;
    }
    const auto amin = static_cast<std::size_t>(st::argmin(v.begin(), v.end()));
    const auto amax = static_cast<std::size_t>(st::argmax(v.begin(), v.end()));
    c.require(amin == lo, "argmin", amin, " instead of ", lo);
    c.require(amax == hi, "argmax", amax, " instead of ", hi);
    const auto [i0, v0] = st::get_min_index_value_pair(v.begin(), v.end());
    c.require(i0 == lo && v0 == w[lo], "min-pair", i0, " instead of ", lo);
    const auto [i1, v1] = st::get_max_index_value_pair(v.begin(), v.end());
    c.require(i1 == hi && v1 == w[hi], "max-pair", i1, " instead of ", hi);
    const auto [i2, v2] = st::get_second_max_index_value_pair(v.begin(), v.end());
    if (n > 1) {
        std::size_t second = hi == 0 ? 1 : 0;
        for (std::size_t i = 0; i < n; ++i)
            if (i != hi && w[second] < w[i]) second = i;
        c.require(i2 == second && v2 == w[second], "second-max", "element ", i2, " of value ", +v2, " instead of element ", second, " of value ", +w[second]);
    } else {
        c.require(i2 == 0 && v2 == w[0], "second-max", "element ", i2);
    }
    c.require(v == w, "untouched", "the values were changed");
    const std::size_t k   = 1 + c.draw(n);
    const auto [i3, v3]   = st::find_nth_smallest_index_and_element(v.begin(), v.end(), k);
    c.require(v3 == w[by[k - 1]], "nth-smallest", k, "-th smallest: ", +v3, " instead of ", +w[by[k - 1]]);
    c.require(i3 < n && w[i3] == v3, "nth-index", k, "-th smallest at ", i3);
    c.nontrivial(n > 2 && w[lo] < w[hi]);
}

LAW("order-huge", 10, 300, [](pbt::Case& c) { c.chance(1, 2) ? order<double>(c, gen::kHuge) : order<int>(c, gen::kHuge); }, 120);
LAW("order-double", 30000, 600000, [](pbt::Case& c) { order<double>(c, 40); });
LAW("order-int", 30000, 600000, [](pbt::Case& c) { order<int>(c, 40); });
LAW("order-size_t", 30000, 600000, [](pbt::Case& c) { order<std::size_t>(c, 40); });
LAW("order-uint8", 20000, 400000, [](pbt::Case& c) { order<std::uint8_t>(c, 600); });
LAW("order-int8", 20000, 400000, [](pbt::Case& c) { order<std::int8_t>(c, 600); });

// normalisations
template <typename T>
void normal(pbt::Case& c) {
    const std::size_t n = 1 + c.draw(30);
    std::vector<T>    v(n);
    const auto        span = 1 + c.draw(60);
    for (auto& x : v) x = static_cast<T>(c.draw(span));
    if (std::is_floating_point<T>::value && c.chance(1, 2))
        for (auto& x : v) x /= T(8);
    if (c.showing()) c.show() << "values " << pbt::list_of(v) << "\n";
    const double lo = double(*std::min_element(v.begin(), v.end())), hi = double(*std::max_element(v.begin(), v.end()));
    const auto   a = st::normalize_min_max(v.begin(), v.end());
    c.require(a.size() == n, "size", a.size());
    for (std::size_t i = 0; i < n; ++i) {
        const double want = lo == hi ? 1.0 / double(n) : 1 - (double(v[i]) - lo) / (hi - lo);
        c.require(pbt::close(double(a[i]), want, 1e-6, 1e-6), "min-max", "element ", i, ": ", double(a[i]), " instead of ", want);
    }
    double sum = 0;
    for (auto x : v) sum += double(x);
    if (sum > 0) {
        const auto b = st::normalize(v.begin(), v.end());
        double     total = 0;
        c.require(b.size() == n, "size", b.size());
        for (std::size_t i = 0; i < n; ++i) {
            c.require(pbt::close(double(b[i]), double(v[i]) / sum, 1e-6, 1e-6), "normalize", "element ", i, ": ", double(b[i]), " instead of ", double(v[i]) / sum);
            total += double(b[i]);
        }
        c.require(pbt::close(total, 1, 1e-5, 1e-5), "total", total);
    }
    std::vector<T> other(n);
    for (auto& x : other) x = static_cast<T>(c.draw(span));
    auto left = v;
    st::min_container_inplace_left(left, other);
    for (std::size_t i = 0; i < n; ++i) c.require(left[i] == std::min(v[i], other[i]), "minimum", "element ", i);
    c.nontrivial(lo < hi);
}

LAW("normalize-float", 20000, 400000, normal<float>);
LAW("normalize-double", 20000, 400000, normal<double>);
LAW("normalize-int", 20000, 400000, normal<int>);
LAW("normalize-uint8", 20000, 400000, normal<std::uint8_t>);

// means and variances of the features of the selected samples
template <typename T>
void moments(pbt::Case& c, std::size_t max_n = 40) {
    const bool        real = std::is_floating_point<T>::value;
    const std::size_t n = gen::sizeable(c, 2, 4, max_n);
    const std::size_t d = gen::dims(c, n, 6);
    gen::Data<T>      x;
    if constexpr (std::is_floating_point<T>::value) {
        x = gen::data<T>(c, n, d);
    } else {
        x.n = n;
        x.d = d;
        x.v.resize(n * d);
        x.span = 50;
        const auto flat = c.draw(d + 1);
        for (std::size_t i = 0; i < n * d; ++i) x.v[i] = static_cast<T>(c.draw(i % d == flat ? 3 : 50));
        if (std::is_signed<T>::value && c.chance(1, 2))
            for (auto& e : x.v) e = static_cast<T>(e - 25);
    }
    if (c.showing()) c.show() << "samples " << gen::show_rows(x.v, d) << "\n";
    auto chosen = gen::indices(c, n, 2);
    if (chosen.size() < 2) chosen = gen::iota(n);
    if (c.chance(1, 6)) chosen.push_back(chosen[c.draw(chosen.size())]);
    auto mask = gen::iota(d);
    gen::shuffle(c, mask);
    mask.resize(1 + c.draw(d));
    if (c.showing()) c.show() << "indices " << pbt::list_of(chosen) << " mask " << pbt::list_of(mask) << "\n";

    struct Moment { long double mean, squares; };
    auto moment = [&](const std::vector<std::size_t>& rows, std::size_t f) {
        long double sum = 0, squares = 0;
        for (auto i : rows) sum += static_cast<long double>(x.v[i * d + f]);
        const long double mean = sum / rows.size();
        for (auto i : rows) squares += (x.v[i * d + f] - mean) * (x.v[i * d + f] - mean);
        return Moment{mean, squares};
    };
    const double eps  = real ? double(std::numeric_limits<T>::epsilon()) : 0;
    auto         mtol = [&](std::size_t m) { return real ? 4 * eps * double(m) * x.span : 1.0 - 1e-12; };
    auto         check = [&](const std::vector<std::size_t>& rows, const std::vector<std::size_t>& fs, const auto& mean, const auto& var, std::size_t arg) {
        const std::size_t m = rows.size();
        c.require(mean.size() == fs.size() && var.size() == fs.size(), "size", mean.size(), " ", var.size());
        long double best = 0;
        for (std::size_t k = 0; k < fs.size(); ++k) {
            const auto want = moment(rows, fs[k]);
            c.require(std::fabs(double(mean[k]) - double(want.mean)) <= mtol(m), "mean", "feature ", fs[k], ": ", double(mean[k]), " instead of ", double(want.mean));
            const long double exact = want.squares / (m - 1);
            const long double slack = real ? 16 * eps * m * (want.squares + x.span * x.span * eps * m) / (m - 1) + 4 * eps * eps * m * m * x.span * x.span : (m / (m - 1.0L));
            c.require(double(var[k]) >= double(exact - (real ? slack : 1)) - 1e-300 && double(var[k]) <= double(exact + slack) + 1e-300, "variance", "feature ", fs[k], ": ", double(var[k]), " instead of ", double(exact));
            best = std::max(best, want.squares);
        }
        // the selected feature is one of largest variance
        c.require(std::find(fs.begin(), fs.end(), arg) != fs.end(), "argmax-feature", "feature ", arg, " is not one of them");
        const auto        got   = moment(rows, arg);
        const long double slack = real ? 32 * eps * m * (best + x.span * x.span * eps * m) : m;
        c.require(got.squares >= best - slack, "argmax-variance", "feature ", arg, ", of variance ", double(got.squares), ", instead of ", double(best));
        c.nontrivial(fs.size() > 1 && m > 2 && best > 0);
    };
    const auto all = gen::iota(n), fs = gen::iota(d);
    const auto b = x.v.cbegin(), e = x.v.cend();
    check(all, fs, st::compute_mean_per_feature(b, e, d), st::compute_variance_per_feature(b, e, d), st::argmax_variance_per_feature(b, e, d));
    const auto ib = chosen.cbegin(), ie = chosen.cend();
    check(chosen, fs, st::compute_mean_per_feature(ib, ie, b, e, d), st::compute_variance_per_feature(ib, ie, b, e, d), st::argmax_variance_per_feature(ib, ie, b, e, d));
    check(chosen, mask, st::compute_mean_per_feature(ib, ie, b, e, d, mask), st::compute_variance_per_feature(ib, ie, b, e, d, mask), st::argmax_variance_per_feature(ib, ie, b, e, d, mask));

    // one sequence
    std::vector<T> seq(n);
    for (std::size_t i = 0; i < n; ++i) seq[i] = x.v[i * d];
    const auto        want  = moment(all, 0);
    const long double exact = want.squares / (n - 1);
    long double       squares = 0;
    for (auto s : seq) squares += static_cast<long double>(s) * s;
    const double v = double(st::compute_variance(seq.cbegin(), seq.cend()));
    const long double slack = real ? 8 * eps * n * squares : 0;
    c.require(v >= double(exact - (real ? slack : 1)) - 1e-300 && v <= double(exact + (real ? slack : 1.0L / (n - 1))) + 1e-9, "sequence-variance", v, " instead of ", double(exact));
}

LAW("moments-float", 30000, 500000, [](pbt::Case& c) { moments<float>(c); });
LAW("moments-double", 30000, 500000, [](pbt::Case& c) { moments<double>(c); });
LAW("moments-int", 30000, 500000, [](pbt::Case& c) { moments<int>(c); });
LAW("moments-huge", 6, 200, [](pbt::Case& c) { moments<double>(c, gen::kHuge); }, 120);
LAW("moments-size_t", 30000, 500000, [](pbt::Case& c) { moments<std::size_t>(c); });

}  // namespace
