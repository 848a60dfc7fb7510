// P26: numeric and container helpers: comparisons, centres, permutations, transposition, translation.
#include "gen.hpp"

#include <cassert>
#include <stdexcept>

#include "ffcl/common/Utils.hpp"
#include "ffcl/common/math/linear_algebra/Translation.hpp"
#include "ffcl/common/math/linear_algebra/Transpose.hpp"

namespace {

namespace fc = ffcl::common;
namespace la = ffcl::common::math::linear_algebra;

template <typename T>
std::vector<T> values(pbt::Case& c, std::size_t n, std::int64_t span) {
    std::vector<T> v(n);
    for (auto& x : v) x = std::is_signed<T>::value ? static_cast<T>(c.symmetric(span)) : static_cast<T>(c.draw(span + 1));
    return v;
}

// every variant of the transposition, and twice is the identity
template <typename T>
void transposes(pbt::Case& c) {
    const std::size_t n = c.chance(1, 3) ? 1 + c.draw(200) : 1 + c.draw(12), d = c.chance(1, 3) ? 1 + c.draw(200) : 1 + c.draw(12);
    std::vector<T>    v(n * d);
    const auto        salt = c.draw(1000);
    for (std::size_t i = 0; i < v.size(); ++i) v[i] = static_cast<T>(salt + i);
    if (c.showing()) c.show() << n << " samples of " << d << " features, " << salt << "...\n";
    auto check = [&](const char* name, const auto& got) {
        const auto& [t, rows, columns] = got;
        c.require(rows == d && columns == n && t.size() == n * d, "shape", name, ": ", rows, " x ", columns);
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t f = 0; f < d; ++f) c.require(t[f * n + i] == v[i * d + f], "transpose", name, ": value (", f, ", ", i, ") of ", d, " x ", n);
        const auto [back, r, q] = la::transpose(t.begin(), t.end(), columns);
        c.require(back == v && r == n && q == d, "involution", name, ": twice is not the identity");
    };
    check("transpose", la::transpose(v.begin(), v.end(), d));
    check("transpose_sequential", la::transpose_sequential(v.begin(), v.end(), d));
    check("transpose_parallel_openmp", la::transpose_parallel_openmp(v.begin(), v.end(), d));
    if (n > 64 && d > 64) c.label("several blocks");
    c.nontrivial(n > 1 && d > 1 && n != d);
}

LAW("transpose-double", 1500, 30000, transposes<double>);
LAW("transpose-int", 1500, 30000, transposes<int>);

template <typename T>
void translation(pbt::Case& c) {
    const std::size_t d = 1 + c.draw(8);
    const auto        a = values<T>(c, d, 50), b = values<T>(c, d, 50);
    if (c.showing()) c.show() << "left " << pbt::list_of(a) << " right " << pbt::list_of(b) << "\n";
    const auto got = la::translate_right_range_to_origin(a.begin(), a.end(), b.begin(), b.end());
    c.require(got.size() == d, "size", got.size());
    for (std::size_t f = 0; f < d; ++f) c.require(got[f] == b[f] - a[f], "translation", "feature ", f, ": ", got[f], " instead of ", b[f] - a[f]);
    c.nontrivial(d > 1 && a != b);
}

LAW("translation-double", 20000, 400000, translation<double>);
LAW("translation-int", 20000, 400000, translation<int>);

// scalars
template <typename T>
void scalars(pbt::Case& c) {
    const bool real = std::is_floating_point<T>::value;
    T          a = static_cast<T>(std::is_signed<T>::value ? c.symmetric(20) : std::int64_t(c.draw(40)));
    T          b = static_cast<T>(std::is_signed<T>::value ? c.symmetric(20) : std::int64_t(c.draw(40)));
    if constexpr (std::is_floating_point<T>::value) {
        const auto eps = std::numeric_limits<T>::epsilon();
        switch (c.draw(4)) {
            default: break;
            case 1: a /= 8, b /= 4; break;
            case 2: a = 1, b = 1 + eps * static_cast<T>(c.symmetric(3)); break;
            case 3: a = eps * static_cast<T>(c.symmetric(4)) / 2, b = 0; break;
        }
    }
    if constexpr (std::is_integral<T>::value) {
        // large values, whose sum still fits
        const int bits = int(8 * sizeof(T)) - 12;
        if (c.chance(1, 4)) a *= T(1) << c.draw(bits > 40 ? 40 : bits);
        if (c.chance(1, 4)) b *= T(1) << c.draw(bits > 40 ? 40 : bits);
    }
    if (c.showing()) c.show() << "a " << gen::fmt(double(a)) << " b " << gen::fmt(double(b)) << "\n";
    const bool same = real ? std::fabs(double(a) - double(b)) <= double(std::numeric_limits<T>::epsilon()) : a == b;
    c.require(fc::equality(a, b) == same && fc::equality(b, a) == same, "equality", double(a), " and ", double(b));
    c.require(fc::inequality(a, b) == !same && fc::inequality(b, a) == !same, "inequality", double(a), " and ", double(b));
    if (std::is_signed<T>::value) c.require(double(fc::abs(a)) == std::fabs(double(a)), "abs", double(a));
    const T    otherwise = static_cast<T>(7);
    const bool none      = real ? std::fabs(double(b)) <= double(std::numeric_limits<T>::epsilon()) : b == 0;
    c.require(fc::division(a, b, otherwise) == (none ? otherwise : static_cast<T>(a / (none ? T(1) : b))), "division", double(a), " / ", double(b));
    c.require(fc::division(a, b) == (none ? T(0) : static_cast<T>(a / (none ? T(1) : b))), "division", double(a), " / ", double(b));
    const T lo = std::min(a, b), hi = std::max(a, b);
    const auto mid = fc::compute_center_with_left_rounding(lo, hi);
    const auto len = fc::compute_size_from_center_with_left_rounding(lo, hi);
    if (real) {
        c.require(pbt::close(double(mid), (double(lo) + double(hi)) / 2, 1e-6, 1e-9), "centre", double(mid));
        c.require(pbt::close(double(len), (double(hi) - double(lo)) / 2, 1e-6, 1e-9), "size", double(len));
    } else {
        c.require(double(mid) == std::floor((double(lo) + double(hi)) / 2), "centre", double(mid), " of ", double(lo), " and ", double(hi));
        c.require(double(len) == 1 + double(hi) - double(mid), "size", double(len), " of ", double(lo), " and ", double(hi));
    }
    c.nontrivial(a != b);
}

LAW("scalars-double", 20000, 400000, scalars<double>);
LAW("scalars-float", 20000, 400000, scalars<float>);
LAW("scalars-int", 20000, 400000, scalars<int>);
LAW("scalars-long", 20000, 400000, scalars<long>);
LAW("scalars-size_t", 20000, 400000, scalars<std::size_t>);

// containers
template <typename T>
void containers(pbt::Case& c) {
    const bool        real = std::is_floating_point<T>::value;
    const std::size_t n = c.draw(12);
    auto              a = values<T>(c, n, 3), b = a;
    const auto        edits = c.draw(3);
    const bool        dyadic = c.chance(1, 3);  // a difference of exactly the tolerance
    for (std::size_t k = 0; n && k < edits; ++k) b[c.draw(n)] = static_cast<T>(c.draw(4));
    if (real && n && c.chance(1, 2)) b[c.draw(n)] += static_cast<T>(double(c.symmetric(4)) * (dyadic ? 0.125 : 1e-3));
    const auto longer = [&] { auto v = b; v.push_back(T(1)); return v; }();
    if (c.showing()) c.show() << "a " << pbt::list_of(a) << " b " << pbt::list_of(b) << "\n";
    const T tolerance = real ? static_cast<T>(dyadic ? 0.25 : 2.5e-3) : T(0);
    auto    within    = [&](double tol) {
        for (std::size_t i = 0; i < n; ++i)
            if (std::fabs(double(a[i]) - double(b[i])) > tol) return false;
        return true;
    };
    const double eps = real ? double(std::numeric_limits<T>::epsilon()) : 0;
    c.require(fc::are_containers_equal(a, b) == within(eps), "equal", "default tolerance");
    c.require(fc::are_containers_equal(a, b, tolerance) == within(double(tolerance)), "equal", "tolerance");
    c.require(fc::are_containers_equal(b, a, tolerance) == within(double(tolerance)), "equal", "tolerance, swapped");
    c.require(fc::are_containers_equal(a.begin(), a.end(), b.begin()) == within(eps), "equal", "iterators");
    c.require(fc::are_containers_equal(a.begin(), a.end(), b.begin(), tolerance) == within(double(tolerance)), "equal", "iterators, tolerance");
    c.require(!fc::are_containers_equal(a, longer) && !fc::are_containers_equal(longer, a), "equal", "different sizes");
    const T     value = static_cast<T>(c.draw(4));
    std::size_t matches = 0, of_value = 0;
    for (std::size_t i = 0; i < n; ++i) matches += a[i] == b[i], of_value += a[i] == b[i] && a[i] == value;
    c.require(fc::count_matches(a.begin(), a.end(), b.begin()) == matches, "matches", fc::count_matches(a.begin(), a.end(), b.begin()), " instead of ", matches);
    c.require(fc::count_matches_for_value(a.begin(), a.end(), b.begin(), value) == of_value, "matches-value", "instead of ", of_value);
    // the value may be of another type
    const double half = double(c.draw(8)) / 2;
    std::size_t  of_half = 0;
    for (std::size_t i = 0; i < n; ++i) of_half += a[i] == b[i] && double(a[i]) == half;
    c.require(fc::count_matches_for_value(a.begin(), a.end(), b.begin(), half) == of_half, "matches-value", half, ": instead of ", of_half);
    if (real && n) {
        auto mixed = a;
        mixed[c.draw(n)] += static_cast<T>(0.5);
        const int   whole   = int(c.draw(4));
        std::size_t of_whole = 0;
        for (std::size_t i = 0; i < n; ++i) of_whole += double(mixed[i]) == whole;
        c.require(fc::count_matches_for_value(mixed.begin(), mixed.end(), mixed.begin(), whole) == of_whole, "matches-value", whole, ": instead of ", of_whole);
    }
    const bool in = std::find(a.begin(), a.end(), value) != a.end();
    c.require(fc::is_element_in(a.begin(), a.end(), value) == in && fc::is_element_not_in(a.begin(), a.end(), value) == !in, "element-in", double(value));
    std::vector<std::pair<T, int>> pairs;
    for (auto x : a) pairs.emplace_back(x, 0);
    c.require(fc::is_element_in_first(pairs.begin(), pairs.end(), value) == in && fc::is_element_not_in_first(pairs.begin(), pairs.end(), value) == !in, "element-in-first", double(value));
    const auto as_int = fc::to_type<int>(a.begin(), a.end());
    const auto as_own = fc::to_type<T>(a.begin(), a.end());
    c.require(as_int.size() == n && as_own == a, "to-type", as_int.size());
    for (std::size_t i = 0; i < n; ++i) c.require(as_int[i] == static_cast<int>(a[i]), "to-type", "element ", i);
    c.nontrivial(n > 1 && a != b);
}

LAW("containers-double", 20000, 400000, containers<double>);
LAW("containers-float", 20000, 400000, containers<float>);
LAW("containers-int", 20000, 400000, containers<int>);

// permutations of elements and of rows
template <typename Index>
void permutations(pbt::Case& c) {
    const std::size_t n = c.chance(1, 10) ? 200 + c.draw(57) : 1 + c.draw(20), d = 1 + c.draw(4);
    auto              order = gen::iota(n);
    gen::shuffle(c, order);
    const std::vector<Index> indices(order.begin(), order.end());
    std::vector<int>         rows(n * d), elements(n);
    for (std::size_t i = 0; i < rows.size(); ++i) rows[i] = int(i);
    for (std::size_t i = 0; i < n; ++i) elements[i] = int(100 + i);
    if (c.showing()) c.show() << "indices " << pbt::list_of(order) << ", " << d << " features\n";
    const auto moved = fc::remap_ranges_from_indices(indices, rows, d);
    const auto swapped = fc::permutation_from_indices(indices, elements);
    c.require(moved.size() == n * d && swapped.size() == n, "size", moved.size());
    for (std::size_t i = 0; i < n; ++i) {
        c.require(swapped[i] == elements[order[i]], "permutation", "element ", i, ": ", swapped[i]);
        for (std::size_t f = 0; f < d; ++f) c.require(moved[i * d + f] == rows[order[i] * d + f], "remap", "row ", i, " feature ", f, ": ", moved[i * d + f], " instead of ", rows[order[i] * d + f]);
    }
    c.require(fc::get_n_samples(rows.begin(), rows.end(), d) == n, "n_samples", n);
    // sizes that do not match are refused
    auto fewer = indices;
    fewer.pop_back();
    int refused = 0;
    try { fc::remap_ranges_from_indices(fewer, rows, d); } catch (const std::invalid_argument&) { ++refused; }
    try { fc::permutation_from_indices(fewer, elements); } catch (const std::invalid_argument&) { ++refused; }
    c.require(refused == 2, "refused", "wrong sizes are accepted");
    c.nontrivial(n > 2);
}

LAW("permutations-size_t", 10000, 200000, permutations<std::size_t>);
LAW("permutations-int", 10000, 200000, permutations<int>);
LAW("permutations-uint8", 10000, 200000, permutations<std::uint8_t>);

}  // namespace
