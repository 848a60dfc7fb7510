// P28: the BUILD initialisation of PAM.
#include "kmedoids.hpp"

#include "ffcl/kmedoids/PAMBuild.hpp"

namespace {

template <typename T>
void build(pbt::Case& c, std::size_t max_n, std::size_t max_k = 6) {
    const std::size_t n = 1 + gen::sizeable(c, 0, max_n / 3, max_n - 1);
    const std::size_t d = gen::features(c, 4);
    const auto        x = c.chance(1, 2) && std::is_floating_point_v<T> ? gen::groups<T>(c, n, d) : gen::any_data<T>(c, n, d);
    const std::size_t k = c.chance(1, 12) ? n : 1 + c.draw(std::min(n, max_k));
    gen::describe(c, x);
    using It         = typename std::vector<T>::const_iterator;
    const bool   stored = c.chance(1, 2);
    const auto   w   = gen::distances(x);
    const double tol = std::is_floating_point_v<T> ? 4 * gen::kmeans_tol(x, 1) * double(n) : 0;
    if (c.showing()) c.show() << "k=" << k << (stored ? " stored matrix" : " computed distances") << "\n";

    const ffcl::datastruct::PairwiseDistanceMatrix<It> matrix(x.v.cbegin(), x.v.cend(), d);
    const auto [td, medoids, nearest] = stored ? pam::build(matrix, k) : pam::build(x.v.cbegin(), x.v.cend(), d, k);
    c.require(medoids.size() == k, "count", medoids.size(), " medoids instead of ", k);
    c.require(nearest.size() == n, "distances-count", nearest.size(), " distances for ", n, " samples");

    std::vector<double> near(n, std::numeric_limits<double>::infinity());
    std::vector<char>   taken(n, 0);
    for (std::size_t j = 0; j < k; ++j) {
        c.require(medoids[j] < n && !taken[medoids[j]], "distinct", "medoids ", gen::show_indices(medoids));
        auto deviation = [&](std::size_t m) {
            double s = 0;
            for (std::size_t i = 0; i < n; ++i) s += std::min(near[i], double(w(i, m)));
            return s;
        };
        double best = std::numeric_limits<double>::infinity();
        for (std::size_t m = 0; m < n; ++m)
            if (!taken[m]) best = std::min(best, deviation(m));
        const double got = deviation(medoids[j]);
        c.require(got <= best + tol, "greedy", "medoid number ", j, " is sample ", medoids[j], " for a total deviation of ", got, " instead of ", best);
        taken[medoids[j]] = 1;
        for (std::size_t i = 0; i < n; ++i) near[i] = std::min(near[i], double(w(i, medoids[j])));
    }
    double sum = 0;
    for (std::size_t i = 0; i < n; ++i) {
        sum += near[i];
        c.require(pbt::close(double(nearest[i]), near[i], 0, tol), "nearest", "sample ", i, " is at ", double(nearest[i]), " from its medoid instead of ", near[i]);
    }
    c.require(pbt::close(double(td), sum, 0, tol), "total-deviation", "total deviation ", double(td), " instead of ", sum, " with medoids ", gen::show_indices(medoids));

    // the first medoid alone
    const auto [td1, m1] = stored ? pam::utils::first_medoid_td_index_pair(matrix) : pam::utils::first_medoid_td_index_pair(x.v.cbegin(), x.v.cend(), d);
    double best = std::numeric_limits<double>::infinity();
    auto   row  = [&](std::size_t m) {
        double s = 0;
        for (std::size_t i = 0; i < n; ++i) s += w(i, m);
        return s;
    };
    for (std::size_t m = 0; m < n; ++m) best = std::min(best, row(m));
    c.require(m1 < n && row(m1) <= best + tol && pbt::close(double(td1), row(m1), 0, tol), "first", "first medoid ", m1, " with ", double(td1), " instead of ", best);
    c.nontrivial(k > 1 && n > k + 1);
}

LAW("build-int", 20000, 500000, [](pbt::Case& c) { build<int>(c, 24); });
LAW("build-float", 20000, 500000, [](pbt::Case& c) { build<float>(c, 24); });
LAW("build-double", 20000, 500000, [](pbt::Case& c) { build<double>(c, 40); });
LAW("build-large", 200, 4000, [](pbt::Case& c) { build<double>(c, 160, 20); });
LAW("build-large-int", 200, 4000, [](pbt::Case& c) { build<int>(c, 160, 20); });
LAW("build-many", 40, 800, [](pbt::Case& c) { build<double>(c, 290, 290); });
LAW("build-tiny", 20000, 500000, [](pbt::Case& c) { build<int>(c, 5); });

}  // namespace
