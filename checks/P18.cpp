// P18: FasterMSC is a swap descent on the sum of (nearest / second nearest) medoid distances.
#include "kmedoids.hpp"

namespace {

template <typename T>
void swaps(pbt::Case& c, std::size_t max_n, std::size_t max_k, std::size_t min_k = 2) {
    const std::size_t n = min_k + gen::sizeable(c, 0, (max_n - min_k) / 3, max_n - min_k);
    const std::size_t d = gen::features(c, 4);
    const auto        x = c.chance(1, 2) ? gen::groups<T>(c, n, d) : gen::data<T>(c, n, d);
    const std::size_t k = c.chance(1, 3) ? min_k : min_k + c.draw(std::min(n, max_k) - min_k + 1);
    const auto        medoids = gen::some_medoids(c, n, k);
    const bool        stored  = c.chance(1, 2);
    gen::describe(c, x);
    if (c.showing()) c.show() << "medoids " << gen::show_indices(medoids) << (stored ? " stored matrix" : " computed distances") << "\n";
    using It       = typename std::vector<T>::const_iterator;
    const auto   w = gen::distances(x);
    // the ratio of two distances is only known when the distances are far larger than their rounding
    const double rounding = gen::kmeans_tol(x, 0);
    double       smallest = std::numeric_limits<double>::infinity();
    for (std::size_t i = 0; i < n; ++i)
        for (std::size_t j = 0; j < i; ++j) {
            if (w(i, j) > 0) smallest = std::min(smallest, w(i, j));
            if (w(i, j) == 0) c.label("duplicates");
        }
    const double relative = smallest < std::numeric_limits<double>::infinity() ? rounding / smallest : 0;
    if (relative > 1e-3 || smallest < 4 * double(std::numeric_limits<T>::epsilon())) c.discard();
    const double tol     = 8 * relative * double(n) + 16 * double(n) * double(n) * double(std::numeric_limits<T>::epsilon());
    std::size_t  changes = 0;
    const auto   dataset = std::make_tuple(x.v.cbegin(), x.v.cend(), d);
    if (stored) {
        const ffcl::datastruct::PairwiseDistanceMatrix<It> matrix(dataset);
        ffcl::FasterMSC<It> msc(matrix, medoids);
        gen::check_swaps(c, msc, w, medoids, gen::MedoidSilhouette{}, tol, 40, changes);
    } else {
        ffcl::FasterMSC<It> msc(dataset, medoids);
        gen::check_swaps(c, msc, w, medoids, gen::MedoidSilhouette{}, tol, 40, changes);
    }
    c.nontrivial(n > k + 1 && changes > 0);
    c.label(k == 2 ? "two-medoids" : "several-medoids");
}

LAW("swaps-double", 60000, 1500000, [](pbt::Case& c) { swaps<double>(c, 24, 6); });
LAW("swaps-float", 40000, 1000000, [](pbt::Case& c) { swaps<float>(c, 16, 6); });
LAW("swaps-large", 200, 4000, [](pbt::Case& c) { swaps<double>(c, 140, 16); });
LAW("swaps-many", 60, 1200, [](pbt::Case& c) { swaps<double>(c, 310, 310, 257); });
LAW("swaps-small", 60000, 1500000, [](pbt::Case& c) { swaps<double>(c, 8, 5); });

}  // namespace
