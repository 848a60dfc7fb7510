// P15: each K-Means step is an exact assign-and-average step, for Lloyd and for the bound-based Hamerly variant.
#include "kmeans.hpp"

namespace {

template <template <typename> class Algorithm, typename T>
void steps(pbt::Case& c, std::size_t max_n, std::size_t max_k, bool separated) {
    const std::size_t n = gen::sizeable(c, 1, max_n / 4, max_n);
    const std::size_t d = gen::dims(c, n, 4);
    const auto        x = separated ? gen::groups<T>(c, n, d) : gen::any_data<T>(c, n, d);
    const std::size_t k = c.chance(1, 10) ? 1 : 2 + c.draw((max_k > 64 ? std::max<std::size_t>(std::min(max_k, n * 3 / 4), 2) : max_k) - 1);
    auto              centroids = gen::initial_centroids(c, x, k);
    const std::size_t n_steps   = (c.chance(1, 4) ? 1 : 4) + c.draw(separated ? 12 : 6);
    gen::describe(c, x);
    if (c.showing()) c.show() << "centroids " << gen::show_rows(centroids, d) << "\nsteps " << n_steps << "\n";
    using It        = typename std::vector<T>::const_iterator;
    Algorithm<It> algorithm(std::make_tuple(x.v.cbegin(), x.v.cend(), d), centroids);
    gen::check_deviation(c, x, centroids, double(algorithm.total_deviation()), 0);
    std::size_t moved = 0;
    for (std::size_t s = 0; s < n_steps; ++s) {
        const std::vector<T> next = algorithm.step();
        c.require(next.size() == centroids.size(), "size", next.size(), " values instead of ", centroids.size());
        if (!gen::check_step(c, x, centroids, next, s)) {
            c.label("too-many-ties");
            return;
        }
        gen::check_deviation(c, x, next, double(algorithm.total_deviation()), s + 1);
        moved += next != centroids;
        centroids = next;
    }
    c.nontrivial(k > 1 && n > k && moved > 1);
}

template <typename T>
void predict(pbt::Case& c, std::size_t max_n, std::size_t max_k = 6) {
    const std::size_t n = gen::count(c, 1, max_n);
    const std::size_t d = gen::dims(c, n, 6);
    const auto        x = gen::any_data<T>(c, n, d);
    const std::size_t k = 1 + c.draw(max_k);
    const auto        centroids = gen::initial_centroids(c, x, k);
    gen::describe(c, x);
    if (c.showing()) c.show() << "centroids " << gen::show_rows(centroids, d) << "\n";
    const double tol = gen::kmeans_tol(x, 0);
    ffcl::KMeans<T> kmeans(k, centroids);
    const auto labels    = kmeans.predict(x.v.cbegin(), x.v.cend(), d);
    const auto distances = kmeans.forward(x.v.cbegin(), x.v.cend(), d);
    const auto second    = ::kmeans::utils::samples_to_second_nearest_centroid_distances(x.v.cbegin(), x.v.cend(), d, centroids);
    c.require(labels.size() == n && distances.size() == n && second.size() == n, "size", labels.size());
    for (std::size_t i = 0; i < n; ++i) {
        std::vector<double> w(k);
        for (std::size_t j = 0; j < k; ++j) w[j] = gen::metric(x.row(i), centroids.data() + j * d, d);
        c.require(labels[i] < k, "label-range", labels[i]);
        auto sorted = w;
        std::sort(sorted.begin(), sorted.end());
        c.require(w[labels[i]] <= sorted[0] + tol, "nearest", "sample ", i, " is assigned to centroid ", labels[i], " at ", w[labels[i]], ", another one is at ", sorted[0]);
        c.require(pbt::close(double(distances[i]), sorted[0], 0, tol), "distance", "sample ", i, ": ", double(distances[i]), " instead of ", sorted[0]);
        if (k > 1) c.require(pbt::close(double(second[i]), sorted[1], 0, tol), "second", "sample ", i, ": second distance ", double(second[i]), " instead of ", sorted[1]);
    }
    // the parts of a step
    const auto sizes = ::kmeans::utils::compute_cluster_sizes(labels.begin(), labels.end(), k);
    const auto sums  = ::kmeans::utils::compute_cluster_positions_sum(x.v.cbegin(), x.v.cend(), d, labels.begin(), k);
    c.require(sizes.size() == k && sums.size() == k * d, "parts", sizes.size(), " sizes, ", sums.size(), " sums");
    for (std::size_t j = 0; j < k; ++j) {
        c.require(sizes[j] == std::size_t(std::count(labels.begin(), labels.end(), j)), "cluster-size", "cluster ", j, " has size ", sizes[j]);
        for (std::size_t f = 0; f < d; ++f) {
            double want = 0, magnitude = 0;
            for (std::size_t i = 0; i < n; ++i)
                if (labels[i] == j) want += double(x.row(i)[f]), magnitude += std::fabs(double(x.row(i)[f]));
            c.require(pbt::close(double(sums[j * d + f]), want, 0, std::is_floating_point_v<T> ? double(n) * std::numeric_limits<T>::epsilon() * magnitude : 0), "cluster-sum", "cluster ", j,
                      " sums to ", double(sums[j * d + f]), " on feature ", f, " instead of ", want);
        }
    }
    if (n > 1 && !gen::is_huge(n)) {
        const auto gaps = ::kmeans::utils::nearest_neighbor_distances(x.v.cbegin(), x.v.cend(), d);
        c.require(gaps.size() == n, "gaps-size", gaps.size());
        for (std::size_t i = 0; i < n; ++i) {
            double want = std::numeric_limits<double>::infinity();
            for (std::size_t j = 0; j < n; ++j)
                if (j != i) want = std::min(want, gen::metric(x.row(i), x.row(j), d));
            c.require(pbt::close(double(gaps[i]), want, 0, tol), "gap", "the nearest other sample of ", i, " is at ", want, ", not ", double(gaps[i]));
        }
    }
    c.nontrivial(k > 1 && n > 1);
}

LAW("lloyd-float", 40000, 1000000, [](pbt::Case& c) { steps<ffcl::Lloyd, float>(c, 40, 6, false); });
LAW("lloyd-groups", 20000, 500000, [](pbt::Case& c) { steps<ffcl::Lloyd, double>(c, 60, 8, true); });
LAW("lloyd-int", 10000, 200000, [](pbt::Case& c) { steps<ffcl::Lloyd, int>(c, 16, 4, false); });
LAW("hamerly-float", 60000, 1500000, [](pbt::Case& c) { steps<ffcl::Hamerly, float>(c, 40, 6, false); });
LAW("hamerly-double", 30000, 700000, [](pbt::Case& c) { steps<ffcl::Hamerly, double>(c, 40, 6, false); });
LAW("hamerly-groups", 40000, 1000000, [](pbt::Case& c) { steps<ffcl::Hamerly, double>(c, 80, 8, true); });
LAW("hamerly-int", 10000, 200000, [](pbt::Case& c) { steps<ffcl::Hamerly, int>(c, 16, 4, false); });
LAW("lloyd-large", 600, 12000, [](pbt::Case& c) { steps<ffcl::Lloyd, double>(c, 700, 40, true); });
LAW("hamerly-large", 1500, 30000, [](pbt::Case& c) { steps<ffcl::Hamerly, double>(c, 700, 40, true); });
LAW("hamerly-large-float", 600, 12000, [](pbt::Case& c) { steps<ffcl::Hamerly, float>(c, 300, 12, true); });
LAW("steps-many", 60, 1200, [](pbt::Case& c) { c.chance(1, 3) ? steps<ffcl::Lloyd, double>(c, 700, 500, true) : steps<ffcl::Hamerly, double>(c, 700, 500, true); });
LAW("predict-many", 200, 4000, [](pbt::Case& c) { predict<float>(c, 500, 500); });
LAW("predict-large", 600, 12000, [](pbt::Case& c) { predict<double>(c, 1500, 60); });
LAW("predict-float", 40000, 1000000, [](pbt::Case& c) { predict<float>(c, 40); });
LAW("predict-unsigned", 10000, 200000, [](pbt::Case& c) { predict<unsigned>(c, 40); });
LAW("steps-unsigned", 10000, 200000, [](pbt::Case& c) { c.chance(1, 2) ? steps<ffcl::Lloyd, unsigned>(c, 16, 4, false) : steps<ffcl::Hamerly, unsigned>(c, 16, 4, false); });
LAW("predict-int", 20000, 400000, [](pbt::Case& c) { predict<int>(c, 40); });
LAW("huge", 4, 120, [](pbt::Case& c) {
    switch (c.draw(3)) {
        case 0: return steps<ffcl::Lloyd, double>(c, gen::kHuge, 4, true);
        case 1: return steps<ffcl::Hamerly, double>(c, gen::kHuge, 4, true);
        default: return predict<double>(c, gen::kHuge, 4);
    }
}, 120);

}  // namespace
