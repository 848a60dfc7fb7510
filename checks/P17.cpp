// P17: FasterPAM is a swap descent on the total deviation.
#include "kmedoids.hpp"

namespace {

template <typename T>
gen::Data<T> samples(pbt::Case& c, std::size_t n, std::size_t d) {
    return c.chance(1, 2) && std::is_floating_point_v<T> ? gen::groups<T>(c, n, d) : gen::any_data<T>(c, n, d);
}

template <typename T>
void swaps(pbt::Case& c, std::size_t max_n, std::size_t max_k, std::size_t min_k = 2) {
    const std::size_t n = min_k + gen::sizeable(c, 0, (max_n - min_k) / 3, max_n - min_k);
    const std::size_t d = gen::features(c, 4);
    const auto        x = samples<T>(c, n, d);
    const std::size_t k = min_k + c.draw(std::min(n, max_k) - min_k + 1);
    const auto        medoids = gen::some_medoids(c, n, k);
    const bool        stored  = c.chance(1, 2);
    gen::describe(c, x);
    if (c.showing()) c.show() << "medoids " << gen::show_indices(medoids) << (stored ? " stored matrix" : " computed distances") << "\n";
    using It         = typename std::vector<T>::const_iterator;
    const auto   w   = gen::distances(x);
    const double tol = std::is_floating_point_v<T> ? 4 * gen::kmeans_tol(x, 1) * double(n) : 0;
    std::size_t  changes = 0;
    const auto   dataset = std::make_tuple(x.v.cbegin(), x.v.cend(), d);
    if (stored) {
        const ffcl::datastruct::PairwiseDistanceMatrix<It> matrix(dataset);
        ffcl::FasterPAM<It> pam(matrix, medoids);
        const auto last = gen::check_swaps(c, pam, w, medoids, gen::TotalDeviation{}, tol, 40, changes);
        if (tol == 0) {  // exact arithmetic: the distances are the same wherever they come from
            ffcl::FasterPAM<It> other(dataset, medoids);
            std::vector<std::size_t> m;
            for (std::size_t s = 0; s <= changes; ++s) m = other.step();
            c.require(m == last, "stored", "the stored matrix ends with medoids ", gen::show_indices(last), ", computed distances with ", gen::show_indices(m));
        }
    } else {
        ffcl::FasterPAM<It> pam(dataset, medoids);
        gen::check_swaps(c, pam, w, medoids, gen::TotalDeviation{}, tol, 40, changes);
    }
    c.nontrivial(n > k + 1 && changes > 0);
    if (changes > 1) c.label("several-steps");
}

template <typename T>
void nearest(pbt::Case& c, std::size_t max_n = 24, std::size_t max_k = 8, std::size_t min_k = 1) {
    const std::size_t n = min_k + gen::sizeable(c, 0, (max_n - min_k) / 4, max_n - min_k);
    const std::size_t d = gen::features(c, 4);
    const auto        x = samples<T>(c, n, d);
    const std::size_t k = min_k + c.draw(std::min<std::size_t>(n, max_k) - min_k + 1);
    const auto        medoids = gen::some_medoids(c, n, k);
    const std::size_t nth     = 1 + c.draw(std::min<std::size_t>(k, 3));
    gen::describe(c, x);
    if (c.showing()) c.show() << "medoids " << gen::show_indices(medoids) << " nth " << nth << "\n";
    using It         = typename std::vector<T>::const_iterator;
    const auto   w   = gen::distances(x);
    const double tol = gen::kmeans_tol(x, 0);
    const ffcl::datastruct::PairwiseDistanceMatrix<It> matrix(x.v.cbegin(), x.v.cend(), d);
    namespace pu = pam::utils;
    auto check = [&](const char* what, const std::vector<std::size_t>& indices, const std::vector<T>& distances) {
        c.require(indices.size() == n && distances.size() == n, "size", what, ": ", indices.size(), " indices, ", distances.size(), " distances");
        for (std::size_t i = 0; i < n; ++i) {
            std::vector<double> all;
            for (auto m : medoids) all.push_back(w(i, m));
            std::sort(all.begin(), all.end());
            c.require(indices[i] < k && pbt::close(w(i, medoids[indices[i]]), all[nth - 1], 0, tol), "index", what, ": medoid ", indices[i], " is not number ", nth, " of sample ", i);
            c.require(pbt::close(double(distances[i]), all[nth - 1], 0, tol), "distance", what, ": sample ", i, " is at ", double(distances[i]), " of medoid number ", nth, " instead of ", all[nth - 1]);
        }
    };
    check("computed", pu::samples_to_nth_nearest_medoid_indices(x.v.cbegin(), x.v.cend(), d, medoids, nth), pu::samples_to_nth_nearest_medoid_distances(x.v.cbegin(), x.v.cend(), d, medoids, nth));
    check("stored", pu::samples_to_nth_nearest_medoid_indices(matrix, medoids, nth), pu::samples_to_nth_nearest_medoid_distances(matrix, medoids, nth));
    // no medoid is both the nearest and the second nearest one
    if (k > 1) {
        const auto first  = pu::samples_to_nth_nearest_medoid_indices(x.v.cbegin(), x.v.cend(), d, medoids, 1);
        const auto second = pu::samples_to_nth_nearest_medoid_indices(x.v.cbegin(), x.v.cend(), d, medoids, 2);
        for (std::size_t i = 0; i < n; ++i) c.require(first[i] != second[i], "same", "medoid ", first[i], " is the two nearest ones of sample ", i);
    }
    if (k > 2) {
        const auto a = pu::samples_to_nth_nearest_medoid_indices(matrix, medoids, 1), b = pu::samples_to_nth_nearest_medoid_indices(matrix, medoids, 2),
                   e = pu::samples_to_nth_nearest_medoid_indices(matrix, medoids, 3);
        for (std::size_t i = 0; i < n; ++i)
            c.require(a[i] != b[i] && a[i] != e[i] && b[i] != e[i], "same-three", "the three nearest medoids of sample ", i, " are ", a[i], ", ", b[i], " and ", e[i]);
    }
    if (k > 1) {  // what each medoid is worth
        const auto a    = pu::samples_to_nth_nearest_medoid_indices(matrix, medoids, 1);
        const auto loss = pu::compute_losses_with_closest_medoid_removal<T>(a, pu::samples_to_nth_nearest_medoid_distances(matrix, medoids, 1),
                                                                            pu::samples_to_nth_nearest_medoid_distances(matrix, medoids, 2), k);
        c.require(loss.size() == k, "losses-size", loss.size());
        for (std::size_t j = 0; j < k; ++j) {
            double want = 0;
            for (std::size_t i = 0; i < n; ++i) {
                if (a[i] != j) continue;
                double other = std::numeric_limits<double>::infinity();
                for (std::size_t q = 0; q < k; ++q)
                    if (q != j) other = std::min(other, double(w(i, medoids[q])));
                want += other - w(i, medoids[j]);
            }
            c.require(pbt::close(double(loss[j]), want, 0, 4 * tol * double(n)), "removal", "removing medoid ", j, " costs ", double(loss[j]), " instead of ", want);
        }
    }
    auto refused = [&](auto&& call) {
        try {
            call();
        } catch (const std::invalid_argument&) { return true; }
        return false;
    };
    for (const std::size_t bad : {std::size_t(0), k + 1}) {
        c.require(refused([&] { pu::samples_to_nth_nearest_medoid_indices(x.v.cbegin(), x.v.cend(), d, medoids, bad); }) &&
                      refused([&] { pu::samples_to_nth_nearest_medoid_distances(x.v.cbegin(), x.v.cend(), d, medoids, bad); }) &&
                      refused([&] { pu::samples_to_nth_nearest_medoid_indices(matrix, medoids, bad); }) &&
                      refused([&] { pu::samples_to_nth_nearest_medoid_distances(matrix, medoids, bad); }),
                  "refused", "nearest medoid number ", bad, " of ", k, " is not refused");
    }
    const auto centroids = pu::medoids_to_centroids(x.v.cbegin(), x.v.cend(), d, medoids);
    c.require(centroids.size() == k * d, "centroids-size", centroids.size());
    for (std::size_t j = 0; j < k; ++j)
        for (std::size_t f = 0; f < d; ++f) c.require(centroids[j * d + f] == x.row(medoids[j])[f], "centroids", "centroid ", j, " is not its medoid");
    c.nontrivial(k > 2 && n > k);
}

LAW("nearest-int", 40000, 800000, [](pbt::Case& c) { nearest<int>(c); });
LAW("nearest-unsigned", 10000, 200000, [](pbt::Case& c) { nearest<unsigned>(c); });
LAW("nearest-float", 40000, 800000, [](pbt::Case& c) { nearest<float>(c); });
LAW("nearest-large", 800, 16000, [](pbt::Case& c) { nearest<double>(c, 400, 40); });
LAW("swaps-int", 60000, 1500000, [](pbt::Case& c) { swaps<int>(c, 24, 6); });
LAW("swaps-float", 40000, 1000000, [](pbt::Case& c) { swaps<float>(c, 24, 6); });
LAW("swaps-double", 40000, 1000000, [](pbt::Case& c) { swaps<double>(c, 24, 6); });
LAW("swaps-large", 200, 4000, [](pbt::Case& c) { swaps<int>(c, 160, 20); });
LAW("swaps-large-double", 200, 4000, [](pbt::Case& c) { swaps<double>(c, 160, 20); });
LAW("nearest-many", 100, 2000, [](pbt::Case& c) { nearest<double>(c, 340, 340, 257); });
LAW("swaps-many", 60, 1200, [](pbt::Case& c) { c.chance(1, 2) ? swaps<int>(c, 320, 320, 257) : swaps<double>(c, 320, 320, 257); });
LAW("swaps-small", 60000, 1500000, [](pbt::Case& c) { swaps<int>(c, 7, 5); });

}  // namespace
