// P21: cohesion, separation and silhouette are those of the labels.
#include "kmeans.hpp"

#include "ffcl/common/math/heuristics/SilhouetteMethod.hpp"

namespace {

namespace h = ffcl::common::math::heuristics;

template <typename T, typename L>
void silhouette(pbt::Case& c, std::size_t max_n) {
    const std::size_t n = gen::sizeable(c, 2, max_n / 4, max_n);
    const std::size_t d = gen::features(c, 4);
    const auto        x = c.chance(1, 2) ? gen::groups<T>(c, n, d) : gen::data<T>(c, n, d);
    const std::size_t k = c.chance(1, 10) ? 2 + c.draw(126) : 2 + c.draw(5);
    std::vector<L>    labels(n);
    const bool        skewed = c.chance(1, 2);
    for (auto& l : labels) l = static_cast<L>(skewed && c.chance(3, 4) ? 0 : c.draw(k));
    if (n > 300 && c.chance(1, 2)) {  // the first cluster around the capacity of a narrow counter
        const std::size_t first = 254 + c.draw(4);
        for (std::size_t i = 0; i < n; ++i) labels[i] = static_cast<L>(i < first ? 0 : 1 + c.draw(k));
        gen::shuffle(c, labels);
    }
    if (std::count(labels.begin(), labels.end(), labels[0]) == std::ptrdiff_t(n)) labels[c.draw(n)] = static_cast<L>(labels[0] ? 0 : 1);
    gen::describe(c, x);
    if (c.showing()) c.show() << "labels " << pbt::list_of(std::vector<int>(labels.begin(), labels.end())) << "\n";
    const std::size_t last = *std::max_element(labels.begin(), labels.end());

    const auto sizes = h::get_cluster_sizes(labels.begin(), labels.end());
    c.require(sizes.size() == last + 1, "n-clusters", sizes.size(), " clusters instead of ", last + 1);
    std::vector<std::size_t> want(last + 1);
    for (auto l : labels) ++want[l];
    for (std::size_t l = 0; l <= last; ++l) c.require(std::size_t(sizes[l]) == want[l], "cluster-size", "cluster ", l, " has ", std::size_t(sizes[l]), " samples instead of ", want[l]);

    const auto co = h::cohesion(x.v.cbegin(), x.v.cend(), d, labels.begin(), labels.end());
    const auto se = h::separation(x.v.cbegin(), x.v.cend(), d, labels.begin(), labels.end());
    const auto si = h::silhouette(x.v.cbegin(), x.v.cend(), d, labels.begin(), labels.end());
    c.require(co.size() == n && se.size() == n && si.size() == n, "size", si.size());
    const double tol = gen::kmeans_tol(x, 1);
    double       sum = 0;
    std::size_t  singles = 0;
    for (std::size_t i = 0; i < n; ++i) {
        std::vector<double> total(last + 1);
        for (std::size_t j = 0; j < n; ++j) total[labels[j]] += gen::metric(x.row(i), x.row(j), d);
        const std::size_t own = labels[i];
        const double      a   = want[own] > 1 ? total[own] / double(want[own] - 1) : 0;
        double            b   = std::numeric_limits<double>::infinity();
        for (std::size_t l = 0; l <= last; ++l)
            if (l != own && want[l]) b = std::min(b, total[l] / double(want[l]));
        c.require(pbt::close(double(co[i]), a, 0, tol), "cohesion", "sample ", i, ": ", double(co[i]), " instead of ", a);
        c.require(pbt::close(double(se[i]), b, 0, tol), "separation", "sample ", i, ": ", double(se[i]), " instead of ", b);
        const double m = std::max(a, b);
        const double s = want[own] == 1 || m == 0 ? 0 : (b - a) / m;
        singles += want[own] == 1;
        if (m > 100 * tol || want[own] == 1) {
            c.require(pbt::close(double(si[i]), s, 0, m > 0 ? 4 * tol / m + 1e-6 : 0), "silhouette", "sample ", i, " (cluster of ", want[own], "): ", double(si[i]), " instead of ", s);
        }
        c.require(si[i] >= -1 && si[i] <= 1, "range", "sample ", i, ": ", double(si[i]));
        sum += double(si[i]);
    }
    const double average = h::get_average_silhouette(si.begin(), si.end());
    c.require(pbt::close(average, sum / double(n), 1e-5, 1e-5), "average", average, " instead of ", sum / double(n));
    if (singles) c.label("singleton");
    c.nontrivial(n > 3 && std::count_if(want.begin(), want.end(), [](auto s) { return s > 1; }) > 1);
}

LAW("silhouette-float", 40000, 800000, [](pbt::Case& c) { silhouette<float, std::size_t>(c, 24); });
LAW("silhouette-double", 40000, 800000, [](pbt::Case& c) { silhouette<double, int>(c, 24); });
LAW("silhouette-many", 120, 4000, [](pbt::Case& c) { silhouette<double, std::uint8_t>(c, 800); });

}  // namespace
