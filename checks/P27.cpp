// P27: a build with threads gives what one candidate, row or block at a time gives, for any number of threads.
// Built with THREADS_ENABLED=true and OpenMP; the number of threads is part of the generated input.
#include "kmeans.hpp"
#include "kmedoids.hpp"

#include <omp.h>

#include "ffcl/common/math/linear_algebra/Transpose.hpp"
#include "ffcl/datastruct/matrix/PairwiseDistanceMatrix.hpp"
#include "ffcl/kmeans/Hamerly.hpp"
#include "ffcl/kmeans/KMeans.hpp"
#include "ffcl/kmeans/Lloyd.hpp"
#include "ffcl/kmedoids/FasterMSC.hpp"
#include "ffcl/kmedoids/FasterPAM.hpp"
#include "ffcl/kmedoids/KMedoids.hpp"

#if !defined(_OPENMP) || THREADS_ENABLED != true
#error "P27 is about the threaded build"
#endif

namespace {

std::size_t some_threads(pbt::Case& c) {
    static const std::vector<std::size_t> counts = {4, 1, 2, 3, 7};
    const std::size_t                     t      = c.pick(counts);
    omp_set_dynamic(0);
    omp_set_num_threads(int(t));
    if (c.showing()) c.show() << t << " threads\n";
    return t;
}

template <typename T>
void transposes(pbt::Case& c) {
    const auto        threads = some_threads(c);
    const std::size_t n = 1 + c.draw(300), d = 1 + c.draw(300);
    std::vector<T>    v(n * d);
    const auto        salt = c.draw(1000);
    for (std::size_t i = 0; i < v.size(); ++i) v[i] = static_cast<T>(salt + i);
    if (c.showing()) c.show() << n << " samples of " << d << " features\n";
    const auto [t, rows, columns] = ffcl::common::math::linear_algebra::transpose(v.begin(), v.end(), d);
    c.require(rows == d && columns == n && t.size() == n * d, "shape", rows, " x ", columns);
    for (std::size_t i = 0; i < n; ++i)
        for (std::size_t f = 0; f < d; ++f) c.require(t[f * n + i] == v[i * d + f], "transpose", "value (", f, ", ", i, ") of ", d, " x ", n);
    c.nontrivial(threads > 1 && (n > 64 || d > 64));
}

LAW("transpose", 800, 16000, transposes<double>);

template <typename T>
void matrices(pbt::Case& c) {
    const auto        threads = some_threads(c);
    const std::size_t n = gen::sizeable(c, 1, 10, 70);
    const std::size_t d = gen::features(c, 4);
    const auto        x = gen::any_data<T>(c, n, d);
    gen::describe(c, x);
    using It = typename std::vector<T>::const_iterator;
    const ffcl::datastruct::PairwiseDistanceMatrix<It> m(x.v.cbegin(), x.v.cend(), d);
    c.require(m.n_rows() == n && m.n_columns() == n, "shape", m.n_rows());
    for (std::size_t i = 0; i < n; ++i)
        for (std::size_t j = 0; j < n; ++j) {
            const auto want = ffcl::common::math::heuristics::auto_distance(x.v.cbegin() + i * d, x.v.cbegin() + i * d + d, x.v.cbegin() + j * d, x.v.cbegin() + j * d + d);
            c.require(m(i, j) == (i == j ? decltype(want)(0) : want) || pbt::close(double(m(i, j)), double(want), 1e-6, 1e-9), "distance", "samples ", i, " and ", j, ": ", double(m(i, j)), " instead of ", double(want));
        }
    c.nontrivial(threads > 1 && n > 8);
}

LAW("matrix-double", 4000, 80000, matrices<double>);
LAW("matrix-int", 4000, 80000, matrices<int>);

// several candidates at once against each candidate alone
template <template <typename> class Algorithm, typename T>
void kmeans(pbt::Case& c) {
    const auto        threads = some_threads(c);
    const std::size_t n = gen::sizeable(c, 2, 8, 60);
    const std::size_t d = gen::features(c, 3);
    const auto        x = c.chance(1, 2) ? gen::groups<T>(c, n, d) : gen::data<T>(c, n, d);
    const std::size_t k = 1 + c.draw(std::min<std::size_t>(n, 6)), m = 1 + c.draw(9);
    gen::describe(c, x);
    std::vector<std::vector<T>> starts;
    for (std::size_t i = 0; i < m; ++i) starts.push_back(gen::initial_centroids(c, x, k));
    if (c.showing())
        for (auto& v : starts) c.show() << "start " << gen::show_rows(v, d) << "\n";
    const auto  options = typename ffcl::KMeans<T>::Options().max_iter(c.draw(12)).early_stopping(!c.chance(1, 4)).patience(c.draw(3)).n_init(m);
    std::size_t calls = 0;
    ffcl::KMeans<T> all(k);
    all.set_options(options);
    const auto got = all.template fit<Algorithm>(x.v.cbegin(), x.v.cend(), d, [&](const auto&, const auto&, std::size_t, std::size_t) { return starts[calls++ % m]; });
    c.require(calls == m, "initializer", calls, " initialisations instead of ", m);
    auto deviation = [&](const std::vector<T>& centroids) {
        double loss = 0;
        for (std::size_t i = 0; i < n; ++i) {
            double best = std::numeric_limits<double>::infinity();
            for (std::size_t j = 0; j < k; ++j) best = std::min(best, gen::metric(x.row(i), centroids.data() + j * d, d));
            loss += best;
        }
        return loss;
    };
    double best = std::numeric_limits<double>::infinity();
    bool   one = false, differ = false;
    for (const auto& start : starts) {
        ffcl::KMeans<T> alone(k);
        alone.set_options(options);
        alone.set_options(typename ffcl::KMeans<T>::Options(options).n_init(1));
        const auto centroids = alone.template fit<Algorithm>(x.v.cbegin(), x.v.cend(), d, [&](const auto&, const auto&, std::size_t, std::size_t) { return start; });
        one                  = one || centroids == got;
        differ               = differ || centroids != got;
        best                 = std::min(best, deviation(centroids));
    }
    c.require(one, "candidate", "the centroids are not those of a candidate run alone: ", gen::show_rows(got, d));
    c.require(pbt::close(deviation(got), best, 1e-4, gen::kmeans_tol(x, 4)), "best", "deviation ", deviation(got), " instead of ", best);
    c.nontrivial(threads > 1 && m > 1 && differ);
}

LAW("kmeans-lloyd", 6000, 120000, kmeans<ffcl::Lloyd, double>);
LAW("kmeans-hamerly", 6000, 120000, kmeans<ffcl::Hamerly, float>);

// every set of medoids is among the starts (chance of missing one: below 1e-17), so that the result is the best of all
template <template <typename> class Algorithm, bool Precomputed>
void kmedoids(pbt::Case& c) {
    const auto        threads = some_threads(c);
    const std::size_t n = 4 + c.draw(4), k = 2;
    const std::size_t d = gen::features(c, 2);
    const auto        x = gen::exact_data<double>(c, n, d);
    gen::describe(c, x);
    std::vector<std::vector<std::size_t>> ends;
    auto loss = [&](const std::vector<std::size_t>& medoids) {
        double sum = 0;
        for (std::size_t i = 0; i < n; ++i) {
            double best = std::numeric_limits<double>::infinity();
            for (auto m : medoids) best = std::min(best, gen::metric(x.row(i), x.row(m), d));
            sum += best;
        }
        return sum;
    };
    double best = std::numeric_limits<double>::infinity(), worst = 0;
    for (std::size_t a = 0; a < n; ++a)
        for (std::size_t b = 0; b < n; ++b) {
            if (a == b) continue;
            ffcl::KMedoids<double, Precomputed> alone(k, std::vector<std::size_t>{a, b});
            const auto medoids = alone.template fit<Algorithm>(x.v.cbegin(), x.v.cend(), d);
            ends.push_back(medoids);
            best  = std::min(best, loss(medoids));
            worst = std::max(worst, loss(medoids));
        }
    ffcl::KMedoids<double, Precomputed> all(k);
    // n (n - 1) <= 42 ordered pairs: 42 (1 - 1/42)^2000 < 1e-18
    all.set_options(typename ffcl::KMedoids<double, Precomputed>::Options().n_init(2000));
    const auto got = all.template fit<Algorithm>(x.v.cbegin(), x.v.cend(), d);
    c.require(std::find(ends.begin(), ends.end(), got) != ends.end(), "candidate", "the medoids ", pbt::list_of(got), " are not those of a candidate run alone");
    c.require(pbt::close(loss(got), best, 1e-9, 1e-9), "best", "deviation ", loss(got), " instead of ", best);
    c.nontrivial(threads > 1 && worst > best);
}

LAW("kmedoids", 300, 6000, kmedoids<ffcl::FasterPAM, false>);
LAW("kmedoids-precomputed", 300, 6000, kmedoids<ffcl::FasterPAM, true>);

}  // namespace
