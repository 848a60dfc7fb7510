// Reference K-Means step.
#pragma once

#include "mst.hpp"

#include "ffcl/kmeans/Hamerly.hpp"
#include "ffcl/kmeans/KMeans.hpp"
#include "ffcl/kmeans/Lloyd.hpp"

namespace gen {

// a few groups of different spread: Hamerly's bounds skip most samples
template <typename T>
Data<T> groups(pbt::Case& c, std::size_t n, std::size_t d) {
    Data<T> x;
    x.n = n, x.d = d, x.mode = "groups", x.span = 40;
    x.v.resize(n * d);
    const std::size_t   m = 1 + c.draw(6);
    std::vector<double> centers(m * d), spread(m);
    for (auto& v : centers) v = double(c.symmetric(32));
    for (auto& v : spread) v = double(1 + c.draw(8)) / 2;
    if (is_huge(n)) {
        Stream r(c);
        for (std::size_t i = 0; i < n; ++i) {
            const std::size_t g = r.draw(m);
            for (std::size_t f = 0; f < d; ++f) x.v[i * d + f] = static_cast<T>(centers[g * d + f] + spread[g] * (double(r.draw(1 << 24)) / (1 << 23) - 1));
        }
        return x;
    }
    for (std::size_t i = 0; i < n; ++i) {
        const std::size_t g = c.draw(m);
        const double      s = c.chance(1, 12) ? 8 : spread[g];
        for (std::size_t f = 0; f < d; ++f) x.v[i * d + f] = static_cast<T>(centers[g * d + f] + s * double(c.symmetric(1 << 10)) / (1 << 10));
    }
    return x;
}

template <typename T>
std::vector<T> initial_centroids(pbt::Case& c, const Data<T>& x, std::size_t k) {
    std::vector<T> r;
    // many centroids: distinct samples, or most samples would have several nearest ones
    const bool apart = k > 64 && k <= x.n;
    const auto first = apart ? indices(c, x.n, k, true) : std::vector<std::size_t>();
    for (std::size_t j = 0; j < k; ++j) {
        std::vector<T> p;
        if (apart) {
            r.insert(r.end(), x.row(first[j]), x.row(first[j]) + x.d);
            continue;
        }
        if (c.chance(1, 2)) {
            const std::size_t i = c.draw(x.n);
            p.assign(x.row(i), x.row(i) + x.d);
        } else {
            p = query_point(c, x);
        }
        r.insert(r.end(), p.begin(), p.end());
    }
    return r;
}

// rounding of distances to centroids after `step` steps (sums of n values, accumulated bounds)
template <typename T>
double kmeans_tol(const Data<T>& x, std::size_t step) {
    if (!std::is_floating_point_v<T>) return 0;
    const double span = std::max(x.span, 24 * x.step) * 2;
    return (64 + 4 * double(step) * (8 + double(x.n))) * std::numeric_limits<T>::epsilon() * span * std::sqrt(double(x.d));
}

template <typename T>
void check_deviation(pbt::Case& c, const Data<T>& x, const std::vector<T>& centroids, double got, std::size_t step) {
    double       want = 0;
    const double tol  = kmeans_tol(x, 1) * double(x.n);
    for (std::size_t i = 0; i < x.n; ++i) {
        double best = std::numeric_limits<double>::infinity();
        for (std::size_t j = 0; j * x.d < centroids.size(); ++j) best = std::min(best, metric(x.row(i), centroids.data() + j * x.d, x.d));
        want += best;
    }
    c.require(pbt::close(got, want, 0, tol), "total-deviation", "total deviation ", got, " after ", step, " steps, the distances to the nearest centroids sum to ", want);
}

// `next` are the means of the samples nearest to each of `centroids` (any choice for ties), unassigned centroids stay;
// false when there are too many ties to decide
template <typename T>
bool check_step(pbt::Case& c, const Data<T>& x, const std::vector<T>& centroids, const std::vector<T>& next, std::size_t step) {
    const std::size_t        k = centroids.size() / x.d;
    const double             tol = kmeans_tol(x, step + 1);
    std::vector<double>      sum(k * x.d, 0);
    std::vector<std::size_t> size(k, 0), tied;
    std::vector<std::vector<std::size_t>> choices;
    double                   combinations = 1;
    for (std::size_t i = 0; i < x.n; ++i) {
        std::vector<double> w(k);
        for (std::size_t j = 0; j < k; ++j) w[j] = metric(x.row(i), centroids.data() + j * x.d, x.d);
        const double             best = *std::min_element(w.begin(), w.end());
        std::vector<std::size_t> near;
        for (std::size_t j = 0; j < k; ++j)
            if (w[j] <= best + 2 * tol) near.push_back(j);
        if (near.size() == 1) {
            ++size[near[0]];
            for (std::size_t f = 0; f < x.d; ++f) sum[near[0] * x.d + f] += double(x.row(i)[f]);
        } else {
            tied.push_back(i);
            choices.push_back(near);
            combinations *= double(near.size());
            if (combinations > 256) return false;
        }
    }
    std::string why;
    auto matches = [&] {
        for (std::size_t j = 0; j < k; ++j)
            for (std::size_t f = 0; f < x.d; ++f) {
                const double want = size[j] ? sum[j * x.d + f] / double(size[j]) : double(centroids[j * x.d + f]);
                const double got  = double(next[j * x.d + f]);
                const bool   ok   = std::is_floating_point_v<T> ? std::fabs(got - want) <= tol : std::fabs(got - want) < 1;
                if (!ok) {
                    std::ostringstream o;
                    o.precision(9);
                    o << "step " << step << ": coordinate " << f << " of centroid " << j << " is " << got << ", the mean of its " << size[j] << " samples is " << want;
                    why = o.str();
                    return false;
                }
            }
        return true;
    };
    std::function<bool(std::size_t)> any = [&](std::size_t t) {
        if (t == tied.size()) return matches();
        for (auto j : choices[t]) {
            ++size[j];
            for (std::size_t f = 0; f < x.d; ++f) sum[j * x.d + f] += double(x.row(tied[t])[f]);
            if (any(t + 1)) return true;
            --size[j];
            for (std::size_t f = 0; f < x.d; ++f) sum[j * x.d + f] -= double(x.row(tied[t])[f]);
        }
        return false;
    };
    c.require(any(0), "step", why, "; before ", show_rows(centroids, x.d), " after ", show_rows(next, x.d));
    return true;
}

}  // namespace gen
