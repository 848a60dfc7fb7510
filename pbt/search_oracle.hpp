// Brute-force oracle for every single-query search: which samples qualify, and which of them must be returned.
#pragma once

#include "tree.hpp"

#include "ffcl/search/Search.hpp"
#include "ffcl/datastruct/bounds/AABB.hpp"
#include "ffcl/datastruct/bounds/AABBWithCentroid.hpp"
#include "ffcl/datastruct/bounds/Ball.hpp"
#include "ffcl/datastruct/bounds/UnboundedBall.hpp"

namespace gen {

// distance the library is documented to use: euclidean for floating point, manhattan for integers
template <typename T>
double metric(const T* a, const T* b, std::size_t d) {
    if constexpr (std::is_floating_point_v<T>) {
        return dist(a, b, d);
    } else {
        double s = 0;
        for (std::size_t f = 0; f < d; ++f) s += std::fabs(double(a[f]) - double(b[f]));
        return s;
    }
}

struct Candidate {
    std::size_t index;
    double      distance;
    int         inside;  // 1 certainly qualifies, 0 within rounding of the boundary, -1 does not qualify
};

// `result` must hold the min(k, #qualifying) nearest qualifying candidates (any choice among ties), with their distances
template <typename Buffer>
void check_search_result(pbt::Case& c, const Buffer& result, std::vector<Candidate> all, std::size_t k, double tol) {
    const auto indices   = result.indices();
    const auto distances = result.distances();
    c.require(indices.size() == distances.size() && indices.size() == result.size() && result.empty() == indices.empty(), "sizes",
              indices.size(), " indices, ", distances.size(), " distances, size() ", result.size());
    std::map<std::size_t, Candidate> by_index;
    for (const auto& a : all) by_index[a.index] = a;
    std::set<std::size_t> seen;
    double                worst = -1, best = std::numeric_limits<double>::infinity();
    for (std::size_t i = 0; i < indices.size(); ++i) {
        auto it = by_index.find(indices[i]);
        c.require(it != by_index.end(), "foreign-index", "returned index ", indices[i], " was not indexed");
        c.require(seen.insert(indices[i]).second, "duplicate-index", "index ", indices[i], " returned twice");
        c.require(it->second.inside >= 0, "unqualified", "index ", indices[i], " (distance ", it->second.distance, ") does not qualify");
        c.require(pbt::close(distances[i], it->second.distance, 0, tol), "wrong-distance", "index ", indices[i], ": distance ", double(distances[i]),
                  " instead of ", it->second.distance);
        worst = std::max(worst, it->second.distance);
        best  = std::min(best, it->second.distance);
    }
    std::size_t sure = 0, maybe = 0;
    for (const auto& a : all) {
        sure += a.inside == 1;
        maybe += a.inside >= 0;
    }
    c.require(indices.size() <= k, "over-capacity", indices.size(), " results for a capacity of ", k);
    c.require(indices.size() >= std::min(k, sure) && indices.size() <= maybe, "missing", indices.size(), " results, ", sure, " samples qualify, capacity ", k);
    const bool full = indices.size() == k;
    for (const auto& a : all) {
        if (a.inside != 1 || seen.count(a.index)) continue;
        c.require(full, "missing", "sample ", a.index, " at distance ", a.distance, " qualifies but was not returned");
        c.require(a.distance >= worst - tol, "not-nearest", "sample ", a.index, " at distance ", a.distance, " was not returned, one at ", worst, " was");
    }
    if (!indices.empty()) {
        c.require(pbt::close(result.closest_distance(), best, 0, tol), "closest", "closest_distance() ", double(result.closest_distance()), " instead of ", best);
        c.require(seen.count(result.closest_index()) && pbt::close(by_index[result.closest_index()].distance, best, 0, tol), "closest",
                  "closest_index() ", result.closest_index());
        c.require(pbt::close(result.furthest_distance(), worst, 0, tol), "furthest", "furthest_distance() ", double(result.furthest_distance()),
                  " instead of ", worst);
        c.require(pbt::close(by_index[result.furthest_index()].distance, worst, 0, tol), "furthest", "furthest_index() ", result.furthest_index());
    }
}

// query point: a sample, a grid point, something between or far away
template <typename T>
std::vector<T> query_point(pbt::Case& c, const Data<T>& x) {
    std::vector<T> q(x.d);
    switch (c.draw(is_wide(x.d) && !c.chance(1, 6) ? 2 : 4)) {
        case 0: {
            const std::size_t i = c.draw(x.n);
            std::copy(x.row(i), x.row(i) + x.d, q.begin());
            break;
        }
        case 1: {  // mixture of sample coordinates: on many cut planes
            for (std::size_t f = 0; f < x.d; ++f) q[f] = x.row(c.draw(x.n))[f];
            break;
        }
        case 2: {
            for (auto& v : q) v = clamped<T>(c.symmetric(20) * (x.exact ? x.step : x.span / 16));
            break;
        }
        default: {
            const std::size_t i = c.draw(x.n);
            for (std::size_t f = 0; f < x.d; ++f) q[f] = clamped<T>(double(x.row(i)[f]) + c.symmetric(3) * (x.exact ? x.step : x.span / 64));
            break;
        }
    }
    return q;
}

}  // namespace gen
