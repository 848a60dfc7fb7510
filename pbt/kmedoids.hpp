// Reference K-Medoids objectives.
#pragma once

#include "kmeans.hpp"

#include "ffcl/kmedoids/FasterMSC.hpp"
#include "ffcl/kmedoids/FasterPAM.hpp"
#include "ffcl/kmedoids/KMedoids.hpp"

namespace gen {

inline std::vector<std::size_t> some_medoids(pbt::Case& c, std::size_t n, std::size_t k) {
    auto v = iota(n);
    for (std::size_t i = 0; i < k; ++i) std::swap(v[i], v[i + c.draw(n - i)]);
    v.resize(k);
    return v;
}

inline std::string show_indices(const std::vector<std::size_t>& v) { return pbt::list_of(v); }

inline void check_medoids(pbt::Case& c, const std::vector<std::size_t>& medoids, std::size_t n, std::size_t k) {
    c.require(medoids.size() == k, "n-medoids", medoids.size(), " medoids instead of ", k);
    const std::set<std::size_t> unique(medoids.begin(), medoids.end());
    c.require(unique.size() == k && *unique.rbegin() < n, "medoids", "medoids ", show_indices(medoids), " are not ", k, " distinct samples out of ", n);
}

// sum of the distances to the nearest medoid
struct TotalDeviation {
    static double term(double d1, double) { return d1; }
    double operator()(const Weights& w, const std::vector<std::size_t>& medoids) const {
        double sum = 0;
        for (std::size_t i = 0; i < w.n; ++i) {
            double best = std::numeric_limits<double>::infinity();
            for (auto m : medoids) best = std::min(best, w(i, m));
            sum += best;
        }
        return sum;
    }
};

// sum of (distance to the nearest medoid) / (distance to the second nearest one), 0/0 counts as 0
struct MedoidSilhouette {
    static double term(double d1, double d2) { return d2 > 0 ? d1 / d2 : 0; }
    double operator()(const Weights& w, const std::vector<std::size_t>& medoids) const {
        double sum = 0;
        for (std::size_t i = 0; i < w.n; ++i) {
            double d1 = std::numeric_limits<double>::infinity(), d2 = d1;
            for (auto m : medoids) {
                const double d = w(i, m);
                if (d < d1) d2 = d1, d1 = d;
                else if (d < d2) d2 = d;
            }
            sum += term(d1, d2);
        }
        return sum;
    }
};

// the smallest value any replacement of one medoid by another sample reaches; the first one within `band` of `value` but not below it wins
// (a descent that rounds can wander between such equivalent medoids)
template <typename Objective>
std::pair<double, std::vector<std::size_t>> best_swap(const Weights& w, const std::vector<std::size_t>& medoids, const Objective&, double value, double band) {
    constexpr double         inf  = std::numeric_limits<double>::infinity();
    double                   best = inf;
    std::vector<std::size_t> arg;
    // the three nearest medoids of each sample: those of a swap are two of them, or the other sample
    struct Near {
        double      d[3];
        std::size_t j[3];
    };
    std::vector<Near> near(w.n, Near{{inf, inf, inf}, {medoids.size(), medoids.size(), medoids.size()}});
    for (std::size_t o = 0; o < w.n; ++o)
        for (std::size_t j = 0; j < medoids.size(); ++j) {
            double      d = w(o, medoids[j]);
            std::size_t q = j;
            for (int r = 0; r < 3; ++r)
                if (d < near[o].d[r]) std::swap(d, near[o].d[r]), std::swap(q, near[o].j[r]);
        }
    const std::set<std::size_t> taken(medoids.begin(), medoids.end());
    for (std::size_t i = 0; i < w.n; ++i) {
        if (taken.count(i)) continue;
        for (std::size_t j = 0; j < medoids.size(); ++j) {
            double v = 0;
            for (std::size_t o = 0; o < w.n; ++o) {
                const auto&  m  = near[o];
                const double a  = m.j[0] == j ? m.d[1] : m.d[0];
                const double b  = m.j[0] == j || m.j[1] == j ? m.d[2] : m.d[1];
                const double wi = w(o, i);
                v += wi < a ? Objective::term(wi, a) : Objective::term(a, std::min(wi, b));
            }
            if (band > 0 && std::fabs(v - value) <= band) return {value, medoids};
            if (v < best) best = v, arg = medoids, arg[j] = i;
        }
    }
    return {best, arg};
}

// history of steps: medoids stay distinct samples, the reported loss is the objective, it never increases, changes strictly improve it
// and a step that changes nothing means that no swap improves it (tol > 0: unless equivalent swaps exist)
template <typename Algorithm, typename Objective>
std::vector<std::size_t> check_swaps(pbt::Case& c, Algorithm& algorithm, const Weights& w, std::vector<std::size_t> medoids, const Objective& objective, double tol,
                                     std::size_t n_steps, std::size_t& changes) {
    const std::size_t k    = medoids.size();
    double            loss = objective(w, medoids);
    c.require(pbt::close(double(algorithm.total_deviation()), loss, 0, tol), "initial-loss", "loss ", double(algorithm.total_deviation()), " before the first step instead of ", loss);
    for (std::size_t s = 0; s < n_steps; ++s) {
        const std::vector<std::size_t> next = algorithm.step();
        check_medoids(c, next, w.n, k);
        const double value = objective(w, next);
        const double got   = double(algorithm.total_deviation());
        c.require(pbt::close(got, value, 0, tol), "loss", "loss ", got, " after step ", s, " instead of ", value, " for medoids ", show_indices(next));
        if (next == medoids) {
            const auto [best, arg] = best_swap(w, medoids, objective, value, tol * double(w.n + 1));
            c.require(best >= value, "local-optimum", "step ", s, " changes nothing at ", show_indices(medoids), " with loss ", value, ", medoids ", show_indices(arg), " have ", best);
            return next;
        }
        ++changes;
        c.require(value < loss + tol && (tol > 0 || value < loss), "increase", "step ", s, " moves ", show_indices(medoids), " of loss ", loss, " to ", show_indices(next), " of loss ", value);
        medoids = next;
        loss    = value;
    }
    return medoids;
}

}  // namespace gen
