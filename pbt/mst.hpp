// Reference spanning trees and forests.
#pragma once

#include "search_oracle.hpp"
#include "tree.hpp"

namespace gen {

// dense symmetric weights
struct Weights {
    std::size_t         n = 0;
    std::vector<double> w;
    double operator()(std::size_t i, std::size_t j) const { return w[i * n + j]; }
    double& at(std::size_t i, std::size_t j) { return w[i * n + j]; }
};

template <typename T>
Weights distances(const Data<T>& x) {
    Weights r;
    r.n = x.n;
    r.w.resize(x.n * x.n);
    for (std::size_t i = 0; i < x.n; ++i)
        for (std::size_t j = 0; j < x.n; ++j) r.at(i, j) = metric(x.row(i), x.row(j), x.d);
    return r;
}

// distance to the k-th nearest sample, the sample itself included (the furthest one when there are fewer samples)
inline std::vector<double> core_distances(const Weights& d, std::size_t k) {
    std::vector<double> core(d.n);
    for (std::size_t i = 0; i < d.n; ++i) {
        std::vector<double> row(d.w.begin() + i * d.n, d.w.begin() + (i + 1) * d.n);
        std::sort(row.begin(), row.end());
        core[i] = row[std::min(k, d.n) - 1];
    }
    return core;
}

inline Weights mutual_reachability(const Weights& d, std::size_t k) {
    const auto core = core_distances(d, k);
    Weights    r    = d;
    for (std::size_t i = 0; i < d.n; ++i)
        for (std::size_t j = 0; j < d.n; ++j) r.at(i, j) = std::max({core[i], core[j], d(i, j)});
    return r;
}

// sorted weights of a minimum spanning tree (Prim)
inline std::vector<double> prim(const Weights& w) {
    std::vector<double> best(w.n, std::numeric_limits<double>::infinity()), out;
    std::vector<bool>   in(w.n);
    std::size_t         cur = 0;
    if (!w.n) return out;
    in[0] = true;
    for (std::size_t s = 1; s < w.n; ++s) {
        std::size_t nxt = w.n;
        for (std::size_t j = 0; j < w.n; ++j) {
            if (in[j]) continue;
            best[j] = std::min(best[j], w(cur, j));
            if (nxt == w.n || best[j] < best[nxt]) nxt = j;
        }
        out.push_back(best[nxt]);
        in[nxt] = true;
        cur     = nxt;
    }
    std::sort(out.begin(), out.end());
    return out;
}

template <typename Edges>
std::string show_edges(const Edges& e) {
    std::ostringstream o;
    o.precision(9);
    for (const auto& [a, b, w] : e) o << "(" << a << "," << b << "," << +w << ") ";
    return o.str();
}

template <typename Edges>
void check_mst(pbt::Case& c, const Edges& edges, const Weights& w, double tol) {
    c.require(edges.size() + 1 == w.n, "n-edges", edges.size(), " edges for ", w.n, " samples: ", show_edges(edges));
    Labels              uf(w.n);
    std::vector<double> weights;
    for (const auto& [a, b, v] : edges) {
        c.require(std::size_t(a) < w.n && std::size_t(b) < w.n, "edge-range", "edge (", a, ",", b, ")");
        c.require(uf.join(a, b), "cycle", "edge (", a, ",", b, ") closes a cycle: ", show_edges(edges));
        c.require(pbt::close(double(v), w(a, b), 0, tol), "edge-weight", "edge (", a, ",", b, ") has weight ", double(v), " instead of ", w(a, b));
        weights.push_back(w(a, b));
    }
    std::sort(weights.begin(), weights.end());
    const auto best = prim(w);
    for (std::size_t i = 0; i < best.size(); ++i)
        c.require(pbt::close(weights[i], best[i], 0, tol), "not-minimal", "sorted edge weight #", i, " is ", weights[i], ", a minimum spanning tree has ",
                  best[i], "; edges: ", show_edges(edges));
}

// integer samples
}  // namespace gen
