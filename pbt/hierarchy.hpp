// Random weighted trees and reference single-linkage / condensed hierarchies.
#pragma once

#include "mst.hpp"

namespace gen {

template <typename T>
using EdgeList = std::vector<std::tuple<std::size_t, std::size_t, T>>;

// a random spanning tree on n samples, weights from a few classes (distinct, few levels, zeros, tiny or huge scale)
template <typename T>
EdgeList<T> random_tree(pbt::Case& c, std::size_t n, bool zeros = true) {
    EdgeList<T>              edges;
    auto                     name = iota(n);
    const std::uint64_t      shape = c.draw(4);
    const std::uint64_t      kind  = c.draw(4);
    static const std::vector<double> scales = {1, 1, 0.0009765625, 1024, 9.5367431640625e-07};
    const double             scale = std::is_integral_v<T> ? 1 : c.pick(scales);
    if (c.chance(1, 2)) shuffle(c, name);
    for (std::size_t i = 1; i < n; ++i) {
        std::size_t p = 0;
        switch (shape) {
            case 0: p = c.draw(i); break;              // random
            case 1: p = i - 1; break;                  // path
            case 2: p = 0; break;                      // star
            default: p = i - 1 - c.draw(std::min<std::size_t>(i, 3)); break;
        }
        double w = 0;
        switch (kind) {
            case 0: w = 1 + double(c.draw(1 << 16)) / 256; break;   // mostly distinct
            case 1: w = 1 + double(c.draw(4)); break;               // many ties
            case 2: w = double(c.draw(zeros ? 5 : 4)) + (zeros ? 0 : 1); break;
            default: w = 1 + double(c.draw(1 << 10)) * (c.chance(1, 8) ? 64 : 1); break;
        }
        if (std::is_integral_v<T>) w = std::floor(w);
        std::size_t a = name[i], b = name[p];
        if (c.chance(1, 2)) std::swap(a, b);
        edges.emplace_back(a, b, static_cast<T>(w * scale));
    }
    shuffle(c, edges);
    return edges;
}

// largest edge on the path between every pair
template <typename Edges>
Weights minimax(const Edges& edges, std::size_t n) {
    Weights m;
    m.n = n;
    m.w.assign(n * n, 0);
    auto sorted = edges;
    std::stable_sort(sorted.begin(), sorted.end(), [](const auto& a, const auto& b) { return std::get<2>(a) < std::get<2>(b); });
    std::vector<std::vector<std::size_t>> members(n);
    std::vector<std::size_t>              of(n);
    for (std::size_t i = 0; i < n; ++i) members[i] = {i}, of[i] = i;
    for (const auto& [a, b, w] : sorted) {
        const std::size_t A = of[a], B = of[b];
        for (auto i : members[A])
            for (auto j : members[B]) m.at(i, j) = m.at(j, i) = double(w);
        for (auto j : members[B]) of[j] = A, members[A].push_back(j);
        members[B].clear();
    }
    return m;
}

}  // namespace gen
