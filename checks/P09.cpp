// P09: Euclidean minimum spanning trees.
#include "mst.hpp"

#include "ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp"

namespace {

template <typename T>
void emst(pbt::Case& c, std::size_t max_n, bool dual) {
    const std::size_t n   = gen::count(c, 1, max_n);
    const std::size_t d   = gen::features(c, 6);
    const auto        x   = gen::any_data<T>(c, n, d);
    auto              ind = gen::indices(c, n, n, false);
    const auto        cfg = gen::tree_config(c, n, d);
    const std::size_t k   = dual ? 1 : c.draw(2);
    gen::describe(c, x);
    if (c.showing()) c.show() << "indices " << pbt::list_of(ind) << "\n" << cfg.text() << "\nk_nearest_neighbors=" << k << (dual ? " dual tree" : "") << "\n";
    const double tol  = std::is_floating_point_v<T> ? gen::dist_tol(x) : 0;
    auto         tree = gen::build_tree<T, std::size_t>(ind, x, cfg);
    using TR          = gen::Tree<T, std::size_t>;
    using B           = ffcl::BoruvkasAlgorithm<TR>;
    c.nontrivial(n > 3 && !tree.root()->is_leaf());
    const auto options = typename B::Options().k_nearest_neighbors(k);
    const bool by_copy = c.chance(1, 6), set_later = c.chance(1, 4);
    B          boruvka = set_later ? B() : B(options);
    if (set_later) boruvka.set_options(options);
    if (by_copy) {  // the same object on a copy of the tree: the tree is left as it was
        const auto before = dual ? boruvka.make_tree_2(tree) : boruvka.make_tree(tree);
        gen::check_mst(c, before, gen::distances(x), tol);
    }
    const auto edges = [&] {
        return dual ? boruvka.make_tree_2(std::move(tree)) : boruvka.make_tree(std::move(tree));
    }();
    gen::check_mst(c, edges, gen::distances(x), tol);
    const auto sorted = ffcl::datastruct::mst::sort_copy(edges);
    auto       moved  = edges;
    const auto in_place = ffcl::datastruct::mst::sort(std::move(moved));
    c.require(std::is_permutation(sorted.begin(), sorted.end(), edges.begin()) && std::is_permutation(in_place.begin(), in_place.end(), edges.begin()),
              "sort-permutation", "sorted edges are not the edges");
    for (std::size_t i = 1; i < sorted.size(); ++i)
        c.require(std::get<2>(sorted[i - 1]) <= std::get<2>(sorted[i]) && std::get<2>(in_place[i - 1]) <= std::get<2>(in_place[i]), "sort-order", "position ", i);
}

// sorting any list of edges: a permutation in non-decreasing order of weight, whatever the type of the weights
template <typename T>
void sort_edges(pbt::Case& c) {
    const std::size_t n = gen::count(c, 0, 300);
    ffcl::datastruct::mst::EdgesList<std::size_t, T> edges;
    const int shape = int(c.draw(3));
    for (std::size_t i = 0; i < n; ++i) {
        T w;
        if constexpr (std::is_floating_point_v<T>) {
            const T ulp = std::numeric_limits<T>::epsilon();
            w = shape == 0 ? T(c.draw(20)) / 4 : shape == 1 ? T(1 + ulp * T(c.draw(16))) : std::ldexp(T(1 + c.draw(3)), int(c.symmetric(100)));
        } else {
            w = shape == 0 ? T(c.draw(20)) : shape == 1 ? T(std::numeric_limits<T>::max() - T(c.draw(5))) : T(c.draw(1000000));
        }
        edges.emplace_back(c.draw(n + 1), c.draw(n + 1), w);
    }
    if (c.showing())
        for (auto& [a, b, w] : edges) c.show() << "(" << a << ", " << b << ", " << w << ") ";
    c.nontrivial(n > 3);
    const auto sorted   = ffcl::datastruct::mst::sort_copy(edges);
    auto       moved    = edges;
    const auto in_place = ffcl::datastruct::mst::sort(std::move(moved));
    for (auto* v : {&sorted, &in_place}) {
        auto a = *v, b = edges;
        for (std::size_t i = 1; i < v->size(); ++i) c.require(!(std::get<2>((*v)[i]) < std::get<2>((*v)[i - 1])), "sort-order", "position ", i);
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        c.require(a == b, "sort-permutation", "sorted edges are not the edges");
    }
}

LAW("sort-edges", 8000, 160000, [](pbt::Case& c) {
    switch (c.draw(4)) {
        case 0: return sort_edges<float>(c);
        case 1: return sort_edges<double>(c);
        case 2: return sort_edges<int>(c);
        default: return sort_edges<std::uint64_t>(c);
    }
});
LAW("emst-float", 48000, 1200000, [](pbt::Case& c) { emst<float>(c, 60, false); });
LAW("emst-double", 20000, 480000, [](pbt::Case& c) { emst<double>(c, 60, false); });
LAW("emst-int", 12000, 240000, [](pbt::Case& c) { emst<int>(c, 40, false); });
LAW("emst-unsigned", 8000, 160000, [](pbt::Case& c) { emst<unsigned>(c, 40, false); });
LAW("emst-large", 800, 16000, [](pbt::Case& c) { emst<float>(c, 500, false); });
LAW("emst-dual-float", 32000, 800000, [](pbt::Case& c) { emst<float>(c, 60, true); });
LAW("emst-dual-double", 12000, 320000, [](pbt::Case& c) { emst<double>(c, 40, true); });
LAW("emst-dual-integers", 8000, 160000, [](pbt::Case& c) { c.chance(1, 2) ? emst<int>(c, 40, true) : emst<unsigned>(c, 40, true); });

}  // namespace
