// P10: minimum spanning trees under the k-mutual-reachability distance.
#include "mst.hpp"

#include "ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp"

namespace {

template <typename T>
void mrd(pbt::Case& c, std::size_t max_n) {
    const std::size_t n   = gen::count(c, 1, max_n);
    const std::size_t d   = gen::features(c, 6);
    const auto        x   = gen::any_data<T>(c, n, d);
    auto              ind = gen::indices(c, n, n, false);
    const auto        cfg = gen::tree_config(c, n, d);
    const std::size_t k   = 2 + c.draw(c.chance(1, 8) ? n + 2 : std::min<std::size_t>(n, 8));
    const bool        default_options = c.chance(1, 10);
    gen::describe(c, x);
    if (c.showing()) c.show() << "indices " << pbt::list_of(ind) << "\n" << cfg.text() << "\nk_nearest_neighbors=" << (default_options ? 3 : k) << "\n";
    const double tol  = std::is_floating_point_v<T> ? gen::dist_tol(x) : 0;
    auto         tree = gen::build_tree<T, std::size_t>(ind, x, cfg);
    using TR          = gen::Tree<T, std::size_t>;
    using B           = ffcl::BoruvkasAlgorithm<TR>;
    c.nontrivial(n > 3 && !tree.root()->is_leaf() && k < n);
    const auto options = typename B::Options().k_nearest_neighbors(k);
    const bool in_constructor = !default_options && c.chance(1, 4), by_copy = c.chance(1, 6);
    B          boruvka = in_constructor ? B(options) : B();
    if (!default_options && !in_constructor) boruvka.set_options(options);
    if (by_copy) {  // the same object on a copy of the tree: the tree is left as it was
        const auto before = boruvka.make_tree(tree);
        gen::check_mst(c, before, gen::mutual_reachability(gen::distances(x), default_options ? 3 : k), tol);
    }
    const auto edges = boruvka.make_tree(std::move(tree));
    gen::check_mst(c, edges, gen::mutual_reachability(gen::distances(x), default_options ? 3 : k), tol);
}

template <typename T>
void core(pbt::Case& c, std::size_t max_n) {
    const std::size_t n   = gen::count(c, 1, max_n);
    const std::size_t d   = gen::features(c, 6);
    const auto        x   = gen::any_data<T>(c, n, d);
    auto              ind = gen::indices(c, n, n, false);
    const auto        cfg = gen::tree_config(c, n, d);
    const std::size_t k   = 1 + c.draw(n + 2);
    gen::describe(c, x);
    if (c.showing()) c.show() << cfg.text() << "\nk_nearest_neighbors=" << k << "\n";
    auto tree = gen::build_tree<T, std::size_t>(ind, x, cfg);
    c.nontrivial(n > 3 && !tree.root()->is_leaf() && k < n);
    const ffcl::search::Searcher searcher(std::move(tree));
    const auto got  = ffcl::datastruct::mst::make_static_core_distances(searcher, k);
    const auto want = gen::core_distances(gen::distances(x), k);
    for (std::size_t i = 0; i < n; ++i)
        c.require(pbt::close(double(got[i]), want[i], 0, std::is_floating_point_v<T> ? gen::dist_tol(x) : 0), "core-distance", "sample ", i, ": ",
                  double(got[i]), " instead of ", want[i]);
}

LAW("mrd-float", 48000, 1200000, [](pbt::Case& c) { mrd<float>(c, 60); });
LAW("mrd-double", 20000, 480000, [](pbt::Case& c) { mrd<double>(c, 60); });
LAW("mrd-int", 12000, 240000, [](pbt::Case& c) { mrd<int>(c, 40); });
LAW("mrd-unsigned", 8000, 160000, [](pbt::Case& c) { c.chance(1, 2) ? mrd<unsigned>(c, 40) : core<unsigned>(c, 60); });
LAW("mrd-large", 600, 12000, [](pbt::Case& c) { mrd<float>(c, 400); });
LAW("core-float", 32000, 800000, [](pbt::Case& c) { core<float>(c, 80); });
LAW("core-large", 400, 8000, [](pbt::Case& c) { core<double>(c, 1000); });
LAW("core-int", 12000, 240000, [](pbt::Case& c) { core<int>(c, 80); });

}  // namespace
