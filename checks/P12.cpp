// P12: cluster extraction from the hierarchy (condensed tree).
#include "condensed.hpp"

#include "ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp"

namespace {
namespace fd = ffcl::datastruct;

template <typename T>
void extraction(pbt::Case& c, std::size_t n, bool planted, bool powers = false) {
    gen::EdgeList<T>  edges;
    if (planted && n > 3) {
        // dense groups joined by longer edges
        const std::size_t g = 1 + c.draw(5);
        for (std::size_t i = 1; i < n; ++i) {
            const std::size_t grp = i * g / n, first = (grp * n + g - 1) / g;
            if (first >= i)
                edges.emplace_back(i, c.draw(i), T(8 + c.draw(64)));
            else
                edges.emplace_back(i, first + c.draw(i - first), T((c.chance(1, 6) ? 4 : 1) * (1 + double(c.draw(256)) / 256)));
        }
        gen::shuffle(c, edges);
    } else {
        edges = gen::random_tree<T>(c, n);
    }
    if (powers)  // levels whose densities are exact
        for (auto& e : edges) std::get<2>(e) = c.chance(1, 16) ? T(0) : std::ldexp(T(1), int(c.draw(c.chance(1, 2) ? 3 : 9)) - 4);
    const std::size_t min_size = 1 + c.draw(std::min<std::size_t>(n + 1, 8));
    const bool        leaves = c.chance(1, 4), single = c.chance(1, 2);
    if (c.showing())
        c.show() << "n=" << n << " edges " << gen::show_edges(edges) << "\nmin_cluster_size=" << min_size << " return_leaf_nodes=" << leaves
                 << " allow_single_cluster=" << single << "\n";
    fd::SingleLinkageClusterTree<std::size_t, T> slink(edges);
    using Tree = fd::CondensedClusterTree<std::size_t, T>;
    gen::Hierarchy h;
    gen::copy_hierarchy(slink.root(), h);
    gen::Condensed ref(h, min_size, std::numeric_limits<T>::epsilon());
    for (const auto& node : h.nodes) {
        const double l = double(fd::CondensedClusterNode<std::size_t, T>::lambda(T(node.level)));
        c.require(node.level > 0 ? pbt::close(l, 1 / node.level, 1e-6, 0) : std::isinf(l), "density", "the density of level ", node.level, " is ", l);
    }
    const auto wanted  = typename Tree::Options().min_cluster_size(min_size).return_leaf_nodes(leaves).allow_single_cluster(single);
    const bool assigned = c.chance(1, 4);  // other options that are assigned the wanted ones
    auto       options  = assigned ? typename Tree::Options().min_cluster_size(min_size + 1).return_leaf_nodes(!leaves).allow_single_cluster(!single) : wanted;
    if (assigned) options = wanted;
    const Tree     tree(slink.root(), options);
    ref.verify(c, c.chance(1, 2) ? tree.predict() : tree.extract_flat_clusters(), leaves, single);
    c.nontrivial(ref.splits > 0 && min_size > 1);
    if (c.chance(1, 4)) {  // defaults: clusters of one sample, no single cluster
        gen::Condensed all(h, 1, std::numeric_limits<T>::epsilon());
        const Tree     plain(slink.root());
        all.verify(c, plain.predict(), false, false);
    }
}

LAW("extraction-float", 60000, 1500000, [](pbt::Case& c) { extraction<float>(c, gen::count(c, 1, 40), false); });
LAW("extraction-double", 20000, 500000, [](pbt::Case& c) { extraction<double>(c, gen::count(c, 1, 40), false); });
LAW("groups-float", 60000, 1500000, [](pbt::Case& c) { extraction<float>(c, gen::count(c, 1, 60), true); });
LAW("groups-double", 20000, 500000, [](pbt::Case& c) { extraction<double>(c, gen::count(c, 1, 60), true); });
LAW("ties-float", 30000, 900000, [](pbt::Case& c) { extraction<float>(c, gen::sizeable(c, 1, 4, 40), c.chance(1, 2), true); });
LAW("ties-double", 10000, 300000, [](pbt::Case& c) { extraction<double>(c, gen::sizeable(c, 1, 4, 40), c.chance(1, 2), true); });
LAW("wide-float", 600, 12000, [](pbt::Case& c) { extraction<float>(c, std::size_t(c.range(200, 900)), c.chance(2, 3), c.chance(1, 2)); });
LAW("groups-large", 1000, 20000, [](pbt::Case& c) { extraction<double>(c, gen::count(c, 1, 300), true); });

}  // namespace
