// P13: HDBSCAN end to end against a reference hierarchy.
#include "condensed.hpp"

#include "ffcl/hdbscan/HDBSCAN.hpp"

namespace {

// minimum spanning tree with its edges (Prim)
gen::EdgeList<double> prim_edges(const gen::Weights& w) {
    gen::EdgeList<double>    out;
    std::vector<double>      best(w.n, std::numeric_limits<double>::infinity());
    std::vector<std::size_t> from(w.n, 0);
    std::vector<bool>        in(w.n);
    std::size_t              cur = 0;
    in[0]                        = true;
    for (std::size_t s = 1; s < w.n; ++s) {
        std::size_t nxt = w.n;
        for (std::size_t j = 0; j < w.n; ++j) {
            if (in[j]) continue;
            if (w(cur, j) < best[j]) best[j] = w(cur, j), from[j] = cur;
            if (nxt == w.n || best[j] < best[nxt]) nxt = j;
        }
        out.emplace_back(from[nxt], nxt, best[nxt]);
        in[nxt] = true;
        cur     = nxt;
    }
    return out;
}

template <typename T>
gen::Data<T> clustered(pbt::Case& c, std::size_t n, std::size_t d) {
    gen::Data<T> x;
    x.n = n, x.d = d, x.mode = "clusters";
    x.v.resize(n * d);
    const std::size_t   m = 1 + c.draw(4);
    std::vector<double> centers(m * d), spread(m);
    for (auto& v : centers) v = double(c.symmetric(64));
    for (auto& s : spread) s = 0.5 + double(c.draw(16)) / 2;
    x.span = 80;
    for (std::size_t i = 0; i < n; ++i) {
        const bool        outlier = c.chance(1, 10);
        const std::size_t g       = c.draw(m);
        for (std::size_t f = 0; f < d; ++f)
            x.v[i * d + f] = static_cast<T>(outlier ? double(c.symmetric(1 << 14)) / (1 << 7) / 2
                                                    : centers[g * d + f] + spread[g] * double(c.symmetric(1 << 12)) / (1 << 12));
    }
    return x;
}

template <typename T>
void end_to_end(pbt::Case& c, std::size_t max_n) {
    const std::size_t n   = gen::count(c, 1, max_n);
    const std::size_t d   = gen::features(c, 4);
    const auto        x   = c.chance(1, 3) ? gen::data<T>(c, n, d) : clustered<T>(c, n, d);
    auto              ind = gen::indices(c, n, n, false);
    const auto        cfg = gen::tree_config(c, n, d);
    using TR              = gen::Tree<T, std::size_t>;
    using H               = ffcl::HDBSCAN<TR>;
    std::size_t k = 1, min_size = 5;
    bool        leaves = false, single = true;
    const bool  defaults = c.chance(1, 8);
    typename H::Options o;
    if (!defaults) {
        k        = 1 + c.draw(6);
        min_size = 1 + c.draw(std::min<std::size_t>(n + 1, 8));
        leaves   = c.chance(1, 4);
        single   = c.chance(1, 2);
        o.k_nearest_neighbors(k).min_cluster_size(min_size).return_leaf_nodes(leaves).allow_single_cluster(single);
    }
    gen::describe(c, x);
    if (c.showing())
        c.show() << "indices " << pbt::list_of(ind) << "\n"
                 << cfg.text() << "\nk_nearest_neighbors=" << k << " min_cluster_size=" << min_size << " return_leaf_nodes=" << leaves
                 << " allow_single_cluster=" << single << (defaults ? " (defaults)" : "") << "\n";
    auto tree = gen::build_tree<T, std::size_t>(ind, x, cfg);
    const bool in_constructor = !defaults && c.chance(1, 4), by_copy = c.chance(1, 6);
    H          hdbscan = in_constructor ? H(o) : H();
    if (!defaults && !in_constructor) hdbscan.set_options(o);
    if (by_copy) hdbscan.predict(tree);  // an earlier prediction, on a copy of the tree, has no influence
    const auto labels = hdbscan.predict(std::move(tree));
    c.require(labels.size() == n, "labels-size", labels.size());

    const auto   w   = gen::mutual_reachability(gen::distances(x), k);
    const double tol = gen::dist_tol(x);
    // always: consecutive labels, sizes, and every cluster is isolated: no outside sample is closer than its longest inner link
    std::map<std::size_t, std::vector<std::size_t>> clusters;
    for (std::size_t i = 0; i < n; ++i) clusters[labels[i]].push_back(i);
    std::size_t expect = 1;
    for (auto& [l, members] : clusters) {
        if (l == 0) continue;
        c.require(l == expect++, "consecutive", "label ", l, " skips a value; labels ", pbt::list_of(labels));
        c.require(members.size() >= min_size || members.size() == n, "cluster-size", "cluster ", l, " has ", members.size(), " samples; labels ", pbt::list_of(labels));
        gen::Weights inner;
        inner.n = members.size();
        inner.w.resize(inner.n * inner.n);
        double separation = std::numeric_limits<double>::infinity();
        for (std::size_t a = 0; a < members.size(); ++a) {
            for (std::size_t b = 0; b < members.size(); ++b) inner.at(a, b) = w(members[a], members[b]);
            for (std::size_t j = 0; j < n; ++j)
                if (std::size_t(labels[j]) != l) separation = std::min(separation, w(members[a], j));
        }
        const auto p = gen::prim(inner);
        if (!p.empty())
            c.require(p.back() <= separation + tol, "isolation", "cluster ", l, " needs a link of ", p.back(), " but is only ", separation,
                      " away from the others; labels ", pbt::list_of(labels));
    }
    // exact comparison when the hierarchy is unique
    const auto edges  = prim_edges(w);
    auto       levels = gen::prim(w);
    bool       unique = true;
    for (std::size_t i = 1; i < levels.size(); ++i) unique = unique && levels[i] - levels[i - 1] > 4 * tol;
    if (!levels.empty() && levels[0] <= 16 * tol) unique = unique && false;
    c.label(unique ? "unique-hierarchy" : "tied-hierarchy");
    if (!unique) {
        c.nontrivial(n > 5 && clusters.size() > 1);
        return;
    }
    const auto     h = gen::make_hierarchy(edges, n);
    gen::Condensed ref(h, min_size, std::max<double>(std::numeric_limits<T>::epsilon(), levels.empty() ? 0 : tol / levels[0]));
    ref.verify(c, labels, leaves, single);
    c.nontrivial(ref.splits > 0 && min_size > 1);
}

LAW("hdbscan-float", 30000, 600000, [](pbt::Case& c) { end_to_end<float>(c, 60); });
LAW("hdbscan-double", 20000, 400000, [](pbt::Case& c) { end_to_end<double>(c, 60); });
LAW("hdbscan-large", 600, 9000, [](pbt::Case& c) { end_to_end<double>(c, 300); });

}  // namespace
