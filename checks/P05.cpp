// P05: dual-set / dual-tree closest pair searches return the k-th closest pair of the two sets.
#include "ffcl/search/ClosestPairOfSamples.hpp"  // before Search.hpp: the two headers include each other
#include "search_oracle.hpp"

#include "ffcl/datastruct/UnionFind.hpp"

namespace {
namespace fs_ = ffcl::search;
namespace fa  = ffcl::search::algorithms;

template <typename T>
struct Two {
    gen::Data<T>             x, y;  // samples of the queries and of the references
    std::vector<std::size_t> a, b;
    double                   tol;
};

// one data set with two disjoint index sets (as spanning tree construction uses them), or two data sets
template <typename T>
Two<T> two(pbt::Case& c, std::size_t max_n, bool one = false) {
    Two<T>            t;
    const std::size_t n = gen::count(c, 2, max_n), d = gen::features(c, 6);
    t.x                 = gen::any_data<T>(c, n, d);
    t.tol               = gen::dist_tol(t.x);
    auto order          = gen::iota(n);
    if (c.chance(1, 2)) gen::shuffle(c, order);
    const std::size_t cut = 1 + c.draw(n - 1);
    t.a.assign(order.begin(), order.begin() + cut);
    t.b.assign(order.begin() + cut, order.end());
    if (c.chance(1, 3)) {  // separate the two sets on the first axis: most of the nodes can be pruned
        const T shift = static_cast<T>(4 * (t.x.span + 1));
        for (auto i : t.b) t.x.v[i * d] += shift;
        t.x.span += 4 * (t.x.span + 1);
        t.tol = gen::dist_tol(t.x);
        t.x.mode += "+separated";
    }
    t.y = t.x;
    if (!one && c.chance(1, 4)) {
        const std::size_t m = gen::count(c, 1, max_n);
        t.y                 = gen::any_data<T>(c, m, d);
        t.b                 = gen::indices(c, m, 1);
        t.tol               = 64 * std::numeric_limits<T>::epsilon() * 2 * (t.x.span + t.y.span + 24 * (t.x.step + t.y.step)) * std::sqrt(double(d));
        gen::describe(c, t.y, "references");
    }
    gen::describe(c, t.x);
    if (c.showing()) c.show() << "queries " << pbt::list_of(t.a) << " references " << pbt::list_of(t.b) << "\n";
    return t;
}

template <typename T>
std::vector<double> pair_distances(const Two<T>& t, const std::vector<std::size_t>* label = nullptr, std::size_t rep = 0) {
    std::vector<double> all;
    for (auto i : t.a)
        for (auto j : t.b)
            if (!label || (*label)[j] != (*label)[rep]) all.push_back(gen::metric(t.x.row(i), t.y.row(j), t.x.d));
    std::sort(all.begin(), all.end());
    return all;
}

template <typename T, typename Edge>
void check_edge(pbt::Case& c, const Two<T>& t, const Edge& e, double want, const char* tag) {
    const auto i = std::get<0>(e), j = std::get<1>(e);
    c.require(std::find(t.a.begin(), t.a.end(), i) != t.a.end(), tag, "first index ", i, " is not a query");
    c.require(std::find(t.b.begin(), t.b.end(), j) != t.b.end(), tag, "second index ", j, " is not a reference");
    const double actual = gen::metric(t.x.row(i), t.y.row(j), t.x.d);
    c.require(pbt::close(std::get<2>(e), actual, 0, t.tol), tag, "edge (", i, ",", j, ") has length ", actual, " but reports ", double(std::get<2>(e)));
    c.require(pbt::close(std::get<2>(e), want, 0, t.tol), tag, "edge (", i, ",", j, ") of length ", double(std::get<2>(e)), " instead of ", want);
}

template <typename T>
void dual_tree(pbt::Case& c, std::size_t max_n, std::size_t max_k) {
    auto              t    = two<T>(c, max_n);
    const auto        cfg_a = gen::tree_config(c, t.a.size(), t.x.d), cfg_b = gen::tree_config(c, t.b.size(), t.x.d);
    const auto        all  = pair_distances(t);
    const std::size_t k    = 1 + c.draw(max_k);
    if (c.showing()) c.show() << "query " << cfg_a.text() << "\nreference " << cfg_b.text() << "\nk=" << k << "\n";
    auto qa = t.a, rb = t.b;
    auto query    = gen::build_tree<T, std::size_t>(qa, t.x, cfg_a);
    auto searcher = fs_::Searcher(gen::build_tree<T, std::size_t>(rb, t.y, cfg_b));
    c.nontrivial(t.a.size() > 2 && t.b.size() > 2);
    const double want = all[std::min(k, all.size()) - 1];
    check_edge(c, t, searcher.dual_tree_shortest_edge(query, k), want, "dual-tree");
    if (c.chance(1, 3)) check_edge(c, t, searcher.dual_tree_shortest_edge_with_core_distances(query, k), want, "dual-tree-core");
}

template <typename T>
void dual_tree_components(pbt::Case& c, std::size_t max_n) {
    auto                                     t = two<T>(c, max_n, true);
    const std::size_t                        n = t.x.n;
    ffcl::datastruct::UnionFind<std::size_t> uf(n);
    std::vector<std::size_t>                 label = gen::iota(n);
    auto                                     join  = [&](std::size_t p, std::size_t q) {
        uf.merge(p, q);
        const auto lp = label[p], lq = label[q];
        for (auto& l : label)
            if (l == lq) l = lp;
    };
    // the queries are one component; references may belong to it as well
    for (std::size_t i = 1; i < t.a.size(); ++i) join(t.a[0], t.a[i]);
    const std::size_t extra = c.draw(t.b.size() + 1);
    for (std::size_t m = 0; m < extra; ++m) join(c.chance(1, 4) ? t.a[0] : t.b[c.draw(t.b.size())], t.b[c.draw(t.b.size())]);
    const std::size_t rep  = uf.find(t.a[0]);
    const auto        all  = pair_distances(t, &label, rep);
    if (all.empty()) c.discard();
    const auto cfg_a = gen::tree_config(c, t.a.size(), t.x.d), cfg_b = gen::tree_config(c, t.b.size(), t.x.d);
    if (c.showing()) c.show() << "labels " << pbt::list_of(label) << " representative " << rep << "\nquery " << cfg_a.text() << "\nreference " << cfg_b.text() << "\n";
    auto qa = t.a, rb = t.b;
    c.nontrivial(t.a.size() > 2 && t.b.size() > 2 && all.size() < t.a.size() * t.b.size());
    auto verify = [&](const auto& e, const char* tag) {
        check_edge(c, t, e, all[0], tag);
        c.require(label[std::get<1>(e)] != label[rep], tag, "reference ", std::get<1>(e), " belongs to the component of the queries");
    };
    {
        auto query    = gen::build_tree<T, std::size_t>(qa, t.x, cfg_a);
        auto searcher = fs_::Searcher(gen::build_tree<T, std::size_t>(rb, t.y, cfg_b));
        verify(searcher.dual_tree_shortest_edge(query, uf, rep, std::size_t{1}), "dual-tree-components");
    }
    {
        auto a2 = t.a, b2 = t.b;
        verify(fa::sequential_dual_set_shortest_edge(a2.begin(), a2.end(), t.x.v.cbegin(), t.x.v.cend(), t.x.d, b2.begin(), b2.end(), t.x.v.cbegin(),
                                                     t.x.v.cend(), t.x.d, uf, rep),
               "sequential-components");
    }
    {
        auto a2 = t.a, b2 = t.b;
        verify(fa::dual_set_shortest_edge(a2.begin(), a2.end(), t.x.v.cbegin(), t.x.v.cend(), t.x.d, b2.begin(), b2.end(), t.x.v.cbegin(), t.x.v.cend(),
                                          t.x.d, uf, rep, std::size_t{1}),
               "dual-set-components");
    }
}

template <typename T>
void dual_set(pbt::Case& c, std::size_t max_n) {
    auto       t   = two<T>(c, max_n);
    const auto all = pair_distances(t);
    auto       a2 = t.a, b2 = t.b;
    c.nontrivial(t.a.size() > 2 && t.b.size() > 2);
    check_edge(c, t,
               fa::dual_set_shortest_edge(a2.begin(), a2.end(), t.x.v.cbegin(), t.x.v.cend(), t.x.d, b2.begin(), b2.end(), t.y.v.cbegin(), t.y.v.cend(),
                                          t.x.d, std::size_t{1}),
               all[0], "dual-set");
    const double dd = fa::dual_set_shortest_distance(a2.begin(), a2.end(), t.x.v.cbegin(), t.x.v.cend(), t.x.d, b2.begin(), b2.end(), t.y.v.cbegin(), t.y.v.cend(), t.x.d, std::size_t{1});
    c.require(pbt::close(dd, all[0], 0, t.tol), "dual-set-distance", dd, " instead of ", all[0]);
    if (all[0] > 0)
        check_edge(c, t,
                   fa::simple_dual_set_shortest_edge(a2.begin(), a2.end(), t.x.v.cbegin(), t.x.v.cend(), t.x.d, b2.begin(), b2.end(), t.y.v.cbegin(), t.y.v.cend(), t.x.d),
                   all[0], "simple-dual-set");
}

LAW("dual-tree-float", 60000, 700000, [](pbt::Case& c) { dual_tree<float>(c, 60, 1); });
LAW("dual-tree-double", 20000, 250000, [](pbt::Case& c) { dual_tree<double>(c, 60, 1); });
LAW("dual-tree-integers", 12000, 150000, [](pbt::Case& c) { c.chance(1, 2) ? dual_tree<int>(c, 40, 3) : dual_tree<unsigned>(c, 40, 3); });
LAW("dual-integers", 10000, 120000, [](pbt::Case& c) { c.chance(1, 2) ? dual_tree_components<int>(c, 40) : dual_set<unsigned>(c, 40); });
LAW("dual-tree-kth", 50000, 400000, [](pbt::Case& c) { dual_tree<float>(c, 40, 12); });
LAW("dual-tree-components", 40000, 400000, [](pbt::Case& c) { dual_tree_components<float>(c, 60); });
LAW("dual-set", 20000, 300000, [](pbt::Case& c) { dual_set<float>(c, 60); });
LAW("dual-components-large", 400, 4000, [](pbt::Case& c) { dual_tree_components<float>(c, 400); });
LAW("dual-set-large", 300, 4000, [](pbt::Case& c) { dual_set<double>(c, 300); });
LAW("dual-tree-large", 600, 4000, [](pbt::Case& c) { dual_tree<float>(c, 500, 3); });

}  // namespace
