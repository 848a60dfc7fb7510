// P11: single linkage dendrogram and its flat cut.
#include "hierarchy.hpp"

#include "ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp"

namespace {
namespace fd = ffcl::datastruct;

template <typename T, typename Node>
std::vector<std::size_t> walk(pbt::Case& c, const Node& node, const Node& parent, const gen::Weights& path, std::vector<double>& levels) {
    c.require(node != nullptr, "null-node", "missing child");
    c.require(node->parent_ == parent && node->has_parent() == (parent != nullptr), "parent-link", "wrong parent link");
    if (node->is_leaf()) {
        c.require(node->level_ == 0 && node->size() == 1, "leaf", "leaf with level ", double(node->level_), " and size ", node->size());
        c.require(node->representative_ < path.n, "leaf-range", "sample ", node->representative_);
        return {node->representative_};
    }
    c.require(node->left_ && node->right_, "half-node", "internal node with one child");
    auto l = walk<T>(c, node->left_, node, path, levels), r = walk<T>(c, node->right_, node, path, levels);
    c.require(node->left_->level_ <= node->level_ && node->right_->level_ <= node->level_, "monotone", "child above its parent at level ", double(node->level_));
    c.require(node->size() == l.size() + r.size(), "size", "size ", node->size(), " for ", l.size(), "+", r.size(), " samples");
    for (auto i : l)
        for (auto j : r)
            c.require(path(i, j) == double(node->level_), "cophenetic", "samples ", i, " and ", j, " are joined at ", double(node->level_),
                      ", the path between them needs ", path(i, j));
    levels.push_back(node->level_);
    l.insert(l.end(), r.begin(), r.end());
    c.require(std::find(l.begin(), l.end(), node->representative_) != l.end(), "representative", "representative ", node->representative_, " is not a member");
    return l;
}

template <typename Labels>
void check_cut(pbt::Case& c, const Labels& labels, const gen::Weights& path, double cut, std::size_t min_size) {
    const std::size_t n = path.n;
    c.require(labels.size() == n, "labels-size", labels.size());
    std::set<std::size_t> noise_free;
    for (std::size_t i = 0; i < n; ++i) {
        std::size_t size = 0;
        for (std::size_t j = 0; j < n; ++j) size += i == j ? 1 : path(i, j) < cut;
        const bool noise = size < min_size;
        c.require(noise == (labels[i] == 0), "noise", "sample ", i, " of a cluster of ", size, " has label ", labels[i]);
        for (std::size_t j = 0; j < i; ++j) {
            const bool together = path(i, j) < cut;
            if (noise || labels[j] == 0) continue;
            c.require(together == (labels[i] == labels[j]), "partition", "samples ", j, " and ", i, " (joined at ", path(i, j), ") have labels ", labels[j], " and ",
                      labels[i]);
        }
    }
}

template <typename T>
void dendrogram(pbt::Case& c, std::size_t max_n) {
    const std::size_t n     = gen::count(c, 1, max_n);
    auto              edges = gen::random_tree<T>(c, n);
    if (c.showing()) c.show() << "n=" << n << " edges " << gen::show_edges(edges) << "\n";
    const auto path = gen::minimax(edges, n);
    using Tree      = fd::SingleLinkageClusterTree<std::size_t, T>;
    const int how   = c.draw(4);
    auto      copy  = edges;
    Tree      tree  = how == 0   ? Tree(edges)
                      : how == 1 ? Tree(std::move(copy))
                      : how == 2 ? Tree(edges, typename Tree::Options())
                                 : Tree(std::move(copy), typename Tree::Options());
    std::vector<double> levels, weights;
    auto members = walk<T>(c, tree.root(), decltype(tree.root()){}, path, levels);
    std::sort(members.begin(), members.end());
    c.require(members == gen::iota(n), "members", "the leaves are not the samples");
    for (auto& [a, b, w] : edges) weights.push_back(w);
    std::sort(levels.begin(), levels.end());
    std::sort(weights.begin(), weights.end());
    c.require(levels == weights, "levels", "levels of the nodes are not the weights of the edges");
    // cuts
    check_cut(c, tree.predict(), path, std::numeric_limits<double>::infinity(), 1);
    const std::size_t n_cuts = 1 + c.draw(3);
    for (std::size_t q = 0; q < n_cuts; ++q) {
        T cut = weights.empty() ? T(c.draw(3)) : static_cast<T>(weights[c.draw(weights.size())]);
        if (std::is_floating_point_v<T>) {
            const auto how = c.draw(4);
            if (how == 1) cut = static_cast<T>(cut * 1.25);
            if (how == 2) cut = static_cast<T>(cut * 0.75);
            if (how == 3 && c.chance(1, 2)) cut = 0;
        }
        const std::size_t min_size = 1 + c.draw(std::min<std::size_t>(n + 1, 6));
        if (c.showing()) c.show() << "cut_level=" << +cut << " min_cluster_size=" << min_size << "\n";
        using O = typename Tree::Options;
        const O o = O().cut_level(cut).min_cluster_size(min_size);
        if (c.chance(1, 2)) {
            tree.set_options(o);
            check_cut(c, tree.predict(), path, cut, min_size);
        } else {
            auto       moved = edges;
            const Tree other = c.chance(1, 2) ? Tree(edges, o) : Tree(std::move(moved), o);
            check_cut(c, other.extract_flat_clusters(), path, cut, min_size);
        }
        std::size_t above = 0;
        for (auto w : weights) above += w >= cut;
        c.nontrivial(n > 3 && above > 0 && above < weights.size());
    }
}

// a path of more samples than a 16 bit number can count (joined in a random order: a shallow dendrogram)
template <typename T>
void huge(pbt::Case& c) {
    const std::size_t n = gen::count(c, 1, gen::kHuge);
    auto              name = gen::iota(n);
    if (c.chance(3, 4)) gen::shuffle(c, name);
    gen::Stream      s(c);
    gen::EdgeList<T> edges;
    for (std::size_t i = 1; i < n; ++i) edges.emplace_back(name[i - 1], name[i], static_cast<T>(1 + s.draw(1 << 23)));
    gen::shuffle(c, edges);
    using Tree = fd::SingleLinkageClusterTree<std::size_t, T>;
    using O    = typename Tree::Options;
    Tree tree(edges);
    std::vector<char>   seen(n);
    std::vector<double> levels, weights;
    std::function<std::size_t(const decltype(tree.root())&)> walk = [&](const auto& node) -> std::size_t {
        if (node->is_leaf()) {
            c.require(node->representative_ < n && !seen[node->representative_], "leaf", "sample ", node->representative_);
            seen[node->representative_] = 1;
            return 1;
        }
        const std::size_t size = walk(node->left_) + walk(node->right_);
        c.require(node->left_->level_ <= node->level_ && node->right_->level_ <= node->level_, "monotone", "child above its parent");
        c.require(node->size() == size, "size", "size ", node->size(), " for ", size, " samples");
        levels.push_back(node->level_);
        return size;
    };
    c.require(walk(tree.root()) == n, "members", "the leaves are not the samples");
    for (auto& [a, b, w] : edges) weights.push_back(w);
    std::sort(levels.begin(), levels.end());
    std::sort(weights.begin(), weights.end());
    c.require(levels == weights, "levels", "levels of the nodes are not the weights of the edges");
    for (int q = 0; q < 2; ++q) {
        const T           cut      = static_cast<T>(weights[c.draw(weights.size())]);
        const std::size_t min_size = 1 + c.draw(q ? 6 : 100);
        if (c.showing()) c.show() << "n=" << n << " cut_level=" << +cut << " min_cluster_size=" << min_size << "\n";
        gen::Labels uf(n);
        for (auto& [a, b, w] : edges)
            if (w < cut) uf.join(a, b);
        std::vector<std::size_t> size(n), label(n);
        for (std::size_t i = 0; i < n; ++i) ++size[uf.find(i)];
        tree.set_options(O().cut_level(cut).min_cluster_size(min_size));
        const auto labels = tree.predict();
        c.require(labels.size() == n, "labels-size", labels.size());
        std::map<std::size_t, std::size_t> owner;
        for (std::size_t i = 0; i < n; ++i) {
            const auto r = uf.find(i);
            c.require((size[r] < min_size) == (labels[i] == 0), "noise", "sample ", i, " of a cluster of ", size[r], " has label ", labels[i]);
            if (labels[i] == 0) continue;
            if (!label[r]) label[r] = labels[i];
            c.require(label[r] == labels[i], "partition", "samples ", r, " and ", i, " of one cluster have labels ", label[r], " and ", labels[i]);
            c.require(owner.emplace(labels[i], r).first->second == r, "partition", "two clusters share the label ", labels[i]);
        }
    }
    c.nontrivial();
}

LAW("dendrogram-huge", 3, 100, [](pbt::Case& c) { c.chance(1, 2) ? huge<double>(c) : huge<int>(c); }, 120);
LAW("dendrogram-float", 60000, 1500000, [](pbt::Case& c) { dendrogram<float>(c, 40); });
LAW("dendrogram-double", 20000, 500000, [](pbt::Case& c) { dendrogram<double>(c, 40); });
LAW("dendrogram-int", 10000, 200000, [](pbt::Case& c) { dendrogram<int>(c, 30); });
LAW("dendrogram-unsigned", 8000, 160000, [](pbt::Case& c) { dendrogram<unsigned>(c, 30); });
LAW("dendrogram-large", 800, 16000, [](pbt::Case& c) { dendrogram<float>(c, 300); });

}  // namespace
