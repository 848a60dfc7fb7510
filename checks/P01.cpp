// P01: the KD-tree is a faithful, correctly oriented, size-bounded index of exactly the samples it was given.
#include "tree.hpp"

namespace {

template <typename T, typename Idx>
struct Walker {
    using TreeT   = gen::Tree<T, Idx>;
    using NodePtr = typename TreeT::NodePtr;

    pbt::Case&              c;
    const gen::Data<T>&     x;
    const gen::TreeConfig&  cfg;
    std::vector<Idx>&       storage;
    std::vector<Idx>        seen;
    std::size_t             n_internal = 0;
    std::size_t             max_depth_seen = 0;

    T value(Idx i, std::size_t f) const { return x.v[static_cast<std::size_t>(i) * x.d + f]; }

    // returns the indices of the subtree, in storage order
    std::vector<Idx> walk(const NodePtr& node, std::size_t depth, const NodePtr& parent) {
        c.require(node != nullptr, "null-node", "a child of an internal node is null at depth ", depth);
        max_depth_seen = std::max(max_depth_seen, depth);
        const auto p = node->parent_.lock();
        c.require(p == parent, "parent-link", "wrong parent link at depth ", depth);
        c.require(node->has_parent() == (parent != nullptr), "parent-link", "has_parent() wrong at depth ", depth);
        c.require(node->is_leaf() == !node->has_children(), "half-node", "node with exactly one child at depth ", depth);
        std::vector<Idx> own(node->begin(), node->end());
        c.require(own.size() == node->n_samples(), "n_samples", "n_samples() ", node->n_samples(), " != ", own.size());
        c.require(node->is_empty() == own.empty(), "n_samples", "is_empty() wrong");
        const std::size_t bucket = cfg.defaults ? 40 : cfg.bucket_size;
        if (node->is_leaf()) {
            c.require(node->cut_axis_feature_index_ == -1, "leaf-axis", "leaf with a cut axis ", node->cut_axis_feature_index_);
            const bool depth_limited = !cfg.defaults && depth >= cfg.max_depth;
            c.require(depth_limited || own.size() <= bucket, "bucket-size", "leaf at depth ", depth, " holds ", own.size(),
                      " samples, bucket_size ", bucket);
            check_bounds(node, own, depth);
            return own;
        }
        ++n_internal;
        c.require(cfg.defaults || depth < cfg.max_depth, "max-depth", "internal node at depth ", depth, " max_depth ", cfg.max_depth);
        c.require(own.size() == 1, "pivot", "internal node holds ", own.size(), " samples instead of its pivot");
        const auto axis = static_cast<std::size_t>(node->cut_axis_feature_index_);
        c.require(node->cut_axis_feature_index_ >= 0 && axis < x.d, "axis-range", "cut axis ", node->cut_axis_feature_index_);
        const T cut = value(own[0], axis);

        const auto left  = walk(node->left_, depth + 1, node);
        const auto right = walk(node->right_, depth + 1, node);
        for (auto i : left)
            c.require(value(i, axis) < cut, "left-order", "sample ", i, " in the left subtree has ", value(i, axis),
                      " on axis ", axis, ", cut value ", cut);
        for (auto i : right)
            c.require(value(i, axis) >= cut, "right-order", "sample ", i, " in the right subtree has ", value(i, axis),
                      " on axis ", axis, ", cut value ", cut);

        std::vector<Idx> all(left);
        all.push_back(own[0]);
        all.insert(all.end(), right.begin(), right.end());
        c.require(all.size() > bucket, "needless-split", "a node of ", all.size(), " samples was split, bucket_size ", bucket);
        // median split: no side may hold more samples than a median allows, values equal to the cut go right
        c.require(left.size() <= (all.size() - 1) / 2, "median", "left subtree holds ", left.size(), " of ", all.size());
        {
            std::size_t greater = 0;
            for (auto i : all) greater += value(i, axis) > cut;
            c.require(greater <= all.size() / 2, "median", greater, " of ", all.size(), " samples are greater than the cut value");
        }
        check_bounds(node, all, depth);
        for (std::size_t f = 0; f < x.d; ++f) {
            const auto& b = node->bound_.segment_at(f);
            const auto& l = node->left_->bound_.segment_at(f);
            const auto& r = node->right_->bound_.segment_at(f);
            c.require(b.lower_bound() <= l.lower_bound() && l.upper_bound() <= b.upper_bound() && b.lower_bound() <= r.lower_bound() &&
                          r.upper_bound() <= b.upper_bound(),
                      "bound-nesting", "the box of a child of a node at depth ", depth, " leaves its parent's box on axis ", f);
        }
        check_axis(node, all, axis, depth);
        return all;
    }

    void check_bounds(const NodePtr& node, const std::vector<Idx>& members, std::size_t depth) {
        for (std::size_t f = 0; f < x.d; ++f) {
            const T lo = node->bound_.segment_at(f).lower_bound(), hi = node->bound_.segment_at(f).upper_bound();
            for (auto i : members)
                c.require(lo <= value(i, f) && value(i, f) <= hi, "bound-contains", "sample ", i, " (", value(i, f),
                          ") of a node at depth ", depth, " outside its box [", lo, ",", hi, "] on axis ", f);
        }
    }

    void check_axis(const NodePtr& node, const std::vector<Idx>& members, std::size_t axis, std::size_t depth) {
        if (cfg.defaults) return;
        std::vector<std::size_t> allowed = cfg.mask.empty() ? gen::iota(x.d) : cfg.mask;
        if (cfg.policy == 2) {
            c.require(axis == allowed[depth % allowed.size()], "cycle-axis", "axis ", axis, " at depth ", depth);
            return;
        }
        c.require(std::find(allowed.begin(), allowed.end(), axis) != allowed.end(), "masked-axis", "axis ", axis, " not in the mask");
        if (cfg.policy == 1) {
            double best = 0;
            for (auto f : allowed)
                best = std::max(best, double(node->bound_.segment_at(f).upper_bound()) - double(node->bound_.segment_at(f).lower_bound()));
            const double got = double(node->bound_.segment_at(axis).upper_bound()) - double(node->bound_.segment_at(axis).lower_bound());
            c.require(pbt::close(got, best, 1e-5, 1e-6), "spread-axis", "axis ", axis, " has extent ", got, ", the widest has ", best);
            return;
        }
        if (members.size() == 2) {
            double best = 0;
            for (auto f : allowed) best = std::max(best, std::fabs(double(value(members[0], f)) - double(value(members[1], f))));
            const double got = std::fabs(double(value(members[0], axis)) - double(value(members[1], axis)));
            c.require(pbt::close(got, best, 1e-5, 1e-6), "pair-axis", "axis ", axis, " separates the two samples by ", got, ", the widest by ", best);
        }
        if (members.size() > 2) {
            if (cfg.rate == 1.0) {
                std::vector<double> var(x.d, 0.0);
                for (auto f : allowed) {
                    long double m = 0, s = 0;
                    for (auto i : members) m += value(i, f);
                    m /= members.size();
                    for (auto i : members) s += (value(i, f) - m) * (value(i, f) - m);
                    var[f] = double(s / members.size());
                }
                const double best = *std::max_element(var.begin(), var.end());
                c.require(pbt::close(var[axis], best, gen::is_huge(members.size()) ? 0.05 : 2e-3, std::is_integral_v<T> ? 2 : 1e-4 + 1e-5 * x.span * x.span), "variance-axis", "axis ", axis, " has variance ", var[axis],
                          ", the largest is ", best);
            }
        }
    }
};

template <typename T, typename Idx>
void structure(pbt::Case& c, std::size_t max_n, bool tiny = false) {
    const std::size_t n   = gen::count(c, 1, max_n);
    const std::size_t d   = gen::dims(c, n, n > 200 ? 4 : 11);
    auto              x   = gen::any_data<T>(c, n, d);
    if (tiny) {  // coordinates that differ by less than the machine epsilon
        for (auto& v : x.v) v = std::ldexp(v, -int(c.tier_ ? 32 : 32));
    }
    auto              idx = gen::indices(c, n, 1);
    std::vector<Idx>  ind(idx.begin(), idx.end());
    const auto        cfg = gen::tree_config(c, ind.size(), d);
    gen::describe(c, x);
    if (c.showing()) c.show() << "indices " << pbt::list_of(ind) << "\n" << cfg.text() << "\n";
    const auto before_ind  = ind;
    const auto before_data = x.v;

    auto built = gen::build_tree<T, Idx>(ind, x, cfg);

    auto check = [&](const auto& tree) {
        c.require(x.v == before_data, "data-modified", "building the tree changed the samples");
        c.require(tree.n_features() == d, "n_features", tree.n_features());
        c.require(tree.n_samples() == n, "n_samples", tree.n_samples(), " instead of ", n);
        for (std::size_t i = 0; i < n; ++i) {
            c.require(std::equal(tree.features_range_first(i), tree.features_range_last(i), x.v.cbegin() + i * d) &&
                          std::distance(tree.features_range_first(i), tree.features_range_last(i)) == std::ptrdiff_t(d) &&
                          tree[i] == tree.features_range_first(i),
                      "sample-access", "features of sample ", i);
        }
        Walker<T, Idx> w{c, x, cfg, ind, {}};
        auto           got = w.walk(tree.root(), 0, nullptr);
        // in-order traversal enumerates the index range the tree was built on, which is a permutation of the input
        c.require(got == ind, "in-order", "the nodes do not cover the index range in order");
        auto a = got, b = before_ind;
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        c.require(a == b, "lost-samples", "indices in the tree are not a permutation of the input indices");
        // the root box is the tight bounding box of the indexed samples
        for (std::size_t f = 0; f < d; ++f) {
            T lo = std::numeric_limits<T>::max(), hi = std::numeric_limits<T>::lowest();
            for (auto i : before_ind) {
                lo = std::min(lo, x.v[std::size_t(i) * d + f]);
                hi = std::max(hi, x.v[std::size_t(i) * d + f]);
            }
            c.require(tree.root()->bound_.segment_at(f).lower_bound() == lo && tree.root()->bound_.segment_at(f).upper_bound() == hi,
                      "root-box", "axis ", f);
        }
        c.nontrivial(w.n_internal >= 2);
        c.label(w.n_internal == 0 ? "single leaf" : w.n_internal < 4 ? "1-3 splits" : "4+ splits");
    };
    check(built);
    c.label(x.mode);
    if (c.chance(1, 4)) {
        auto copy(built);
        check(copy);
        auto moved(std::move(copy));
        check(moved);
        check(built);
    }
}

LAW("structure-float", 60000, 1500000, [](pbt::Case& c) { structure<float, std::size_t>(c, 120); });
LAW("structure-double", 30000, 800000, [](pbt::Case& c) { structure<double, std::size_t>(c, 120); });
LAW("structure-int-indices", 15000, 400000, [](pbt::Case& c) { structure<float, int>(c, 80); });
LAW("structure-int", 12000, 300000, [](pbt::Case& c) { structure<int, std::size_t>(c, 80); });
LAW("structure-unsigned", 12000, 300000, [](pbt::Case& c) { structure<unsigned, std::size_t>(c, 80); });
LAW("structure-large", 2500, 60000, [](pbt::Case& c) { structure<float, std::size_t>(c, 1500); });
LAW("structure-huge", 4, 200, [](pbt::Case& c) { c.chance(1, 3) ? structure<int, int>(c, gen::kHuge) : structure<float, std::size_t>(c, gen::kHuge); }, 120);

LAW("structure-tiny-scale", 10000, 200000, [](pbt::Case& c) { structure<float, std::size_t>(c, 80, true); });

}  // namespace
