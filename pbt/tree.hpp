// Generated KD-tree configurations, shared by every check that goes through the spatial index.
#pragma once

#include "gen.hpp"

#include "ffcl/datastruct/tree/kdtree/KDTree.hpp"
#include "ffcl/datastruct/tree/kdtree/policy/AxisSelectionPolicy.hpp"
#include "ffcl/datastruct/tree/kdtree/policy/SplittingRulePolicy.hpp"

namespace gen {

struct TreeConfig {
    bool                     defaults    = false;
    std::size_t              bucket_size = 40;
    std::size_t              max_depth   = 0;
    int                      policy      = 0;  // 0 variance, 1 spread, 2 cycle
    double                   rate        = 0.1;
    std::vector<std::size_t> mask;

    std::string text() const {
        std::ostringstream o;
        if (defaults) return "kdtree(default options)";
        o << "kdtree(bucket_size=" << bucket_size << ", max_depth=" << max_depth << ", axis="
          << (policy == 0 ? "HighestVarianceBuild" : policy == 1 ? "MaximumSpreadBuild" : "CycleThroughAxesBuild");
        if (policy == 0) o << " sampling_rate=" << rate;
        if (!mask.empty()) o << " feature_mask=" << pbt::list_of(mask);
        o << ")";
        return o.str();
    }
};

inline TreeConfig tree_config(pbt::Case& c, std::size_t n, std::size_t d, bool masks = true) {
    TreeConfig t;
    if (c.chance(1, 12)) {
        t.defaults = true;
        return t;
    }
    t.policy = static_cast<int>(c.draw(3));
    switch (c.draw(4)) {
        case 0:
            t.bucket_size = static_cast<std::size_t>(std::sqrt(double(n)));
            break;
        case 1:
            t.bucket_size = 1 + c.draw(3);
            break;
        case 2:
            t.bucket_size = c.draw(2);
            break;
        default:
            t.bucket_size = 1 + c.draw(n + 2);
    }
    switch (c.draw(4)) {
        case 0:
            t.max_depth = static_cast<std::size_t>(std::log2(double(std::max<std::size_t>(n, 1))));
            break;
        case 1:
            t.max_depth = n + 1;
            break;
        case 2:
            t.max_depth = c.draw(4);
            break;
        default:
            t.max_depth = c.draw(12);
    }
    if (t.policy == 0) {
        static const std::vector<double> rates = {1.0, 0.1, 0.5, 0.0};
        t.rate                                 = c.pick(rates);
    }
    if (masks && d > 1 && c.chance(1, 4)) {
        // ordered, duplicates-free, non-empty
        for (std::size_t f = 0; f < d; ++f)
            if (is_wide(d) ? f + 6 >= d : c.chance(1, 2)) t.mask.push_back(f);
        if (t.mask.empty()) t.mask.push_back(c.draw(d));
        if (t.policy == 2) {
            // a sequence of axes: any order, an axis may come several times
            shuffle(c, t.mask);
            for (std::size_t more = c.draw(4); more; --more) t.mask.push_back(t.mask[c.draw(t.mask.size())]);
        }
    }
    return t;
}

template <typename Tree>
typename Tree::Options tree_options(const TreeConfig& t) {
    using I = typename Tree::IndicesIteratorType;
    using S = typename Tree::SamplesIteratorType;
    typename Tree::Options o;
    if (t.defaults) return o;
    o.bucket_size(t.bucket_size).max_depth(t.max_depth);
    namespace pol = ffcl::datastruct::kdtree::policy;
    if (t.policy == 0) {
        pol::HighestVarianceBuild<I, S> p;
        p.sampling_rate(t.rate);
        if (!t.mask.empty()) p.feature_mask(t.mask);
        o.axis_selection_policy(p);
    } else if (t.policy == 1) {
        pol::MaximumSpreadBuild<I, S> p;
        if (!t.mask.empty()) p.feature_mask(t.mask);
        o.axis_selection_policy(p);
    } else {
        pol::CycleThroughAxesBuild<I, S> p;
        if (!t.mask.empty()) p.feature_mask(t.mask);
        o.axis_selection_policy(p);
    }
    o.splitting_rule_policy(pol::QuickselectMedianRange<I, S>());
    return o;
}

template <typename T, typename Idx = std::size_t>
using Tree = ffcl::datastruct::KDTree<typename std::vector<Idx>::iterator, typename std::vector<T>::const_iterator>;

template <typename T, typename Idx>
Tree<T, Idx> build_tree(std::vector<Idx>& indices, const Data<T>& x, const TreeConfig& t) {
    using TR = Tree<T, Idx>;
    if (t.defaults) return TR(indices.begin(), indices.end(), x.v.cbegin(), x.v.cend(), x.d);
    return TR(indices.begin(), indices.end(), x.v.cbegin(), x.v.cend(), x.d, tree_options<TR>(t));
}

}  // namespace gen
