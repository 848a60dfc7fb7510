// Reference cluster selection on a single linkage hierarchy (condensed tree, excess of mass).
#pragma once

#include "hierarchy.hpp"

namespace gen {

// a binary hierarchy in plain arrays
struct Hierarchy {
    struct Node {
        int                      left = -1, right = -1;
        double                   level = 0;
        std::vector<std::size_t> members;
    };
    std::vector<Node> nodes;
    int               root = -1;
};

template <typename NodePtr>
int copy_hierarchy(const NodePtr& n, Hierarchy& h) {
    Hierarchy::Node x;
    x.level = double(n->level_);
    if (n->is_leaf()) {
        x.members = {n->representative_};
    } else {
        x.left    = copy_hierarchy(n->left_, h);
        x.right   = copy_hierarchy(n->right_, h);
        x.members = h.nodes[x.left].members;
        x.members.insert(x.members.end(), h.nodes[x.right].members.begin(), h.nodes[x.right].members.end());
    }
    h.nodes.push_back(x);
    return h.root = int(h.nodes.size()) - 1;
}

// single linkage of a spanning tree (weights must be distinct for the result to be unique)
template <typename Edges>
Hierarchy make_hierarchy(Edges edges, std::size_t n) {
    std::stable_sort(edges.begin(), edges.end(), [](const auto& a, const auto& b) { return std::get<2>(a) < std::get<2>(b); });
    Hierarchy        h;
    std::vector<int> top(n);
    Labels           uf(n);
    for (std::size_t i = 0; i < n; ++i) {
        Hierarchy::Node x;
        x.members = {i};
        h.nodes.push_back(x);
        top[i] = int(i);
    }
    h.root = 0;
    for (auto& [a, b, w] : edges) {
        const auto      A = uf.find(a), B = uf.find(b);
        Hierarchy::Node x;
        x.left    = top[A];
        x.right   = top[B];
        x.level   = double(w);
        x.members = h.nodes[x.left].members;
        x.members.insert(x.members.end(), h.nodes[x.right].members.begin(), h.nodes[x.right].members.end());
        h.nodes.push_back(x);
        uf.join(A, B);
        top[uf.find(A)] = h.root = int(h.nodes.size()) - 1;
    }
    return h;
}

struct Condensed {
    struct Node {
        std::vector<std::size_t> members;
        std::size_t              size0 = 0;
        double                   lambda_min = 0;
        double                   stability = 0, error = 0;  // absolute rounding allowance
        double                   best = 0, best_error = 0;
        int                      left = -1, right = -1;
    };
    std::vector<Node> nodes;
    double            eps;
    std::size_t       min_size;
    const Hierarchy&  h;
    std::size_t       splits = 0;
    std::size_t       ties   = 0;
    // powers of two as levels: densities and the sums of their differences are exact in float, ties are decided
    bool exact = true;

    Condensed(const Hierarchy& h_, std::size_t min_size_, double eps_) : eps(eps_), min_size(min_size_), h(h_) {
        for (const auto& n : h.nodes) {
            int e;
            exact = exact && n.members.size() <= 1024 && (n.level == 0 || (std::frexp(n.level, &e) == 0.5 && e >= -3 && e <= 5));
        }
        build(h.root, 0);
    }

    static double lambda(double level) { return level > 0 ? 1 / level : std::numeric_limits<double>::infinity(); }

    void add(Node& n, std::size_t size, double l) {
        if (l <= n.lambda_min) return;
        n.stability += double(size) * (l - n.lambda_min);
        n.error += std::isinf(l) || exact ? 0 : eps * double(size) * l * 8;
    }

    int build(int root, double lambda_min) {
        Node n;
        n.members    = h.nodes[root].members;
        n.size0      = n.members.size();
        n.lambda_min = lambda_min;
        for (int at = root;;) {
            const auto& s = h.nodes[at];
            if (s.left < 0) break;
            const double l  = lambda(s.level);
            const bool   ok_l = h.nodes[s.left].members.size() >= min_size, ok_r = h.nodes[s.right].members.size() >= min_size;
            if (ok_l && ok_r) {
                add(n, s.members.size(), l);
                ++splits;
                n.left  = build(s.left, l);
                n.right = build(s.right, l);
                break;
            }
            if (!ok_l && !ok_r) {
                add(n, s.members.size(), l);
                break;
            }
            add(n, h.nodes[ok_l ? s.right : s.left].members.size(), l);
            at = ok_l ? s.left : s.right;
        }
        n.best       = n.stability;
        n.best_error = n.error;
        if (n.left >= 0) {
            const double cs = nodes[n.left].best + nodes[n.right].best, ce = nodes[n.left].best_error + nodes[n.right].best_error;
            if (cs > n.best) n.best = cs;
            n.best_error = std::max(ce, n.error);
        }
        nodes.push_back(n);
        return int(nodes.size()) - 1;
    }

    template <typename L>
    void verify(pbt::Case& c, const L& labels, bool leaves, bool allow_single) {
        const std::size_t n = h.nodes[h.root].members.size();
        c.require(labels.size() == n, "labels-size", labels.size(), " labels for ", n, " samples");
        std::vector<std::size_t> want(n, 0);  // 0: noise, else a group number
        std::size_t              groups = 0, ambiguous = 0;
        visit(c, int(nodes.size()) - 1, true, labels, leaves, allow_single, want, groups, ambiguous);
        std::map<std::size_t, std::size_t> to;
        std::set<std::size_t>              used;
        for (std::size_t i = 0; i < n; ++i) {
            c.require((want[i] == 0) == (labels[i] == 0), "noise", "sample ", i, " has label ", labels[i], ", it should ", want[i] ? "belong to a cluster" : "be noise",
                      "; labels ", pbt::list_of(labels), " expected groups ", pbt::list_of(want));
            if (!want[i]) continue;
            auto it = to.emplace(want[i], labels[i]).first;
            c.require(it->second == std::size_t(labels[i]), "split", "samples of one cluster have labels ", it->second, " and ", labels[i], "; labels ",
                      pbt::list_of(labels), " expected groups ", pbt::list_of(want));
        }
        for (auto& [g, l] : to) c.require(used.insert(l).second, "merged", "two clusters share label ", l, "; labels ", pbt::list_of(labels), " expected groups ", pbt::list_of(want));
        for (auto l : used) c.require(l >= 1 && l <= groups, "consecutive", "label ", l, " for ", groups, " clusters");
        c.label(ambiguous ? "near-tie" : ties ? "exact-tie" : groups > 1 ? "several-clusters" : "one-cluster");
    }

    template <typename L>
    void visit(pbt::Case& c, int at, bool is_root, const L& labels, bool leaves, bool allow_single, std::vector<std::size_t>& want, std::size_t& groups,
               std::size_t& ambiguous) {
        const auto& n = nodes[at];
        bool        take;
        if (n.left < 0) {
            take = true;
        } else if (leaves || (is_root && !allow_single)) {
            take = false;
        } else {
            const double cs = nodes[n.left].best + nodes[n.right].best, tol = nodes[n.left].best_error + nodes[n.right].best_error + n.error;
            if (exact || std::isinf(cs) || std::isinf(n.stability)) {
                take = !(cs > n.stability);
                if (exact && cs == n.stability) ++ties;
            } else if (std::fabs(cs - n.stability) <= tol) {
                ++ambiguous;
                take = true;
                for (auto i : n.members) take = take && labels[i] == labels[n.members[0]] && labels[i] != 0;
            } else {
                take = cs < n.stability;
            }
        }
        if (take) {
            ++groups;
            for (auto i : n.members) want[i] = groups;
            return;
        }
        visit(c, n.left, false, labels, leaves, allow_single, want, groups, ambiguous);
        visit(c, n.right, false, labels, leaves, allow_single, want, groups, ambiguous);
    }
};

}  // namespace gen
