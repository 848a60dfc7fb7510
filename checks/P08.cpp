// P08: union-find against a reference partition, over histories of merges and finds.
#include "gen.hpp"

#include "ffcl/datastruct/UnionFind.hpp"

#include <memory>

namespace {

template <typename Index>
void history(pbt::Case& c, std::size_t max_n, bool from_labels) {
    using UF            = ffcl::datastruct::UnionFind<Index>;
    const std::size_t n = gen::count(c, 1, max_n);
    std::vector<std::size_t> model = gen::iota(n);  // class label per element
    std::unique_ptr<Index[]> labels;
    if (from_labels) {
        // a forest given by the caller: every element points to itself or to a smaller element (any depth)
        labels = std::make_unique<Index[]>(n);
        for (std::size_t i = 0; i < n; ++i) {
            std::size_t p = i;
            if (i && c.chance(2, 3)) p = c.draw(i);
            labels[i] = static_cast<Index>(p);
            model[i]  = p == i ? i : model[p];
        }
        if (c.showing()) c.show() << "parents " << pbt::list_of(labels.get(), labels.get() + n) << "\n";
    }
    UF uf = from_labels ? UF(n, std::move(labels)) : UF(n);
    if (c.showing()) c.show() << "n=" << n << ":";

    auto verify = [&](const char* when) {
        std::map<std::size_t, Index> rep;
        for (std::size_t i = 0; i < n; ++i) {
            const Index r = uf.find(static_cast<Index>(i));
            c.require(static_cast<std::size_t>(r) < n, "find-range", when, ": find(", i, ") = ", +r);
            c.require(uf.find(r) == r, "find-idempotent", when, ": find(find(", i, ")) != find(", i, ")");
            c.require(model[static_cast<std::size_t>(r)] == model[i], "find-member", when, ": find(", i, ") = ", +r, " is not in the set of ", i);
            auto it = rep.emplace(model[i], r).first;
            c.require(it->second == r, "find-unique", when, ": two representatives ", +it->second, " and ", +r, " in one set");
        }
        std::set<Index> distinct;
        for (auto& [k, v] : rep) distinct.insert(v);
        c.require(distinct.size() == rep.size(), "find-distinct", when, ": two sets share a representative");
    };
    verify("initially");

    const std::size_t ops = c.draw(3 * n + 4);
    std::size_t       merged = 0;
    for (std::size_t o = 0; o < ops; ++o) {
        const std::size_t a = c.draw(n), b = c.draw(n);
        switch (c.draw(5)) {
            case 4: {
                if (c.showing()) c.show() << " find(" << a << ")";
                const Index r = uf.find(static_cast<Index>(a));
                c.require(model[static_cast<std::size_t>(r)] == model[a], "find-member", "find(", a, ") = ", +r);
                const bool same = uf.find(static_cast<Index>(a)) == uf.find(static_cast<Index>(b));
                c.require(same == (model[a] == model[b]), "same-set", a, " and ", b, " same set: ", same);
                break;
            }
            default: {
                if (c.showing()) c.show() << " merge(" << a << "," << b << ")";
                const std::size_t la = model[a], lb = model[b];
                const Index       r = uf.merge(static_cast<Index>(a), static_cast<Index>(b));
                merged += la != lb;
                for (auto& l : model)
                    if (l == lb) l = la;
                c.require(static_cast<std::size_t>(r) < n && model[static_cast<std::size_t>(r)] == la, "merge-return", "merge(", a, ",", b, ") returned ", +r,
                          ", not a member of the union");
                c.require(uf.find(static_cast<Index>(a)) == r && uf.find(static_cast<Index>(b)) == r, "merge-representative", "merge(", a, ",", b,
                          ") returned ", +r, " which is not the representative");
            }
        }
        if (c.chance(1, 6)) verify("during");
    }
    verify("finally");
    c.nontrivial(merged > 2);
}

// more elements than a 16 bit number can count
template <typename Index>
void huge(pbt::Case& c) {
    const std::size_t n = gen::count(c, 1, gen::kHuge);
    gen::Labels       model(n);
    gen::Stream       s(c);
    ffcl::datastruct::UnionFind<Index> uf(n);
    const bool chain = c.chance(1, 3);
    const std::size_t ops = chain ? n - 1 : 1 + c.draw(2 * n);
    if (c.showing()) c.show() << "n=" << n << (chain ? " merges of neighbors" : " random merges") << ", " << ops << " operations\n";
    auto verify = [&] {
        std::vector<std::size_t> rep(n, n), owner(n, n);
        for (std::size_t i = 0; i < n; ++i) {
            const auto r = static_cast<std::size_t>(uf.find(static_cast<Index>(i)));
            const auto m = model.find(i);
            c.require(r < n, "find-range", "find(", i, ") = ", r);
            if (rep[m] == n) rep[m] = r;
            if (owner[r] == n) owner[r] = m;
            c.require(rep[m] == r, "find-unique", "two representatives ", rep[m], " and ", r, " in one set");
            c.require(owner[r] == m, "find-distinct", "two sets share the representative ", r);
            c.require(model.find(r) == m, "find-member", "find(", i, ") = ", r, " is not in the set of ", i);
        }
    };
    for (std::size_t o = 0; o < ops; ++o) {
        const std::size_t a = chain ? (o % 2 ? o : n - 2 - o) % (n - 1) : s.draw(n), b = chain ? a + 1 : s.draw(n);
        const bool        same = uf.find(static_cast<Index>(a)) == uf.find(static_cast<Index>(b));
        c.require(same == (model.find(a) == model.find(b)), "same-set", a, " and ", b, " same set: ", same);
        const auto r = uf.merge(static_cast<Index>(a), static_cast<Index>(b));
        model.join(a, b);
        c.require(static_cast<std::size_t>(r) < n && model.find(static_cast<std::size_t>(r)) == model.find(a), "merge-return", "merge(", a, ",", b, ") returned ", +r);
        if (o % (ops / 3 + 1) == ops / 3) verify();
    }
    verify();
    c.nontrivial(ops > 2);
}

LAW("history-huge", 12, 400, [](pbt::Case& c) { c.chance(1, 2) ? huge<std::size_t>(c) : huge<int>(c); }, 120);
LAW("history", 60000, 2000000, [](pbt::Case& c) { history<std::size_t>(c, 24, false); });
LAW("history-int", 15000, 500000, [](pbt::Case& c) { history<int>(c, 24, false); });
LAW("history-u8", 10000, 300000, [](pbt::Case& c) { history<std::uint8_t>(c, 24, false); });
LAW("history-labels", 30000, 1000000, [](pbt::Case& c) { history<std::size_t>(c, 24, true); });
LAW("history-large", 60, 1500, [](pbt::Case& c) { history<std::size_t>(c, 1500, c.chance(1, 3)); });
LAW("history-u8-full", 1500, 30000, [](pbt::Case& c) { history<std::uint8_t>(c, 255, c.chance(1, 3)); });
LAW("history-long", 3000, 80000, [](pbt::Case& c) { history<std::size_t>(c, 200, false); });

}  // namespace
