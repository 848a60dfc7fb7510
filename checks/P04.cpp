// P04: filtered searches: what the caller excluded (visited indices / own component) is never returned, and the result is
// still exactly the k nearest among the others.
#include "search_oracle.hpp"

#include "ffcl/datastruct/UnionFind.hpp"
#include "ffcl/datastruct/bounds/segment/LowerBoundAndUpperBound.hpp"

#include <unordered_set>

namespace {
namespace fs_ = ffcl::search;
namespace fb  = ffcl::datastruct::bounds;

template <typename T>
struct Setup {
    gen::Data<T>             x;
    std::vector<std::size_t> ind;
    gen::TreeConfig          cfg;
    double                   tol;
};

template <typename T>
Setup<T> setup(pbt::Case& c, std::size_t max_n) {
    Setup<T>          s;
    const std::size_t n = gen::count(c, 1, max_n);
    const std::size_t d = gen::dims(c, n, 6);
    s.x                 = gen::any_data<T>(c, n, d);
    s.ind               = gen::indices(c, n, 1);
    s.cfg               = gen::tree_config(c, s.ind.size(), d);
    s.tol               = gen::dist_tol(s.x);
    gen::describe(c, s.x);
    if (c.showing()) c.show() << "indices " << pbt::list_of(s.ind) << "\n" << s.cfg.text() << "\n";
    return s;
}

template <typename T>
std::vector<gen::Candidate> candidates(const Setup<T>& s, const std::vector<T>& q) {
    std::vector<gen::Candidate> all;
    for (auto i : s.ind) all.push_back({i, gen::metric(s.x.row(i), q.data(), s.x.d), 1});
    return all;
}

// radius that no distance is close to, or a huge one
template <typename T>
T gap_radius(pbt::Case& c, const std::vector<gen::Candidate>& all, double tol) {
    const double d0 = all[c.draw(all.size())].distance;
    double       next = std::numeric_limits<double>::infinity();
    for (auto& a : all)
        if (a.distance > d0 + 8 * tol) next = std::min(next, a.distance);
    if (std::isinf(next)) return static_cast<T>(2 * d0 + 1);
    return static_cast<T>((d0 + next) / 2);
}

template <typename T>
void with_memory(pbt::Case& c, std::size_t max_n) {
    auto       s        = setup<T>(c, max_n);
    auto       tree     = gen::build_tree<T, std::size_t>(s.ind, s.x, s.cfg);
    const bool split    = !tree.root()->is_leaf();
    auto       searcher = fs_::Searcher(std::move(tree));
    using It            = typename std::vector<T>::const_iterator;
    using VB            = fb::UnboundedBallView<It>;
    using Set           = std::unordered_set<std::size_t>;

    const std::size_t n_queries = 1 + c.draw(4);
    Set               visited;
    for (std::size_t q = 0; q < n_queries; ++q) {
        const auto point = gen::query_point(c, s.x);
        auto       all   = candidates(s, point);
        // exclude the nearest ones, or anything; the set survives from a query to the next
        if (c.chance(1, 3)) visited.clear();
        if (c.chance(1, 2)) {
            auto sorted = all;
            std::sort(sorted.begin(), sorted.end(), [](auto& a, auto& b) { return a.distance < b.distance; });
            const std::size_t m = c.draw(sorted.size() + 1);
            for (std::size_t i = 0; i < m; ++i) visited.insert(sorted[i].index);
        } else {
            if (gen::is_huge(s.x.n)) {
                gen::Stream r(c);
                for (std::size_t i = 0; i < s.x.n; ++i)
                    if (r.draw(4) == 0) visited.insert(i);
            } else {
                for (std::size_t i = 0; i < s.x.n + 2; ++i)
                    if (c.chance(1, 4)) visited.insert(i);
            }
        }
        for (auto& a : all)
            if (visited.count(a.index)) a.inside = -1;
        const bool        unlimited = c.chance(1, 4);
        const std::size_t k         = 1 + c.draw(std::min<std::size_t>(s.ind.size() + 2, 20));
        const std::size_t cap       = unlimited ? std::numeric_limits<std::size_t>::max() : k;
        c.nontrivial(split && !visited.empty() && visited.size() < s.ind.size());
        const int form = static_cast<int>(c.draw(6));
        if (c.showing())
            c.show() << "query " << pbt::list_of(point) << " visited " << pbt::list_of(std::set<std::size_t>(visited.begin(), visited.end()))
                     << " k=" << (unlimited ? std::string("unlimited") : std::to_string(k)) << " form " << form << "\n";
        auto check = [&](auto&& r) { gen::check_search_result(c, r, all, cap, s.tol); };
        switch (form) {
            case 0:
                c.label("memory-reference");
                if (unlimited)
                    check(searcher(fs_::buffer::WithMemory<It, VB>(point.cbegin(), point.cend(), visited)));
                else
                    check(searcher(fs_::buffer::WithMemory<It, VB>(point.cbegin(), point.cend(), visited, k)));
                break;
            case 1:
                c.label("memory-moved-set");
                if (unlimited)
                    check(searcher(fs_::buffer::WithMemory<It, VB>(point.cbegin(), point.cend(), Set(visited))));
                else
                    check(searcher(fs_::buffer::WithMemory<It, VB>(point.cbegin(), point.cend(), Set(visited), k)));
                break;
            case 2:
                c.label("memory-iterators");
                if (unlimited)
                    check(searcher(fs_::buffer::WithMemory<It, VB>(point.cbegin(), point.cend(), visited.begin(), visited.end())));
                else
                    check(searcher(fs_::buffer::WithMemory<It, VB>(point.cbegin(), point.cend(), visited.begin(), visited.end(), k)));
                break;
            case 3: {
                c.label("memory-owned-point");
                fs_::buffer::WithMemory<typename fb::UnboundedBall<T>::IteratorType, fb::UnboundedBall<T>> b(
                    fb::UnboundedBall<T>(std::vector<T>(point)), visited, cap);
                check(searcher(std::move(b)));
                break;
            }
            case 4: {
                c.label("memory-ball");
                const T radius = gap_radius<T>(c, all, s.tol);
                if (c.showing()) c.show() << "  radius " << radius << "\n";
                for (auto& a : all)
                    if (a.inside == 1 && !(a.distance < radius)) a.inside = -1;
                fs_::buffer::WithMemory<It, fb::BallView<It>> b(fb::BallView<It>(point.cbegin(), point.cend(), radius), visited, cap);
                check(searcher(std::move(b)));
                break;
            }
            default: {
                c.label("memory-none");
                for (auto& a : all) a.inside = 1;
                if (unlimited)
                    check(searcher(fs_::buffer::WithMemory<It, VB>(point.cbegin(), point.cend())));
                else
                    check(searcher(fs_::buffer::WithMemory<It, VB>(point.cbegin(), point.cend(), k)));
            }
        }
    }
}

// history: find the nearest unvisited sample again and again with a memory that grows: visits every sample exactly once,
// by non-decreasing distance
template <typename T>
void sweep(pbt::Case& c, std::size_t max_n) {
    auto s        = setup<T>(c, max_n);
    auto searcher = fs_::Searcher(gen::build_tree<T, std::size_t>(s.ind, s.x, s.cfg));
    using It      = typename std::vector<T>::const_iterator;
    using VB      = fb::UnboundedBallView<It>;
    const auto point = gen::query_point(c, s.x);
    if (c.showing()) c.show() << "query " << pbt::list_of(point) << "\n";
    const std::size_t               k = 1 + c.draw(4);
    std::unordered_set<std::size_t> visited;
    double                          previous = -1;
    while (visited.size() < s.ind.size()) {
        const auto r = searcher(fs_::buffer::WithMemory<It, VB>(point.cbegin(), point.cend(), visited, k));
        c.require(r.size() == std::min(k, s.ind.size() - visited.size()), "sweep-size", r.size(), " results, ", s.ind.size() - visited.size(),
                  " samples left");
        double low = std::numeric_limits<double>::infinity(), high = previous;
        for (std::size_t i = 0; i < r.size(); ++i) {
            c.require(visited.insert(r.indices()[i]).second, "sweep-again", "sample ", r.indices()[i], " returned although visited");
            low  = std::min(low, gen::metric(s.x.row(r.indices()[i]), point.data(), s.x.d));
            high = std::max(high, gen::metric(s.x.row(r.indices()[i]), point.data(), s.x.d));
        }
        c.require(low >= previous - s.tol, "sweep-order", "distance ", low, " after ", previous);
        previous = high;
    }
    c.nontrivial(s.ind.size() > 3);
}

template <typename T>
void with_union_find(pbt::Case& c, std::size_t max_n) {
    auto       s        = setup<T>(c, max_n);
    auto       tree     = gen::build_tree<T, std::size_t>(s.ind, s.x, s.cfg);
    const bool split    = !tree.root()->is_leaf();
    auto       searcher = fs_::Searcher(std::move(tree));
    using It            = typename std::vector<T>::const_iterator;
    using VB            = fb::UnboundedBallView<It>;

    const std::size_t                             n = s.x.n;
    ffcl::datastruct::UnionFind<std::size_t>      uf(n);
    gen::Labels                                   model(n);
    const std::size_t                             n_steps = 1 + c.draw(4);
    for (std::size_t step = 0; step < n_steps; ++step) {
        const std::size_t merges = c.draw(n);
        gen::Stream       huge(c);
        for (std::size_t m = 0; m < merges; ++m) {
            const std::size_t a = gen::is_huge(n) ? huge.draw(n) : c.draw(n), b = gen::is_huge(n) ? huge.draw(n) : c.draw(n);
            if (c.showing() && m < 1000) c.show() << "merge(" << a << "," << b << ") ";
            uf.merge(a, b);
            model.join(a, b);
        }
        const std::size_t who   = c.draw(n);
        const bool        self  = c.chance(1, 2);
        const auto        point = self ? std::vector<T>(s.x.row(who), s.x.row(who) + s.x.d) : gen::query_point(c, s.x);
        auto              all   = candidates(s, point);
        std::size_t       same  = 0;
        for (auto& a : all)
            if (model.find(a.index) == model.find(who)) a.inside = -1, ++same;
        const std::size_t rep       = c.chance(1, 2) ? who : uf.find(who);
        const bool        unlimited = c.chance(1, 4);
        const std::size_t k         = 1 + c.draw(std::min<std::size_t>(s.ind.size() + 2, 20));
        const std::size_t cap       = unlimited ? std::numeric_limits<std::size_t>::max() : k;
        c.nontrivial(split && same > 1 && same < s.ind.size());
        if (c.showing()) c.show() << "\nquery " << pbt::list_of(point) << " component of " << rep << " k=" << (unlimited ? 0 : k) << "\n";
        switch (c.draw(3)) {
            default:
                if (unlimited)
                    gen::check_search_result(c, searcher(fs_::buffer::WithUnionFind<It, VB>(point.cbegin(), point.cend(), uf, rep)), all, cap, s.tol);
                else
                    gen::check_search_result(c, searcher(fs_::buffer::WithUnionFind<It, VB>(point.cbegin(), point.cend(), uf, rep, k)), all, cap,
                                             s.tol);
                break;
            case 2: {
                const T radius = gap_radius<T>(c, all, s.tol);
                if (c.showing()) c.show() << "  radius " << radius << "\n";
                for (auto& a : all)
                    if (a.inside == 1 && !(a.distance < radius)) a.inside = -1;
                fs_::buffer::WithUnionFind<It, fb::BallView<It>> b(fb::BallView<It>(point.cbegin(), point.cend(), radius), uf, rep, cap);
                gen::check_search_result(c, searcher(std::move(b)), all, cap, s.tol);
            }
        }
    }
}

LAW("memory-float", 30000, 700000, [](pbt::Case& c) { with_memory<float>(c, 80); });
LAW("memory-double", 8000, 200000, [](pbt::Case& c) { with_memory<double>(c, 80); });
LAW("memory-integers", 6000, 150000, [](pbt::Case& c) { c.chance(1, 2) ? with_memory<int>(c, 60) : with_memory<unsigned>(c, 60); });
LAW("unionfind-integers", 6000, 150000, [](pbt::Case& c) { c.chance(1, 2) ? with_union_find<int>(c, 60) : with_union_find<unsigned>(c, 60); });
LAW("memory-sweep", 3000, 80000, [](pbt::Case& c) { sweep<float>(c, 60); });
LAW("unionfind-float", 25000, 600000, [](pbt::Case& c) { with_union_find<float>(c, 80); });
LAW("unionfind-double", 6000, 150000, [](pbt::Case& c) { with_union_find<double>(c, 80); });
LAW("unionfind-large", 500, 12000, [](pbt::Case& c) { with_union_find<float>(c, 1200); });
LAW("filter-large", 500, 12000, [](pbt::Case& c) { with_memory<float>(c, 1200); });
LAW("filter-huge", 4, 200, [](pbt::Case& c) { c.chance(1, 2) ? with_memory<float>(c, gen::kHuge) : with_union_find<float>(c, gen::kHuge); }, 120);

}  // namespace
