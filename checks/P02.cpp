// P02: k-nearest-neighbour queries return exactly the k nearest indexed samples, whatever the tree configuration.
#include "search_oracle.hpp"

namespace {
namespace fs_ = ffcl::search;
namespace fb  = ffcl::datastruct::bounds;

template <typename T, typename Idx>
void knn(pbt::Case& c, std::size_t max_n) {
    const std::size_t n = gen::count(c, 1, max_n);
    const std::size_t d = gen::dims(c, n, 11);
    auto              x = [&] {
        if constexpr (std::is_floating_point_v<T>) {
            return gen::data<T>(c, n, d);
        } else {
            return gen::integers<T>(c, n, d, 40);
        }
    }();
    auto             idx = gen::indices(c, n, 1);
    std::vector<Idx> ind(idx.begin(), idx.end());
    const auto       cfg = gen::tree_config(c, ind.size(), d);
    gen::describe(c, x);
    if (c.showing()) c.show() << "indices " << pbt::list_of(ind) << "\n" << cfg.text() << "\n";

    const double tol  = std::is_floating_point_v<T> ? gen::dist_tol(x) : 0;
    auto         tree = gen::build_tree<T, Idx>(ind, x, cfg);
    const bool   split = !tree.root()->is_leaf();
    auto         searcher = c.chance(1, 2) ? fs_::Searcher(std::move(tree)) : [&] {
        fs_::Searcher copy(tree);
        return copy;
    }();

    const std::size_t           n_queries = !gen::is_huge(n) && c.chance(1, 50) ? 1 + c.draw(70) : 1 + c.draw(6);
    std::vector<std::vector<T>> queries;
    std::vector<std::size_t>    ks;
    for (std::size_t q = 0; q < n_queries; ++q) {
        queries.push_back(gen::query_point(c, x));
        ks.push_back(c.chance(1, 8) ? std::numeric_limits<std::size_t>::max() : 1 + c.draw(std::min<std::size_t>(ind.size() + 2, 30)));
        if (c.showing()) c.show() << "query " << pbt::list_of(queries.back()) << " k=" << ks.back() << "\n";
    }
    auto expected = [&](const std::vector<T>& q) {
        std::vector<gen::Candidate> all;
        for (auto i : ind) all.push_back({static_cast<std::size_t>(i), gen::metric(x.row(i), q.data(), d), 1});
        return all;
    };
    using It = typename std::vector<T>::const_iterator;
    std::vector<fs_::buffer::Unsorted<It>> batch;
    for (std::size_t q = 0; q < n_queries; ++q) {
        c.nontrivial(split && ks[q] < ind.size());
        const auto& point = queries[q];
        // point given as a view, or owned by the bound
        if (ks[q] == std::numeric_limits<std::size_t>::max()) {
            auto r = searcher(fs_::buffer::Unsorted(point.cbegin(), point.cend()));
            gen::check_search_result(c, r, expected(point), ks[q], tol);
        } else {
            auto r = searcher(fs_::buffer::Unsorted(point.cbegin(), point.cend(), ks[q]));
            gen::check_search_result(c, r, expected(point), ks[q], tol);
        }
        if (c.chance(1, 3)) {
            auto r = searcher(fs_::buffer::Unsorted(fb::UnboundedBall<T>(std::vector<T>(point)), ks[q]));
            gen::check_search_result(c, r, expected(point), ks[q], tol);
        }
        batch.emplace_back(point.cbegin(), point.cend(), ks[q]);
    }
    if (c.chance(1, 3)) {
        c.label("batch");
        auto results = searcher(std::move(batch));
        c.require(results.size() == n_queries, "batch-size", results.size());
        for (std::size_t q = 0; q < n_queries; ++q) gen::check_search_result(c, results[q], expected(queries[q]), ks[q], tol);
    }
    c.label(x.mode);
}

LAW("knn-float", 50000, 1200000, [](pbt::Case& c) { knn<float, std::size_t>(c, 100); });
LAW("knn-double", 25000, 600000, [](pbt::Case& c) { knn<double, std::size_t>(c, 100); });
LAW("knn-int-indices", 12000, 300000, [](pbt::Case& c) { knn<float, int>(c, 60); });
LAW("knn-integer-samples", 12000, 300000, [](pbt::Case& c) { knn<int, std::size_t>(c, 60); });
LAW("knn-unsigned-samples", 12000, 300000, [](pbt::Case& c) { c.chance(1, 2) ? knn<unsigned, std::size_t>(c, 60) : knn<std::size_t, int>(c, 60); });
LAW("knn-large", 1200, 40000, [](pbt::Case& c) { knn<float, std::size_t>(c, 1500); });
LAW("knn-huge", 4, 200, [](pbt::Case& c) { c.chance(1, 3) ? knn<int, int>(c, gen::kHuge) : knn<float, std::size_t>(c, gen::kHuge); }, 120);

}  // namespace
