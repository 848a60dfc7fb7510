// P03: bounded searches (open ball, closed box) return exactly the qualifying samples, or the k nearest of them.
#include "search_oracle.hpp"

#include "ffcl/datastruct/bounds/segment/LowerBoundAndLength.hpp"
#include "ffcl/datastruct/bounds/segment/LowerBoundAndUpperBound.hpp"

#include <array>

namespace {
namespace fs_ = ffcl::search;
namespace fb  = ffcl::datastruct::bounds;
namespace fg  = ffcl::datastruct::bounds::segment;

constexpr std::size_t NO_K = 0;

// calls f(buffer) with a buffer made of the bound, with or without a capacity
template <typename Searcher, typename Bound>
auto run(const Searcher& s, Bound&& b, std::size_t k) {
    using B = std::decay_t<Bound>;
    if (k == NO_K) return s(fs_::buffer::Unsorted(B(std::forward<Bound>(b))));
    return s(fs_::buffer::Unsorted(B(std::forward<Bound>(b)), k));
}

template <typename T>
gen::Data<T> make(pbt::Case& c, std::size_t n, std::size_t d) {
    if constexpr (std::is_floating_point_v<T>) {
        return gen::data<T>(c, n, d);
    } else {
        return gen::integers<T>(c, n, d, 30);
    }
}

template <typename T>
void bounded(pbt::Case& c, std::size_t max_n) {
    const std::size_t n   = gen::count(c, 1, max_n);
    const std::size_t d   = gen::dims(c, n, 6);
    auto              x   = make<T>(c, n, d);
    auto              ind = gen::indices(c, n, 1);
    const auto        cfg = gen::tree_config(c, ind.size(), d);
    gen::describe(c, x);
    if (c.showing()) c.show() << "indices " << pbt::list_of(ind) << "\n" << cfg.text() << "\n";
    const double tol      = std::is_floating_point_v<T> ? gen::dist_tol(x) : 0;
    auto         tree     = gen::build_tree<T, std::size_t>(ind, x, cfg);
    const bool   split    = !tree.root()->is_leaf();
    auto         searcher = fs_::Searcher(std::move(tree));

    const std::size_t n_queries = 1 + c.draw(5);
    for (std::size_t q = 0; q < n_queries; ++q) {
        const auto        point = gen::query_point(c, x);
        const std::size_t k     = c.chance(1, 2) ? NO_K : 1 + c.draw(std::min<std::size_t>(ind.size() + 2, 20));
        const std::size_t cap   = k == NO_K ? std::numeric_limits<std::size_t>::max() : k;
        std::vector<gen::Candidate> all;
        for (auto i : ind) all.push_back({i, gen::metric(x.row(i), point.data(), d), -1});

        if (c.chance(1, 2)) {
            // ball: radius equal to the distance of a sample (boundary), or arbitrary
            double r;
            switch (c.draw(3)) {
                case 0: r = all[c.draw(all.size())].distance; break;
                case 1: r = static_cast<double>(c.draw(16)) * (x.exact ? x.step : x.span / 16); break;
                default: r = all[c.draw(all.size())].distance + static_cast<double>(c.symmetric(2)) * (x.exact ? x.step : x.span / 256);
            }
            const T radius = static_cast<T>(std::max(0.0, r));
            if (c.showing()) c.show() << "ball center " << pbt::list_of(point) << " radius " << radius << " k=" << k << "\n";
            std::size_t in = 0;
            for (auto& a : all) {
                if constexpr (std::is_floating_point_v<T>) {
                    // integral or dyadic radius on exact data: squared comparison is exact; a perfect square root is exact too
                    const double rr = radius;
                    const double d2 = gen::dist2(x.row(a.index), point.data(), d);
                    const double s  = std::sqrt(d2);
                    if (x.exact && (s * s == d2 && static_cast<double>(static_cast<T>(s)) == s))
                        a.inside = s < rr ? 1 : -1;
                    else
                        a.inside = a.distance < rr - tol ? 1 : a.distance > rr + tol ? -1 : 0;
                } else {
                    a.inside = a.distance < double(radius) ? 1 : -1;
                }
                in += a.inside == 1;
            }
            c.nontrivial(split && in > 0 && in < ind.size());
            c.label(in == 0 ? "ball-none" : in == ind.size() ? "ball-all" : "ball-some");
            using It = typename std::vector<T>::const_iterator;
            if (d == 2 && c.chance(1, 4))
                gen::check_search_result(c, run(searcher, fb::Ball<T, 2>(std::array<T, 2>{point[0], point[1]}, radius), k), all, cap, tol);
            else if (c.chance(1, 2))
                gen::check_search_result(c, run(searcher, fb::Ball<T>(std::vector<T>(point), radius), k), all, cap, tol);
            else
                gen::check_search_result(c, run(searcher, fb::BallView<It>(point.cbegin(), point.cend(), radius), k), all, cap, tol);
        } else {
            // box: corners on sample coordinates (closed), or arbitrary; centroid in the middle or given
            std::vector<std::pair<T, T>> box;
            for (std::size_t f = 0; f < d; ++f) {
                auto corner = [&]() -> T {
                    if (c.chance(1, 3)) return gen::clamped<T>(c.symmetric(16) * (x.exact ? x.step : x.span / 16));
                    return x.row(c.draw(n))[f];
                };
                T a = corner(), b = corner();
                if (b < a) std::swap(a, b);
                box.emplace_back(a, b);
            }
            const bool lengths = c.chance(1, 3), own_centroid = c.chance(1, 3);
            std::size_t in = 0;
            std::vector<T> center(d);
            std::vector<fg::LowerBoundAndUpperBound<T>> up;
            std::vector<fg::LowerBoundAndLength<T>>     len;
            for (std::size_t f = 0; f < d; ++f) {
                const T extra = std::is_integral_v<T> ? 1 : 0;  // an integer length counts the values covered
                const T length = static_cast<T>(box[f].second - box[f].first + extra);
                if (lengths && std::is_floating_point_v<T>) box[f].second = static_cast<T>(box[f].first + length);
                up.emplace_back(box[f].first, box[f].second);
                len.emplace_back(box[f].first, length);
            }
            if (c.showing()) {
                c.show() << "box";
                for (auto& b : box) c.show() << " [" << b.first << "," << b.second << "]";
                c.show() << (lengths ? " as lengths" : "") << (own_centroid ? " query " + pbt::list_of(point) : " centroid") << " k=" << k << "\n";
            }
            auto check = [&](auto&& segments) {
                using Seg  = typename std::decay_t<decltype(segments)>::value_type;
                auto bound = own_centroid ? fb::AABBWithCentroid<Seg>(std::vector<T>(point), std::vector<Seg>(segments))
                                          : fb::AABBWithCentroid<Seg>(std::vector<Seg>(segments));
                if (own_centroid)
                    center = point;
                else
                    for (std::size_t f = 0; f < d; ++f) {
                        center[f] = bound.centroid_at(f);
                        const double mid = (double(box[f].first) + double(box[f].second)) / 2;
                        c.require(std::is_integral_v<T> ? std::fabs(double(center[f]) - mid) <= 1 : pbt::close(center[f], mid, 1e-5, 1e-5 * x.span),
                                  "centroid", "feature ", f, " centroid ", double(center[f]), " of a box centered on ", mid);
                    }
                for (auto& a : all) {
                    a.distance = gen::metric(x.row(a.index), center.data(), d);
                    a.inside   = 1;
                    for (std::size_t f = 0; f < d; ++f)
                        if (x.row(a.index)[f] < box[f].first || x.row(a.index)[f] > box[f].second) a.inside = -1;
                    in += a.inside == 1;
                }
                if (d == 2 && c.chance(1, 4)) {  // the number of features known at compile time
                    using Fixed = fb::AABBWithCentroid<Seg, 2>;
                    const std::array<Seg, 2> pair{segments[0], segments[1]};
                    const std::array<T, 2>   middle{center[0], center[1]};
                    gen::check_search_result(c, run(searcher, own_centroid ? Fixed(middle, pair) : Fixed(pair), k), all, cap, tol);
                } else {
                    gen::check_search_result(c, run(searcher, std::move(bound), k), all, cap, tol);
                }
            };
            if (lengths)
                check(len);
            else
                check(up);
            c.nontrivial(split && in > 0 && in < ind.size());
            c.label(in == 0 ? "box-none" : in == ind.size() ? "box-all" : "box-some");
        }
    }
}

LAW("bounded-float", 40000, 1000000, [](pbt::Case& c) { bounded<float>(c, 80); });
LAW("bounded-double", 15000, 400000, [](pbt::Case& c) { bounded<double>(c, 80); });
LAW("bounded-unsigned", 10000, 200000, [](pbt::Case& c) { bounded<unsigned>(c, 60); });
LAW("bounded-int", 10000, 200000, [](pbt::Case& c) { bounded<int>(c, 60); });
LAW("bounded-large", 800, 25000, [](pbt::Case& c) { bounded<float>(c, 1500); });
LAW("bounded-huge", 4, 200, [](pbt::Case& c) { c.chance(1, 3) ? bounded<int>(c, gen::kHuge) : bounded<float>(c, gen::kHuge); }, 120);

}  // namespace
