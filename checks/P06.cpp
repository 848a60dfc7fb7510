// P06: bounding volumes: containment, centroid, diameter, tight boxes and minimum distances are geometrically right.
#include "search_oracle.hpp"

#include "ffcl/datastruct/Interval.hpp"
#include "ffcl/datastruct/bounds/distances/MinDistance.hpp"
#include "ffcl/datastruct/bounds/segment/LowerBoundAndLength.hpp"
#include "ffcl/datastruct/bounds/segment/LowerBoundAndUpperBound.hpp"
#include "ffcl/datastruct/bounds/segment/distances/MinDistance.hpp"

#include <array>

namespace {
namespace fb = ffcl::datastruct::bounds;
namespace fg = ffcl::datastruct::bounds::segment;
namespace fd = ffcl::datastruct;

template <typename T>
T value(pbt::Case& c, double step) {
    return static_cast<T>((static_cast<double>(c.symmetric(24)) + (std::is_unsigned_v<T> ? 26 : 0)) * step);
}
template <typename T>
double draw_step(pbt::Case& c) {
    static const std::vector<double> steps = {1, 0.5, 0.25, 8};
    return std::is_integral_v<T> ? 1 : c.pick(steps);
}

// --- segments -------------------------------------------------------------------------------------------------------
template <typename T>
void segments(pbt::Case& c) {
    const double step = draw_step<T>(c);
    const T      one  = std::is_integral_v<T> ? 1 : 0;
    auto         interval = [&] {
        T a = value<T>(c, step), b = value<T>(c, step);
        if (b < a) std::swap(a, b);
        return std::pair<T, T>(a, b);
    };
    // model: an interval [lo, hi]; operations through both representations
    auto [lo, hi] = interval();
    fg::LowerBoundAndUpperBound<T> u(lo, hi);
    fg::LowerBoundAndLength<T>     l(lo, static_cast<T>(hi - lo + one));  // integer lengths count the covered values
    if (c.showing()) c.show() << "segment [" << lo << "," << hi << "]";
    const std::size_t n_ops = c.draw(5);
    auto              verify = [&] {
        c.require(u.lower_bound() == lo && u.upper_bound() == hi, "bounds", "upper-bound representation [", +u.lower_bound(), ",", +u.upper_bound(),
                  "] instead of [", +lo, ",", +hi, "]");
        c.require(l.lower_bound() == lo && l.upper_bound() == static_cast<T>(hi + one), "bounds-length", "length representation [", +l.lower_bound(),
                  ",", +l.upper_bound(), "] instead of [", +lo, ",", +(hi + one), "]");
        for (int k = -26; k <= 26; ++k) {
            const T    v  = static_cast<T>((k + (std::is_unsigned_v<T> ? 26 : 0)) * step);
            const bool in = lo <= v && v <= hi;
            c.require(u.contains_value(v) == in, "contains", +v, " in [", +lo, ",", +hi, "]: ", u.contains_value(v));
            c.require(l.contains_value(v) == in, "contains-length", +v, " in [", +lo, ",", +hi, "] as length: ", l.contains_value(v));
        }
        const double mid = (double(lo) + double(hi)) / 2;
        for (double ctr : {double(u.centroid()), double(l.centroid())}) {
            if (std::is_integral_v<T>)
                c.require(ctr == std::floor(mid), "centroid", "centroid ", ctr, " of [", +lo, ",", +hi, "]");
            else
                c.require(ctr == mid, "centroid", "centroid ", ctr, " of [", +lo, ",", +hi, "]");
        }
        if (!std::is_integral_v<T>) {
            c.require(double(u.centroid_to_bound_distance()) == (double(hi) - double(lo)) / 2, "half", "half length ",
                      double(u.centroid_to_bound_distance()));
            c.require(double(l.centroid_to_bound_distance()) == (double(hi) - double(lo)) / 2, "half-length", "half length ",
                      double(l.centroid_to_bound_distance()));
        }
    };
    verify();
    for (std::size_t i = 0; i < n_ops; ++i) {
        const T v = value<T>(c, step);
        if (c.chance(1, 2)) {
            if (v > hi) continue;
            lo = v;
            if (c.showing()) c.show() << " lower:=" << v;
            u.update_lower_bound(v);
            l.update_lower_bound(v);
        } else {
            if (v < lo) continue;
            hi = v;
            if (c.showing()) c.show() << " upper:=" << v;
            u.update_upper_bound(v);
            l.update_upper_bound(static_cast<T>(v + one));
        }
        c.nontrivial();
        verify();
    }
    auto [a, b] = interval();
    fg::LowerBoundAndUpperBound<T> w(a, b);
    const double                   expected = std::max(0.0, std::max(double(a) - double(hi), double(lo) - double(b)));
    if (c.showing()) c.show() << "\nagainst [" << a << "," << b << "]\n";
    c.require(double(fb::min_distance(u, w)) == expected, "segment-distance", double(fb::min_distance(u, w)), " instead of ", expected);
    c.require(double(fb::min_distance(w, u)) == expected, "segment-distance-symmetry", double(fb::min_distance(w, u)), " instead of ", expected);
    if (!std::is_integral_v<T>)
        c.require(double(fb::min_distance(l, w)) == expected, "segment-distance-length", double(fb::min_distance(l, w)), " instead of ", expected);
}

// --- boxes and balls --------------------------------------------------------------------------------------------------
template <typename T>
struct BoxModel {
    std::vector<T> lo, hi;
};

template <typename T>
BoxModel<T> draw_box(pbt::Case& c, std::size_t d, double step) {
    BoxModel<T> b;
    for (std::size_t f = 0; f < d; ++f) {
        T x = value<T>(c, step), y = value<T>(c, step);
        if (c.chance(1, 6)) y = x;
        if (y < x) std::swap(x, y);
        b.lo.push_back(x), b.hi.push_back(y);
    }
    return b;
}

template <typename T>
double rel() {
    return 16 * static_cast<double>(std::is_integral_v<T> ? std::numeric_limits<double>::epsilon() : std::numeric_limits<T>::epsilon());
}

// the features of a bound: as many as the vector has (N = 0) or fixed at compile time
template <typename V, std::size_t... I>
auto fixed(const std::vector<V>& v, std::index_sequence<I...>) {
    return std::array<V, sizeof...(I)>{v[I]...};
}
template <std::size_t N, typename V>
auto stored(const std::vector<V>& v) {
    if constexpr (N == 0)
        return v;
    else
        return fixed(v, std::make_index_sequence<N>{});
}

template <typename T, std::size_t N>
void boxes(pbt::Case& c) {
    using Seg                = fg::LowerBoundAndUpperBound<T>;
    using Len                = fg::LowerBoundAndLength<T>;
    const std::size_t d      = N ? N : gen::features(c, 6);
    const double      step   = draw_step<T>(c);
    const T           whole  = std::is_integral_v<T> ? 1 : 0;  // integer lengths count the covered values
    auto              middle = [](T lo, T hi) { return std::is_integral_v<T> ? std::floor((double(lo) + double(hi)) / 2) : (double(lo) + double(hi)) / 2; };
    const auto        a      = draw_box<T>(c, d, step), b = draw_box<T>(c, d, step);
    auto              to_seg = [&](const BoxModel<T>& m) {
        std::vector<Seg> s;
        for (std::size_t f = 0; f < d; ++f) s.emplace_back(m.lo[f], m.hi[f]);
        return s;
    };
    auto to_len = [&](const BoxModel<T>& m) {
        std::vector<Len> s;
        for (std::size_t f = 0; f < d; ++f) s.emplace_back(m.lo[f], static_cast<T>(m.hi[f] - m.lo[f] + whole));
        return s;
    };
    if (c.showing())
        c.show() << "box A lo=" << pbt::list_of(a.lo) << " hi=" << pbt::list_of(a.hi) << " box B lo=" << pbt::list_of(b.lo) << " hi=" << pbt::list_of(b.hi)
                 << "\n";
    const auto                   sa = stored<N>(to_seg(a)), sb = stored<N>(to_seg(b));
    const auto                   la = stored<N>(to_len(a)), lb = stored<N>(to_len(b));
    fb::AABB<Seg, N>             A(sa), B(sb);
    fb::AABBWithCentroid<Seg, N> CA(sa), CB(sb);
    fb::AABBWithCentroid<Len, N> LA(la), LB(lb);
    // minimum distance and diameter
    double sep2 = 0, diag2 = 0, half = 0;
    for (std::size_t f = 0; f < d; ++f) {
        const double g = std::max(0.0, std::max(double(b.lo[f]) - double(a.hi[f]), double(a.lo[f]) - double(b.hi[f])));
        sep2 += g * g;
        const double e = double(a.hi[f]) - double(a.lo[f]);
        diag2 += e * e;
        half = std::max(half, e / 2);
    }
    auto near_ = [&](double got, double want, const char* what) { c.require(pbt::close(got, want, rel<T>(), 0), what, got, " instead of ", want); };
    near_(fb::min_distance(A, B), std::sqrt(sep2), "box-distance");
    near_(fb::min_distance(B, A), std::sqrt(sep2), "box-distance-symmetry");
    near_(fb::min_distance(CA, CB), std::sqrt(sep2), "centroid-box-distance");
    near_(fb::min_distance(CB, CA), std::sqrt(sep2), "centroid-box-distance-symmetry");
    if (!whole) near_(fb::min_distance(LA, LB), std::sqrt(sep2), "length-box-distance");
    near_(A.diameter(), std::sqrt(diag2), "diameter");
    near_(CA.diameter(), std::sqrt(diag2), "diameter-centroid");
    if (!whole) {
        near_(LA.diameter(), std::sqrt(diag2), "diameter-length");
        near_(CA.centroid_to_furthest_bound_distance(), half, "furthest-bound");
        near_(LA.centroid_to_furthest_bound_distance(), half, "furthest-bound-length");
    }
    c.require(A.n_features() == d && CA.n_features() == d, "n-features", A.n_features(), "/", CA.n_features());
    for (std::size_t f = 0; f < d; ++f) {
        if (!whole) near_(CA.centroid_to_bound_distance(f), (double(a.hi[f]) - double(a.lo[f])) / 2, "axis-bound");
        near_(CA.centroid()[f], middle(a.lo[f], a.hi[f]), "centroid");
        near_(A.centroid_at(f), middle(a.lo[f], a.hi[f]), "centroid-aabb");
    }
    // membership of points on corners, faces, inside, outside
    const std::size_t n_points = 1 + c.draw(5);
    for (std::size_t i = 0; i < n_points; ++i) {
        std::vector<T> p(d);
        bool           in = true;
        for (std::size_t f = 0; f < d; ++f) {
            switch (c.draw(4)) {
                case 0: p[f] = a.lo[f]; break;
                case 1: p[f] = a.hi[f]; break;
                case 2: p[f] = static_cast<T>((double(a.lo[f]) + double(a.hi[f])) / 2); break;
                default: p[f] = value<T>(c, step);
            }
            in = in && a.lo[f] <= p[f] && p[f] <= a.hi[f];
        }
        c.label(in ? "point-in" : "point-out");
        c.nontrivial(d > 1);
        c.require(A.is_in_bounds(p.begin(), p.end()) == in, "is-in", pbt::list_of(p), " in box A: ", !in);
        c.require(CA.is_in_bounds(p.begin(), p.end()) == in, "is-in-centroid", pbt::list_of(p), " in box A: ", !in);
        c.require(LA.is_in_bounds(p.begin(), p.end()) == in, "is-in-length", pbt::list_of(p), " in box A: ", !in);
        std::vector<T> ctr(d);
        for (std::size_t f = 0; f < d; ++f) ctr[f] = static_cast<T>(middle(a.lo[f], a.hi[f]));
        const double dist = gen::metric(p.data(), ctr.data(), d);
        near_(CA.distance_to_centroid(p.begin(), p.end()), dist, "distance-to-centroid");
        auto o = CA.compute_distance_to_centroid_if_within_bounds(p.begin(), p.end());
        c.require(o.has_value() == in, "optional", pbt::list_of(p), " within A gave a distance: ", o.has_value());
        if (o) near_(*o, dist, "optional-distance");
        // no point of B is closer to a point of A than the minimum distance
        std::vector<T> q(d);
        for (std::size_t f = 0; f < d; ++f) q[f] = c.chance(1, 2) ? b.lo[f] : b.hi[f];
        if (in)
            c.require(double(fb::min_distance(A, B)) <= gen::dist(p.data(), q.data(), d) * (1 + rel<T>()) + 1e-9, "lower-bound", "min distance ",
                      double(fb::min_distance(A, B)), " greater than the distance of two members");
    }
}

template <typename T, std::size_t N>
void balls(pbt::Case& c) {
    const std::size_t d    = N ? N : gen::features(c, 6);
    const double      step = draw_step<T>(c);
    std::vector<T>    p(d), q(d);
    for (auto& v : p) v = value<T>(c, step);
    for (auto& v : q) v = c.chance(1, 4) ? p[&v - q.data()] : value<T>(c, step);
    const double dist = gen::metric(p.data(), q.data(), d);
    const T      r1 = static_cast<T>(c.draw(20) * step), r2 = static_cast<T>(c.draw(20) * step);
    if (c.showing()) c.show() << "ball " << pbt::list_of(p) << " r=" << r1 << " ball " << pbt::list_of(q) << " r=" << r2 << "\n";
    using It = typename std::vector<T>::const_iterator;
    fb::Ball<T, N>   B1(stored<N>(p), r1), B2(stored<N>(q), r2);
    fb::BallView<It> V1(p.cbegin(), p.cend(), r1), V2(q.cbegin(), q.cend(), r2);
    fb::UnboundedBall<T, N>   U1(stored<N>(p));
    fb::UnboundedBallView<It> UV(p.cbegin(), p.cend());
    const double tol  = std::is_integral_v<T> ? 0 : rel<T>() * (dist + 40 * step);
    const double want = std::max(0.0, dist - double(r1) - double(r2));
    c.nontrivial(want > 0);
    c.require(pbt::close(fb::min_distance(B1, B2), want, 0, tol), "ball-distance", double(fb::min_distance(B1, B2)), " instead of ", want);
    c.require(pbt::close(fb::min_distance(B2, B1), want, 0, tol), "ball-distance", double(fb::min_distance(B2, B1)), " instead of ", want);
    c.require(pbt::close(fb::min_distance(V1, V2), want, 0, tol), "view-distance", double(fb::min_distance(V1, V2)), " instead of ", want);
    c.require(fb::min_distance(U1, U1) == 0 && fb::min_distance(UV, UV) == 0, "unbounded-distance", "not zero");
    c.require(double(B1.diameter()) == 2 * double(r1) && double(V1.diameter()) == 2 * double(r1), "ball-diameter", double(B1.diameter()));
    c.require(B1.n_features() == d && V1.n_features() == d && U1.n_features() == d && UV.n_features() == d, "n-features", B1.n_features());
    c.require(B1.centroid_to_furthest_bound_distance() == r1 && V1.centroid_to_furthest_bound_distance() == r1, "ball-radius", "radius");
    c.require(std::equal(p.begin(), p.end(), B1.centroid_begin()) && std::equal(p.begin(), p.end(), V1.centroid_begin()), "ball-centroid", "centroid");
    // strict membership
    const double s       = dist;
    const bool   perfect = std::is_integral_v<T> || (s * s == gen::dist2(p.data(), q.data(), d) && double(T(s)) == s);
    auto         member  = [&](auto& ball, const char* tag) {
        const bool in = ball.is_in_bounds(q.begin(), q.end());
        if (perfect || std::fabs(dist - double(r1)) > tol)
            c.require(in == (dist < double(r1)), tag, "distance ", dist, " radius ", double(r1), " inside: ", in);
        auto o = ball.compute_distance_to_centroid_if_within_bounds(q.begin(), q.end());
        c.require(o.has_value() == in, tag, "is_in_bounds and the optional distance disagree");
        if (o) c.require(pbt::close(*o, dist, 0, tol), tag, "distance ", double(*o), " instead of ", dist);
        c.require(pbt::close(ball.distance_to_centroid(q.begin(), q.end()), dist, 0, tol), tag, "distance to centroid");
        c.label(in ? "ball-in" : "ball-out");
    };
    member(B1, "ball-membership");
    member(V1, "view-membership");
    c.require(U1.is_in_bounds(q.begin(), q.end()) && UV.is_in_bounds(q.begin(), q.end()), "unbounded-membership", "false");
    auto o1 = U1.compute_distance_to_centroid_if_within_bounds(q.begin(), q.end());
    auto o2 = UV.compute_distance_to_centroid_if_within_bounds(q.begin(), q.end());
    c.require(o1 && o2 && pbt::close(*o1, dist, 0, tol) && pbt::close(*o2, dist, 0, tol), "unbounded-distance", "wrong distance to an unbounded ball");
}

// --- tight bounds -----------------------------------------------------------------------------------------------------
template <typename T>
void tight(pbt::Case& c) {
    const std::size_t n = gen::count(c, 1, 40), d = gen::features(c, 6);
    gen::Data<T>      x;
    if constexpr (std::is_floating_point_v<T>) {
        x = gen::data<T>(c, n, d);
    } else {
        x.n = n, x.d = d, x.mode = "integers";
        x.v.resize(n * d);
        for (auto& v : x.v) v = static_cast<T>(c.symmetric(30) + (std::is_unsigned_v<T> ? 30 : 0));
    }
    gen::describe(c, x);
    const auto ind = gen::indices(c, n, 1);
    if (c.showing()) c.show() << "indices " << pbt::list_of(ind) << "\n";
    auto model = [&](const std::vector<std::size_t>& rows, std::size_t f) {
        T lo = x.row(rows[0])[f], hi = lo;
        for (auto i : rows) lo = std::min(lo, x.row(i)[f]), hi = std::max(hi, x.row(i)[f]);
        return std::make_pair(lo, hi);
    };
    const auto everything = gen::iota(n);
    const auto whole      = fd::make_tight_bound(x.v.begin(), x.v.end(), d);
    const auto part       = fd::make_tight_bound(ind.begin(), ind.end(), x.v.begin(), x.v.end(), d);
    c.require(whole.n_features() == d && part.n_features() == d, "n-features", whole.n_features());
    c.nontrivial(ind.size() > 2 && ind.size() < n);
    for (std::size_t f = 0; f < d; ++f) {
        auto [lo, hi] = model(everything, f);
        auto [pl, ph] = model(ind, f);
        c.require(whole.segment_at(f).lower_bound() == lo && whole.segment_at(f).upper_bound() == hi, "tight-bound", "feature ", f);
        c.require(part.segment_at(f).lower_bound() == pl && part.segment_at(f).upper_bound() == ph, "tight-bound-indices", "feature ", f);
        const auto s1 = fd::make_tight_segment(x.v.begin(), x.v.end(), d, f);
        const auto s2 = fd::make_tight_segment(ind.begin(), ind.end(), x.v.begin(), x.v.end(), d, f);
        c.require(s1.lower_bound() == lo && s1.upper_bound() == hi, "tight-segment", "feature ", f);
        c.require(s2.lower_bound() == pl && s2.upper_bound() == ph, "tight-segment-indices", "feature ", f);
    }
    for (auto i : ind) c.require(part.is_in_bounds(x.v.begin() + i * d, x.v.begin() + (i + 1) * d), "tight-member", "sample ", i, " outside of its bound");
}

LAW("segments-float", 40000, 1500000, segments<float>);
LAW("segments-int", 20000, 800000, segments<int>);
LAW("segments-unsigned", 8000, 300000, segments<unsigned>);
LAW("balls-unsigned", 8000, 300000, balls<unsigned, 0>);
LAW("tight-unsigned", 5000, 150000, tight<unsigned>);
LAW("boxes-float", 60000, 2000000, boxes<float, 0>);
LAW("boxes-int", 20000, 800000, boxes<int, 0>);
LAW("boxes-unsigned", 8000, 300000, boxes<unsigned, 0>);
LAW("boxes-double", 20000, 800000, boxes<double, 0>);
LAW("boxes-fixed", 12000, 400000, [](pbt::Case& c) { c.chance(1, 2) ? boxes<float, 2>(c) : boxes<double, 3>(c); });
LAW("balls-fixed", 12000, 400000, [](pbt::Case& c) { c.chance(1, 2) ? balls<float, 2>(c) : balls<int, 3>(c); });
LAW("balls-float", 50000, 2000000, balls<float, 0>);
LAW("balls-double", 20000, 800000, balls<double, 0>);
LAW("balls-int", 20000, 800000, balls<int, 0>);
LAW("tight-float", 30000, 1000000, tight<float>);
LAW("tight-int", 10000, 300000, tight<int>);

}  // namespace
