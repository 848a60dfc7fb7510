// P07: index partitioning / selection / sorting by one feature: a permutation, ordered around the right pivot.
#include "gen.hpp"

#include "ffcl/common/algorithms/Sorting.hpp"
#include "ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp"

namespace {
namespace fa = ffcl::common::algorithms;
namespace fk = ffcl::datastruct::kdtree::algorithms;

template <typename T, typename I>
struct In {
    gen::Data<T>   x;
    std::vector<I> ind;
    std::size_t              f;
    T at(std::size_t pos) const { return x.row(ind[pos])[f]; }
};

template <typename T, typename I>
In<T, I> input(pbt::Case& c, std::size_t max_n) {
    In<T, I>          in;
    const std::size_t n = gen::count(c, 1, max_n), d = gen::dims(c, n, 4);
    if constexpr (std::is_floating_point_v<T>) {
        in.x = gen::data<T>(c, n, d);
        switch (c.draw(6)) {
            case 1:  // sub-epsilon differences
                for (auto& v : in.x.v) v = std::ldexp(v, -40);
                in.x.mode += "*2^-40";
                break;
            case 2:  // large magnitudes, few ulps apart
                for (auto& v : in.x.v) v = static_cast<T>(std::ldexp(double(v), 60));
                in.x.mode += "*2^60";
                break;
            default:
                break;
        }
    } else if (gen::is_huge(n)) {
        in.x = gen::huge_data<T>(c, n, d);
    } else {
        in.x.n = n, in.x.d = d, in.x.mode = "integers";
        in.x.v.resize(n * d);
        const int m = 1 + static_cast<int>(c.draw(20));
        for (auto& v : in.x.v) v = static_cast<T>(std::is_signed_v<T> ? c.symmetric(m) : c.draw(m + 1));
    }
    in.f = c.draw(d);
    if (c.chance(1, 4)) {  // monotone columns: worst cases of median-of-three
        std::vector<T> col;
        for (std::size_t i = 0; i < n; ++i) col.push_back(in.x.v[i * d + in.f]);
        std::sort(col.begin(), col.end());
        if (c.chance(1, 2)) std::reverse(col.begin(), col.end());
        for (std::size_t i = 0; i < n; ++i) in.x.v[i * d + in.f] = col[i];
    }
    const auto chosen = gen::indices(c, n, 1);
    in.ind.assign(chosen.begin(), chosen.end());
    gen::describe(c, in.x);
    if (c.showing()) c.show() << "indices " << pbt::list_of(chosen) << " feature " << in.f << "\n";
    return in;
}

template <typename T, typename I>
void same_multiset(pbt::Case& c, const In<T, I>& in, std::vector<I> before, const char* tag) {
    auto after = in.ind;
    std::sort(before.begin(), before.end());
    std::sort(after.begin(), after.end());
    c.require(before == after, tag, "the indices are not a permutation of the input anymore: ", pbt::list_of(std::vector<std::size_t>(in.ind.begin(), in.ind.end())));
}

template <typename T, typename I = std::size_t>
void partition(pbt::Case& c, std::size_t max_n) {
    auto              in     = input<T, I>(c, max_n);
    const auto        before = in.ind;
    const auto        data   = in.x.v;
    const std::size_t pivot  = c.draw(in.ind.size());
    const T           pv     = in.at(pivot);
    const auto        pidx   = in.ind[pivot];
    if (c.showing()) c.show() << "pivot position " << pivot << "\n";
    const std::size_t p =
        fa::partition_around_pivot_index(in.ind.begin(), in.ind.end(), in.x.v.cbegin(), in.x.v.cend(), in.x.d, pivot, in.f);
    same_multiset(c, in, before, "partition-permutation");
    c.require(in.x.v == data, "data-modified", "samples changed");
    c.require(p < in.ind.size(), "partition-range", "pivot position ", p);
    c.require(in.at(p) == pv, "partition-pivot", "value at the returned position is ", double(in.at(p)), ", the pivot value was ", double(pv));
    c.require(in.ind[p] == pidx, "partition-pivot-index", "the pivot sample ", std::size_t(pidx), " is not at the returned position");
    std::size_t equal = 0;
    for (std::size_t i = 0; i < in.ind.size(); ++i) {
        equal += in.at(i) == pv;
        if (i < p) c.require(in.at(i) < pv, "partition-left", "position ", i, " holds ", double(in.at(i)), ", pivot value ", double(pv), " at ", p);
        if (i > p) c.require(in.at(i) >= pv, "partition-right", "position ", i, " holds ", double(in.at(i)), ", pivot value ", double(pv), " at ", p);
    }
    c.nontrivial(in.ind.size() > 3 && equal < in.ind.size());
    c.label(equal > 1 ? "pivot-ties" : "pivot-unique");
}

template <typename T, typename I = std::size_t>
void select(pbt::Case& c, std::size_t max_n) {
    auto              in     = input<T, I>(c, max_n);
    const auto        before = in.ind;
    const std::size_t k      = c.draw(in.ind.size());
    std::vector<T>    sorted;
    for (std::size_t i = 0; i < in.ind.size(); ++i) sorted.push_back(in.at(i));
    std::sort(sorted.begin(), sorted.end());
    if (c.showing()) c.show() << "kth_smallest " << k << "\n";
    const auto r = fa::quickselect(in.ind.begin(), in.ind.end(), in.x.v.cbegin(), in.x.v.cend(), in.x.d, k, in.f);
    same_multiset(c, in, before, "select-permutation");
    c.require(r.first == in.ind.begin() + k && r.second == in.ind.begin() + k + 1, "select-position", "returned position ", r.first - in.ind.begin(),
              " for k=", k);
    c.require(in.at(k) == sorted[k], "select-value", "value ", double(in.at(k)), " instead of ", double(sorted[k]));
    for (std::size_t i = 0; i < in.ind.size(); ++i)
        c.require(i < k ? in.at(i) <= sorted[k] : in.at(i) >= sorted[k], "select-order", "position ", i, " holds ", double(in.at(i)), ", k-th value ",
                  double(sorted[k]));
    c.nontrivial(in.ind.size() > 3 && sorted.front() < sorted.back());
}

template <typename T, typename I = std::size_t>
void sort(pbt::Case& c, std::size_t max_n) {
    auto              in     = input<T, I>(c, max_n);
    const auto        before = in.ind;
    const std::size_t pivot  = c.draw(in.ind.size());
    const auto        pidx   = in.ind[pivot];
    if (c.showing()) c.show() << "initial pivot " << pivot << "\n";
    const auto p = fa::quicksort(in.ind.begin(), in.ind.end(), in.x.v.cbegin(), in.x.v.cend(), in.x.d, pivot, in.f);
    same_multiset(c, in, before, "sort-permutation");
    for (std::size_t i = 0; i + 1 < in.ind.size(); ++i)
        c.require(in.at(i) <= in.at(i + 1), "sort-order", "positions ", i, ",", i + 1, " hold ", double(in.at(i)), ",", double(in.at(i + 1)));
    c.require(p < in.ind.size() && in.ind[p] == pidx, "sort-pivot", "position ", p, " does not hold the initial pivot sample ", std::size_t(pidx));
    c.nontrivial(in.ind.size() > 3);
}

template <typename T, typename I = std::size_t>
void median3(pbt::Case& c) {
    auto       in     = input<T, I>(c, 12);
    const auto before = in.ind;
    const auto m      = fa::median_index_of_three(in.ind.begin(), in.ind.end(), in.x.v.cbegin(), in.x.v.cend(), in.x.d, in.f);
    c.require(in.ind == before, "median-modified", "indices changed");
    c.require(m < in.ind.size(), "median-range", "position ", m);
    if (in.ind.size() >= 3) {
        std::vector<T> v = {in.at(0), in.at((in.ind.size() - 1) / 2), in.at(in.ind.size() - 1)};
        std::sort(v.begin(), v.end());
        c.require(in.at(m) == v[1], "median-value", "median of first/middle/last is ", double(v[1]), ", position ", m, " holds ", double(in.at(m)));
        c.nontrivial(v[0] != v[2]);
    }
}

// the split used by the spatial index: strictly smaller | pivot | greater or equal
template <typename T, typename I = std::size_t>
void split(pbt::Case& c, std::size_t max_n) {
    auto       in     = input<T, I>(c, max_n);
    const auto before = in.ind;
    const auto r = fk::quickselect_median(in.ind.begin(), in.ind.end(), in.x.v.cbegin(), in.x.v.cend(), in.x.d, in.f);
    same_multiset(c, in, before, "split-permutation");
    const auto& [cut, left, pivot, right] = r;
    (void)cut;
    c.require(left.first == in.ind.begin() && left.second == pivot.first && pivot.second == right.first && right.second == in.ind.end() &&
                  pivot.second - pivot.first == 1,
              "split-ranges", "left/pivot/right do not tile the range");
    const std::size_t p = pivot.first - in.ind.begin();
    for (std::size_t i = 0; i < in.ind.size(); ++i) {
        if (i < p) c.require(in.at(i) < in.at(p), "split-left", "position ", i, " holds ", double(in.at(i)), " pivot value ", double(in.at(p)));
        if (i > p) c.require(in.at(i) >= in.at(p), "split-right", "position ", i, " holds ", double(in.at(i)), " pivot value ", double(in.at(p)));
    }
    std::size_t greater = 0;
    for (std::size_t i = 0; i < in.ind.size(); ++i) greater += in.at(i) > in.at(p);
    c.require(p <= (in.ind.size() - 1) / 2 && greater <= in.ind.size() / 2, "split-median", "pivot at ", p, " of ", in.ind.size());
    c.nontrivial(in.ind.size() > 3 && p > 0);
}

std::size_t size(pbt::Case& c) { return c.chance(1, 20) ? 250 : 60; }

LAW("partition-float", 60000, 2500000, [](pbt::Case& c) { partition<float>(c, size(c)); });
LAW("partition-int", 20000, 800000, [](pbt::Case& c) { partition<int>(c, size(c)); });
LAW("partition-u8", 10000, 300000, [](pbt::Case& c) { partition<std::uint8_t>(c, size(c)); });
LAW("select-float", 50000, 2000000, [](pbt::Case& c) { select<float>(c, size(c)); });
LAW("select-double", 15000, 600000, [](pbt::Case& c) { select<double>(c, size(c)); });
LAW("select-int", 15000, 600000, [](pbt::Case& c) { select<int>(c, size(c)); });
LAW("sort-float", 40000, 1500000, [](pbt::Case& c) { sort<float>(c, size(c)); });
LAW("sort-int", 15000, 500000, [](pbt::Case& c) { sort<int>(c, size(c)); });
LAW("median-of-three", 30000, 1000000, median3<float>);
LAW("split-float", 40000, 1500000, [](pbt::Case& c) { split<float>(c, size(c)); });
LAW("partition-narrow", 15000, 300000, [](pbt::Case& c) { partition<int, std::uint8_t>(c, size(c)); });
LAW("select-narrow", 10000, 300000, [](pbt::Case& c) { select<float, std::uint8_t>(c, size(c)); });
LAW("sort-narrow", 10000, 300000, [](pbt::Case& c) { sort<double, std::uint8_t>(c, size(c)); });
LAW("split-narrow", 15000, 300000, [](pbt::Case& c) { split<float, std::uint8_t>(c, size(c)); });
LAW("split-int-index", 5000, 100000, [](pbt::Case& c) { split<double, int>(c, size(c)); });
LAW("split-double", 15000, 500000, [](pbt::Case& c) { split<double>(c, size(c)); });
LAW("huge", 16, 600, [](pbt::Case& c) {
    switch (c.draw(4)) {
        case 0: return partition<float>(c, gen::kHuge);
        case 1: return select<double, int>(c, gen::kHuge);
        case 2: return sort<float>(c, gen::kHuge);
        default: return split<int>(c, gen::kHuge);
    }
}, 120);

}  // namespace
