// P14: DBSCAN labels are the density-connected components.
#include "mst.hpp"

#include "ffcl/dbscan/DBSCAN.hpp"

namespace {

template <typename T>
gen::Data<T> make(pbt::Case& c, std::size_t n, std::size_t d) {
    if constexpr (std::is_floating_point_v<T>) {
        if (c.chance(1, 3)) {  // planted groups with bridges and outliers
            gen::Data<T> x;
            x.n = n, x.d = d, x.mode = "groups", x.span = 24;
            x.v.resize(n * d);
            const std::size_t   m = 1 + c.draw(4);
            std::vector<double> centers(m * d);
            for (auto& v : centers) v = double(c.symmetric(20));
            for (std::size_t i = 0; i < n; ++i) {
                const std::size_t g = c.draw(m);
                const double      s = c.chance(1, 10) ? 8 : 2;
                for (std::size_t f = 0; f < d; ++f) x.v[i * d + f] = static_cast<T>(centers[g * d + f] + s * double(c.symmetric(1 << 10)) / (1 << 10));
            }
            return x;
        }
    }
    return gen::any_data<T>(c, n, d);
}

template <typename T, typename Idx>
void dbscan(pbt::Case& c, std::size_t max_n) {
    const std::size_t n   = c.chance(3, 4) ? gen::count(c, 6, max_n) : gen::count(c, 1, max_n);
    const std::size_t d   = gen::features(c, 4);
    const auto        x   = make<T>(c, n, d);
    const auto        ord = gen::indices(c, n, n, false);
    std::vector<Idx>  ind(ord.begin(), ord.end());
    const auto        cfg = gen::tree_config(c, n, d);
    const auto        w   = gen::distances(x);
    const double      tol = std::is_floating_point_v<T> ? gen::dist_tol(x) : 0;
    using TR              = gen::Tree<T, Idx>;
    using D               = ffcl::DBSCAN<TR>;
    const bool  defaults    = c.chance(1, 16);
    std::size_t min_samples = 5;
    T           radius      = static_cast<T>(0.1);
    if (!defaults) {
        min_samples = c.draw(std::min<std::size_t>(n + 2, c.chance(1, 4) ? 9 : 5));
        // around the distance between a sample and one of its closest neighbors: exactly, or clearly more or less
        std::vector<double> row(n);
        const std::size_t   i = c.draw(n);
        for (std::size_t j = 0; j < n; ++j) row[j] = w(i, j);
        std::sort(row.begin(), row.end());
        double r = row[std::min(n - 1, 1 + c.draw(c.chance(1, 8) ? n : std::min<std::size_t>(n, 6)))];
        const double s = std::round(r * 64) / 64;
        if (c.chance(1, 12)) {
            r = double(c.draw(17)) * (std::is_floating_point_v<T> ? (x.exact ? x.step : x.span / 16) : 1);
        } else if (std::is_floating_point_v<T> && (!x.exact || s * s != r * r)) {
            r *= 1 + double(c.chance(1, 2) ? 1 + int(c.draw(4)) : -1 - int(c.draw(2))) / 24;
        } else if (c.chance(1, 3)) {
            r += double(c.symmetric(1)) * (std::is_floating_point_v<T> ? x.step : 1);
        }
        r = std::max(r, 0.0);
        radius = static_cast<T>(r);
    }
    gen::describe(c, x);
    if (c.showing())
        c.show() << "indices " << pbt::list_of(ind) << "\n" << cfg.text() << "\nradius=" << +radius << " min_samples=" << min_samples << (defaults ? " (defaults)" : "") << "\n";
    // who is strictly within the radius; a boundary that depends on rounding is not decided here
    std::vector<std::vector<std::size_t>> near(n);
    for (std::size_t i = 0; i < n; ++i)
        for (std::size_t j = 0; j < n; ++j) {
            const double v = w(i, j), r = double(radius);
            const double d2 = gen::dist2(x.row(i), x.row(j), d), s = std::sqrt(d2);
            const bool   sharp = !std::is_floating_point_v<T> || i == j || (x.exact && s * s == d2 && double(static_cast<T>(s)) == s);
            if (!sharp && std::fabs(v - r) <= tol) c.discard();
            if (v < r) near[i].push_back(j);
        }
    auto tree = gen::build_tree<T, Idx>(ind, x, cfg);
    const bool split = !tree.root()->is_leaf();
    const auto labels = [&] {
        if (defaults) return D().predict(std::move(tree));
        const auto o = typename D::Options().min_samples(min_samples).radius(radius);
        if (c.chance(1, 2)) return D(o).predict(std::move(tree));
        D e;
        e.set_options(o);
        if (c.chance(1, 4)) {  // an earlier prediction, on a copy of the tree, has no influence
            auto copy = tree;
            e.predict(std::move(copy));
        }
        return e.predict(std::move(tree));
    }();
    c.require(labels.size() == n, "labels-size", labels.size());

    std::vector<bool> core(n);
    gen::Labels       uf(n);
    std::size_t       cores = 0, border = 0, noise = 0;
    for (std::size_t i = 0; i < n; ++i) core[i] = near[i].size() > min_samples, cores += core[i];
    for (std::size_t i = 0; i < n; ++i)
        if (core[i])
            for (auto j : near[i])
                if (core[j]) uf.join(i, j);
    std::map<std::size_t, std::size_t> label_of, owner;
    for (std::size_t i = 0; i < n; ++i) {
        if (!core[i]) continue;
        const std::size_t l = labels[i];
        c.require(l > 0, "core-noise", "core sample ", i, " is labeled as noise; labels ", pbt::list_of(labels));
        const auto r  = uf.find(i);
        auto       it = label_of.emplace(r, l).first;
        c.require(it->second == l, "split", "density-connected samples ", r, " and ", i, " have labels ", it->second, " and ", l);
        auto ot = owner.emplace(l, r).first;
        c.require(ot->second == r, "merged", "samples ", ot->second, " and ", i, " are not density-connected but share label ", l);
    }
    for (std::size_t i = 0; i < n; ++i) {
        if (core[i]) continue;
        bool reached = false, mine = false;
        for (auto j : near[i])
            if (core[j]) reached = true, mine = mine || labels[i] == labels[j];
        if (reached) {
            ++border;
            c.require(mine, "border", "sample ", i, " has label ", labels[i], ", which no core sample in its reach has; labels ", pbt::list_of(labels));
        } else {
            ++noise;
            c.require(labels[i] == 0, "noise", "sample ", i, " is out of reach of any core sample but has label ", labels[i]);
        }
    }
    std::size_t expect = 1;
    for (auto& [l, r] : owner) c.require(l == expect++, "consecutive", "labels are not 1..", owner.size(), ": ", pbt::list_of(labels));
    if (owner.size() > 1) c.label("several-clusters");
    if (border) c.label("border-samples");
    if (noise) c.label("noise");
    c.nontrivial(split && cores > 0 && (owner.size() > 1 || cores < n));
}

LAW("dbscan-float", 60000, 1500000, [](pbt::Case& c) { dbscan<float, std::size_t>(c, 60); });
LAW("dbscan-double", 30000, 700000, [](pbt::Case& c) { dbscan<double, std::size_t>(c, 60); });
LAW("dbscan-int", 20000, 400000, [](pbt::Case& c) { dbscan<int, std::size_t>(c, 50); });
LAW("dbscan-int-index", 10000, 200000, [](pbt::Case& c) { dbscan<float, int>(c, 50); });
LAW("dbscan-unsigned", 10000, 200000, [](pbt::Case& c) { dbscan<unsigned, std::size_t>(c, 50); });
LAW("dbscan-large", 600, 12000, [](pbt::Case& c) { dbscan<float, std::size_t>(c, 400); });

}  // namespace
