// P19: KMedoids::fit control: iterations, early stopping, restarts, warm start, stored distances.
#include "kmedoids.hpp"

namespace {

struct Settings {
    std::size_t max_iter = 100, patience = 0, n_init = 1;
    bool        early = true;
};

template <typename Model>
typename Model::Options options_of(const Settings& s) {
    return typename Model::Options().max_iter(s.max_iter).early_stopping(s.early).patience(s.patience).n_init(s.n_init);
}

template <typename T>
gen::Data<T> samples(pbt::Case& c, std::size_t n, std::size_t d) {
    return c.chance(1, 2) && std::is_floating_point_v<T> ? gen::groups<T>(c, n, d) : gen::any_data<T>(c, n, d);
}

// what fit is documented to do with one candidate, using the step of the algorithm (checked on its own)
template <typename Algorithm>
std::vector<std::size_t> reference_fit(Algorithm& algorithm, std::vector<std::size_t> medoids, const Settings& s, std::size_t& iterations) {
    std::vector<std::size_t> previous;
    std::size_t              still = 0;
    iterations                     = 0;
    for (std::size_t i = 0; i < s.max_iter; ++i) {
        medoids = algorithm.step();
        ++iterations;
        if (s.early && medoids == previous) {
            if (still == s.patience) break;
            ++still;
        } else {
            still = 0;
        }
        previous = medoids;
    }
    return medoids;
}

template <typename T, typename Model>
void check_labels(pbt::Case& c, const gen::Data<T>& x, const gen::Weights& w, const std::vector<std::size_t>& medoids, const Model& model) {
    using It = typename std::vector<T>::const_iterator;
    const ffcl::datastruct::PairwiseDistanceMatrix<It> matrix(x.v.cbegin(), x.v.cend(), x.d);
    const double tol = gen::kmeans_tol(x, 0);
    auto check = [&](const char* what, const std::vector<std::size_t>& labels, const std::vector<T>& distances) {
        c.require(labels.size() == x.n && distances.size() == x.n, "predict-size", what, ": ", labels.size());
        for (std::size_t i = 0; i < x.n; ++i) {
            double best = std::numeric_limits<double>::infinity();
            for (auto m : medoids) best = std::min(best, w(i, m));
            c.require(labels[i] < medoids.size() && pbt::close(w(i, medoids[labels[i]]), best, 0, tol), "predict", what, ": sample ", i, " has label ", labels[i]);
            c.require(pbt::close(double(distances[i]), best, 0, tol), "forward", what, ": sample ", i, " is at ", double(distances[i]), " of its medoid instead of ", best);
        }
    };
    check("computed", model.predict(x.v.cbegin(), x.v.cend(), x.d), model.forward(x.v.cbegin(), x.v.cend(), x.d));
    check("stored", model.predict(matrix), model.forward(matrix));
}

template <template <typename> class Algorithm, typename T, bool Precompute>
void given(pbt::Case& c, std::size_t max_n = 24, std::size_t max_k = 5, std::size_t min_k = 2) {
    using It    = typename std::vector<T>::const_iterator;
    using Model = ffcl::KMedoids<T, Precompute>;
    const std::size_t n = min_k + gen::sizeable(c, 0, (max_n - min_k) / 3, max_n - min_k);
    const std::size_t d = gen::features(c, 4);
    const auto        x = samples<T>(c, n, d);
    const std::size_t k = min_k + c.draw(std::min(n, max_k) - min_k + 1);
    const auto        medoids  = gen::some_medoids(c, n, k);
    const bool        defaults = c.chance(1, 8);
    Settings          s;
    if (!defaults) {
        s.max_iter = c.draw(c.chance(1, 2) ? 4 : 20);
        s.patience = c.chance(1, 2) ? 0 : c.draw(c.chance(1, 6) ? 16 : 4);
        s.early    = !c.chance(1, 4);
        s.n_init   = 1 + c.draw(c.chance(1, 8) ? 14 : 4);
    }
    const bool from_matrix = c.chance(1, 2), default_algorithm = c.chance(1, 3) && std::is_same_v<Algorithm<It>, ffcl::FasterPAM<It>>;
    gen::describe(c, x);
    if (c.showing())
        c.show() << "medoids " << gen::show_indices(medoids) << (defaults ? " default options" : "") << " max_iter=" << s.max_iter << " patience=" << s.patience
                 << " early_stopping=" << s.early << " n_init=" << s.n_init << (from_matrix ? " fit(matrix)" : " fit(samples)") << "\n";
    const auto w       = gen::distances(x);
    const auto dataset = std::make_tuple(x.v.cbegin(), x.v.cend(), d);
    const ffcl::datastruct::PairwiseDistanceMatrix<It> matrix(dataset);
    auto reference = [&](const std::vector<std::size_t>& from, std::size_t& its) {
        if (from_matrix || Precompute) {
            Algorithm<It> a(matrix, from);
            return reference_fit(a, from, s, its);
        }
        Algorithm<It> a(dataset, from);
        return reference_fit(a, from, s, its);
    };
    // the options are given to the constructor or set afterwards, on top of the default or of other ones
    const auto set_later = defaults ? 0 : c.draw(4);
    auto       other     = s;
    if (set_later > 1) other.max_iter = 1 + c.draw(3), other.patience = c.draw(3), other.early = !other.early, other.n_init = 1 + c.draw(5);
    if (c.showing() && set_later) c.show() << "options set afterwards on top of " << (set_later > 1 ? "other" : "default") << " ones\n";
    Model model = defaults || set_later == 1 ? Model(k, medoids) : Model(k, medoids, options_of<Model>(set_later ? other : s));
    if (set_later) model.set_options(options_of<Model>(s));
    auto  run   = [&] {
        if (from_matrix) return default_algorithm ? model.fit(matrix) : model.template fit<Algorithm>(matrix);
        return default_algorithm ? model.fit(x.v.cbegin(), x.v.cend(), d) : model.template fit<Algorithm>(x.v.cbegin(), x.v.cend(), d);
    };
    std::size_t its   = 0, more = 0;
    const auto  want  = reference(medoids, its);
    const auto  first = run();
    c.require(first == want, "fit", "fit returns medoids ", gen::show_indices(first), " instead of ", gen::show_indices(want));
    check_labels(c, x, w, first, model);
    if (c.chance(1, 3)) {
        if (!defaults && c.chance(1, 2)) {
            s.max_iter = c.draw(3);
            model.set_options(options_of<Model>(s));
        }
        const auto next  = reference(first, more);
        const auto again = run();
        c.require(again == next, "second-fit", "the second fit returns medoids ", gen::show_indices(again), " instead of ", gen::show_indices(next), " from ", gen::show_indices(first));
        check_labels(c, x, w, again, model);
    }
    c.nontrivial(n > k && its > 1 && first != medoids);
}

// random initialisation: distinct samples, a local optimum once converged
template <typename T, bool Precompute>
void random_start(pbt::Case& c, std::size_t max_n = 24, std::size_t max_k = 5, std::size_t min_k = 2) {
    using It    = typename std::vector<T>::const_iterator;
    using Model = ffcl::KMedoids<T, Precompute>;
    const std::size_t n = min_k + gen::sizeable(c, 0, (max_n - min_k) / 4, max_n - min_k);
    const std::size_t d = gen::features(c, 4);
    const auto        x = samples<T>(c, n, d);
    const std::size_t k = min_k + c.draw(std::min(n, max_k) - min_k + 1);
    const bool        from_matrix = c.chance(1, 2);
    gen::describe(c, x);
    if (c.showing()) c.show() << "k=" << k << (from_matrix ? " fit(matrix)" : " fit(samples)") << "\n";
    const auto w = gen::distances(x);
    const ffcl::datastruct::PairwiseDistanceMatrix<It> matrix(x.v.cbegin(), x.v.cend(), d);
    Model      model(k, typename Model::Options().n_init(1 + c.draw(3)).max_iter(1000));
    const auto medoids = from_matrix ? model.fit(matrix) : model.fit(x.v.cbegin(), x.v.cend(), d);
    gen::check_medoids(c, medoids, n, k);
    const double tol   = std::is_floating_point_v<T> ? 4 * gen::kmeans_tol(x, 1) * double(n) : 0;
    const double value = gen::TotalDeviation{}(w, medoids);
    const auto [best, arg] = gen::best_swap(w, medoids, gen::TotalDeviation{}, value, tol * double(n + 1));
    c.require(best >= value, "local-optimum", "fit ends at ", gen::show_indices(medoids), " with loss ", value, ", medoids ", gen::show_indices(arg), " have ", best);
    check_labels(c, x, w, medoids, model);
    c.nontrivial(n > k + 1);
}

// with so many restarts that every set of medoids is drawn, the best one of all has to be returned (missing one: less than 1e-17)
template <template <typename> class Algorithm, typename Objective, typename T, bool Precompute>
void restarts(pbt::Case& c) {
    using It    = typename std::vector<T>::const_iterator;
    using Model = ffcl::KMedoids<T, Precompute>;
    const std::size_t n = 3 + c.draw(3);
    const std::size_t d = gen::features(c, 3);
    const auto        x = samples<T>(c, n, d);
    const std::size_t k = 2;
    const bool        from_matrix = c.chance(1, 2);
    const std::size_t max_iter    = c.chance(1, 2) ? 0 : c.draw(3);
    gen::describe(c, x);
    if (c.showing()) c.show() << "max_iter=" << max_iter << (from_matrix ? " fit(matrix)" : " fit(samples)") << "\n";
    const auto w = gen::distances(x);
    double     smallest = std::numeric_limits<double>::infinity();
    for (auto v : w.w)
        if (v > 0) smallest = std::min(smallest, v);
    const double rounding = gen::kmeans_tol(x, 1);
    if (std::is_floating_point_v<T> && (rounding > 1e-3 * smallest || smallest < 1e-5)) c.discard();
    const ffcl::datastruct::PairwiseDistanceMatrix<It> matrix(x.v.cbegin(), x.v.cend(), d);
    const auto options   = typename Model::Options().n_init(400).max_iter(max_iter);
    const bool set_later = c.chance(1, 4);
    Model      model     = set_later ? Model(k) : Model(k, options);
    if (set_later) model.set_options(options);
    const auto medoids = from_matrix ? model.template fit<Algorithm>(matrix) : model.template fit<Algorithm>(x.v.cbegin(), x.v.cend(), d);
    gen::check_medoids(c, medoids, n, k);
    double best = std::numeric_limits<double>::infinity(), worst = 0;
    for (std::size_t i = 0; i < n; ++i)
        for (std::size_t j = 0; j < i; ++j) {
            const double v = Objective{}(w, {i, j});
            best = std::min(best, v), worst = std::max(worst, v);
        }
    const double value = Objective{}(w, medoids);
    c.require(value <= best + 1e-3 * (worst - best) + 8 * double(n) * (rounding + rounding / smallest), "not-best", "400 restarts of ", max_iter, " steps give ",
              gen::show_indices(medoids), " of loss ", value, ", the best of all has ", best);
    c.nontrivial(n > 3 && worst > best * 1.01);
}

// the distance matrices
template <typename T>
void matrices(pbt::Case& c, std::size_t max_n = 40) {
    using It = typename std::vector<T>::const_iterator;
    const std::size_t n = gen::count(c, 1, max_n);
    const std::size_t d = gen::features(c, 6);
    gen::Data<T>      x;
    if constexpr (std::is_integral_v<T>) x = gen::integers<T>(c, n, d, 40);
    else x = gen::data<T>(c, n, d);
    gen::describe(c, x);
    const ffcl::datastruct::PairwiseDistanceMatrix<It>        stored(x.v.cbegin(), x.v.cend(), d);
    const ffcl::datastruct::PairwiseDistanceMatrix<It>        described(std::make_tuple(x.v.cbegin(), x.v.cend(), d));
    const ffcl::datastruct::PairwiseDistanceMatrixDynamic<It> computed(x.v.cbegin(), x.v.cend(), d);
    c.require(stored.n_rows() == n && stored.n_columns() == n && computed.n_rows() == n && computed.n_columns() == n, "shape", stored.n_rows(), " rows for ", n, " samples");
    const double tol = gen::kmeans_tol(x, 0);
    for (std::size_t i = 0; i < n; ++i)
        for (std::size_t j = 0; j < n; ++j) {
            const double want = gen::metric(x.row(i), x.row(j), d);
            c.require(pbt::close(double(stored(i, j)), want, 0, tol) && pbt::close(double(computed(i, j)), want, 0, tol) && stored(i, j) == described(i, j), "distance", "distance ", i, ",", j,
                      " is ", double(stored(i, j)), " stored, ", double(computed(i, j)), " computed, instead of ", want);
            c.require(stored(i, j) == stored(j, i), "symmetric", "distance ", i, ",", j);
            if (i == j) c.require(stored(i, i) == 0 && computed(i, i) == 0, "diagonal", "distance ", i, ",", i, " is not zero");
        }
    c.nontrivial(n > 2);
}

// the loop of fit on its own: an algorithm that replaces its medoids as told, so that they may stay the same for a while and change again
struct Script {
    std::vector<std::vector<std::vector<std::size_t>>> medoids;  // per candidate and step
    std::vector<double>                                losses;   // per candidate and step, one more before the first step
    std::vector<std::size_t>                           steps;
    std::size_t                                        made = 0, length = 0;
};
Script* script = nullptr;

template <typename SamplesIterator>
class Scripted {
  public:
    Scripted(const std::tuple<SamplesIterator, SamplesIterator, std::size_t>&, const std::vector<std::size_t>&) { init(); }
    Scripted(const ffcl::datastruct::PairwiseDistanceMatrix<SamplesIterator>&, const std::vector<std::size_t>&) { init(); }

    std::vector<std::size_t> step() {
        const auto now = script->steps[candidate_]++;
        if (now >= script->length) throw pbt::Failure{"steps", "more steps than the largest number of iterations"};
        return script->medoids[candidate_][now];
    }
    double total_deviation() const {
        return script->losses[candidate_ * (script->length + 1) + script->steps[candidate_]];
    }

  private:
    void init() {
        candidate_ = script->made++;
        if (candidate_ >= script->medoids.size()) throw pbt::Failure{"candidates", "more candidates than asked for"};
    }
    std::size_t candidate_;
};

template <bool Precompute>
void loop(pbt::Case& c) {
    using It    = std::vector<double>::const_iterator;
    using Model = ffcl::KMedoids<double, Precompute>;
    const std::size_t k = 2 + c.draw(3), n = k + 2 + c.draw(3);
    Settings          s;
    s.max_iter = 1 + c.draw(c.chance(1, 4) ? 30 : 8);
    s.patience = c.draw(c.chance(1, 4) ? 10 : 4);
    s.early    = !c.chance(1, 6);
    s.n_init   = 1 + c.draw(5);
    const bool               given = c.chance(1, 4), from_matrix = c.chance(1, 2);
    const std::size_t        m     = given ? 1 : s.n_init;
    std::vector<double>      x(n);
    std::vector<std::size_t> start = gen::iota(n);
    for (std::size_t i = 0; i < n; ++i) x[i] = double(i * i);
    start.resize(k);
    Script told;
    told.length = s.max_iter;
    told.steps.resize(m);
    std::vector<std::size_t>              expected_steps(m);
    std::vector<std::vector<std::size_t>> expected(m);
    auto                                  order = gen::iota(m * (s.max_iter + 1));
    gen::shuffle(c, order);
    for (auto o : order) told.losses.push_back(double(o) / 4);  // all different
    for (std::size_t i = 0; i < m; ++i) {
        auto now = start;
        told.medoids.emplace_back();
        std::size_t still = 0;
        bool        over  = false;
        for (std::size_t t = 0; t < s.max_iter; ++t) {
            const bool moved = t == 0 || c.chance(1, 3);
            if (moved) {
                const auto place = c.draw(k);
                auto       other = c.draw(n);
                while (std::find(now.begin(), now.end(), other) != now.end()) other = (other + 1) % n;
                now[place] = other;
            }
            told.medoids.back().push_back(now);
            if (over) continue;
            expected[i] = now;
            ++expected_steps[i];
            if (s.early && !moved) {
                over = still == s.patience;
                ++still;
            } else {
                still = 0;
            }
        }
    }
    if (c.showing()) {
        c.show() << "max_iter=" << s.max_iter << " patience=" << s.patience << " early_stopping=" << s.early << " n_init=" << s.n_init << (given ? " given medoids" : "")
                 << (from_matrix ? " fit(matrix)" : " fit(samples)") << " losses " << pbt::list_of(told.losses) << "\n";
        for (std::size_t i = 0; i < m; ++i)
            for (auto& v : told.medoids[i]) c.show() << "candidate " << i << " step to " << gen::show_indices(v) << "\n";
    }
    script = &told;
    const ffcl::datastruct::PairwiseDistanceMatrix<It> matrix(x.cbegin(), x.cend(), 1);
    const bool set_later = c.chance(1, 3);
    Model      model     = given ? (set_later ? Model(k, start) : Model(k, start, options_of<Model>(s))) : (set_later ? Model(k) : Model(k, options_of<Model>(s)));
    if (set_later) model.set_options(options_of<Model>(s));
    const auto got = from_matrix ? model.template fit<Scripted>(matrix) : model.template fit<Scripted>(x.cbegin(), x.cend(), 1);
    c.require(told.made == m, "candidates", told.made, " candidates instead of ", m);
    std::size_t best = 0;
    for (std::size_t i = 0; i < m; ++i) {
        c.require(told.steps[i] == expected_steps[i], "steps", "candidate ", i, " makes ", told.steps[i], " steps instead of ", expected_steps[i]);
        if (told.losses[i * (s.max_iter + 1) + expected_steps[i]] < told.losses[best * (s.max_iter + 1) + expected_steps[best]]) best = i;
    }
    c.require(got == expected[best], "medoids", "fit returns ", gen::show_indices(got), " instead of ", gen::show_indices(expected[best]), " of candidate ", best);
    c.nontrivial(s.max_iter > 2 && s.early);
}

LAW("loop", 4000, 150000, loop<false>);
LAW("loop-precomputed", 4000, 150000, loop<true>);
LAW("given-int", 12000, 300000, [](pbt::Case& c) { given<ffcl::FasterPAM, int, false>(c); });
LAW("given-double", 12000, 300000, [](pbt::Case& c) { given<ffcl::FasterPAM, double, true>(c); });
LAW("given-msc", 12000, 300000, [](pbt::Case& c) { given<ffcl::FasterMSC, double, false>(c); });
LAW("random-start-int", 12000, 300000, [](pbt::Case& c) { random_start<int, false>(c); });
LAW("random-start-double", 12000, 300000, [](pbt::Case& c) { random_start<double, true>(c); });
LAW("restarts-int", 1500, 40000, [](pbt::Case& c) { restarts<ffcl::FasterPAM, gen::TotalDeviation, int, true>(c); });
LAW("restarts-msc", 1500, 40000, [](pbt::Case& c) { restarts<ffcl::FasterMSC, gen::MedoidSilhouette, double, false>(c); });
LAW("given-large", 200, 4000, [](pbt::Case& c) { given<ffcl::FasterPAM, double, false>(c, 150, 16); });
LAW("random-start-large", 100, 2000, [](pbt::Case& c) { random_start<int, true>(c, 120, 14); });
LAW("many", 60, 1200, [](pbt::Case& c) { c.chance(1, 2) ? given<ffcl::FasterPAM, double, false>(c, 310, 310, 257) : random_start<double, true>(c, 310, 310, 257); });
LAW("matrices-large", 200, 4000, [](pbt::Case& c) { matrices<double>(c, 420); });
LAW("matrices-float", 20000, 400000, [](pbt::Case& c) { matrices<float>(c); });
LAW("matrices-int", 20000, 400000, [](pbt::Case& c) { matrices<int>(c); });
LAW("matrices-unsigned", 10000, 200000, [](pbt::Case& c) { matrices<unsigned>(c); });

}  // namespace
