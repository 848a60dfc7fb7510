// P16: KMeans::fit control: iterations, early stopping, restarts, warm start.
#include "kmeans.hpp"

namespace {

template <typename T>
struct Settings {
    std::size_t max_iter = 100, patience = 0, n_init = 1;
    bool        early = true;
    T           tolerance = 0;
};

// what fit is documented to do with one candidate, using the step of the algorithm (checked on its own)
template <template <typename> class Algorithm, typename T>
std::pair<std::vector<T>, double> reference_fit(const gen::Data<T>& x, std::vector<T> centroids, const Settings<T>& s, std::size_t& iterations, bool& ambiguous) {
    using It = typename std::vector<T>::const_iterator;
    Algorithm<It>  algorithm(std::make_tuple(x.v.cbegin(), x.v.cend(), x.d), centroids);
    std::vector<T> previous;
    std::size_t    still = 0;
    iterations           = 0;
    for (std::size_t i = 0; i < s.max_iter; ++i) {
        centroids = algorithm.step();
        ++iterations;
        bool same = !previous.empty();
        for (std::size_t f = 0; same && f < centroids.size(); ++f) same = std::fabs(double(centroids[f]) - double(previous[f])) <= (std::is_integral_v<T> ? 0 : double(s.tolerance));  // integers are compared exactly
        // a move that is the tolerance up to a rounding error: either decision is right
        if constexpr (std::is_floating_point_v<T>)
            for (std::size_t f = 0; f < previous.size() && s.tolerance > 0; ++f)
                if (std::fabs(std::fabs(double(centroids[f]) - double(previous[f])) - double(s.tolerance)) <=
                    4 * double(std::numeric_limits<T>::epsilon()) * (std::fabs(double(centroids[f])) + std::fabs(double(previous[f])) + double(s.tolerance)))
                    ambiguous = s.early;
        if (s.early && same) {
            if (still == s.patience) break;
            ++still;
        } else {
            still = 0;
        }
        previous = centroids;
    }
    double loss = 0;
    for (std::size_t i = 0; i < x.n; ++i) {
        double best = std::numeric_limits<double>::infinity();
        for (std::size_t j = 0; j * x.d < centroids.size(); ++j) best = std::min(best, gen::metric(x.row(i), centroids.data() + j * x.d, x.d));
        loss += best;
    }
    return {centroids, loss};
}

template <typename T>
typename ffcl::KMeans<T>::Options options_of(const Settings<T>& s) {
    return typename ffcl::KMeans<T>::Options().max_iter(s.max_iter).early_stopping(s.early).tolerance(s.tolerance).patience(s.patience).n_init(s.n_init);
}

template <template <typename> class Algorithm, typename T>
void fit(pbt::Case& c, std::size_t max_n, bool default_algorithm, std::size_t max_k = 6) {
    const std::size_t n = gen::sizeable(c, 1, max_n / 4, max_n);
    const std::size_t d = gen::features(c, 4);
    const auto        x = c.chance(1, 2) ? gen::groups<T>(c, n, d) : gen::any_data<T>(c, n, d);
    const std::size_t k = 1 + c.draw(max_k);
    Settings<T>       s;
    const bool        defaults = c.chance(1, 8);
    if (!defaults) {
        s.max_iter = c.chance(1, 2) ? c.draw(6) : c.draw(40);
        s.patience = c.chance(1, 2) ? 0 : c.draw(c.chance(1, 6) ? 16 : 4);
        s.early    = !c.chance(1, 4);
        static const std::vector<double> tolerances = {0, 0, 1e-6, 0.25, 4};
        s.tolerance = static_cast<T>(c.pick(tolerances) * (x.exact ? x.step : x.span / 32));
        s.n_init    = 1 + c.draw(c.chance(1, 8) ? 14 : 4);
    }
    const bool given = c.chance(1, 2);
    gen::describe(c, x);
    std::vector<std::vector<T>> starts;
    for (std::size_t i = 0; i < (given ? 1 : s.n_init); ++i) starts.push_back(gen::initial_centroids(c, x, k));
    if (c.showing()) {
        c.show() << (defaults ? "default options " : "") << "max_iter=" << s.max_iter << " patience=" << s.patience << " early_stopping=" << s.early
                 << " tolerance=" << s.tolerance << " n_init=" << s.n_init << (given ? " given centroids" : " initializer") << "\n";
        for (auto& v : starts) c.show() << "start " << gen::show_rows(v, d) << "\n";
    }
    const auto& data = x.v;
    std::size_t calls = 0;
    auto initializer = [&](const auto& first, const auto& last, std::size_t n_features, std::size_t n_centroids) {
        if (n_features != d || n_centroids != k || first != data.cbegin() || last != data.cend() || calls >= starts.size())
            throw pbt::Failure{"initializer", "the initializer is called with other arguments or too often"};
        return starts[calls++];
    };
    auto run = [&](ffcl::KMeans<T>& m) {
        if (default_algorithm) return m.fit(data.cbegin(), data.cend(), d, initializer);
        return m.template fit<Algorithm>(data.cbegin(), data.cend(), d, initializer);
    };
    auto check = [&](ffcl::KMeans<T>& m, const std::vector<T>& got, const std::vector<std::vector<T>>& from, const char* what) {
        double              best = std::numeric_limits<double>::infinity();
        std::size_t         its  = 0, longest = 0;
        std::vector<std::pair<std::vector<T>, double>> all;
        bool ambiguous = false;
        for (auto& v : from) {
            all.push_back(reference_fit<Algorithm, T>(x, v, s, its, ambiguous));
            best    = std::min(best, all.back().second);
            longest = std::max(longest, its);
        }
        if (ambiguous) c.discard();
        const double tol = gen::kmeans_tol(x, 1) * double(n);
        bool         known = false, good = false;
        double       loss = 0;
        for (auto& [v, l] : all)
            if (v == got) known = true, loss = l, good = good || l <= best + tol;
        c.require(known, "centroids", what, " does not return the centroids of a candidate: ", gen::show_rows(got, d), " instead of ", gen::show_rows(all[0].first, d));
        c.require(good, "not-best", what, " returns a candidate of deviation ", loss, ", another one has ", best);
        const auto labels    = m.predict(data.cbegin(), data.cend(), d);
        const auto distances = m.forward(data.cbegin(), data.cend(), d);
        c.require(labels.size() == n && distances.size() == n, "predict-size", labels.size());
        for (std::size_t i = 0; i < n; ++i) {
            const double w = gen::metric(x.row(i), got.data() + labels[i] * d, d);
            c.require(labels[i] < k && pbt::close(double(distances[i]), w, 0, gen::kmeans_tol(x, 0)), "predict", "sample ", i);
        }
        return longest;
    };
    // the options are given to the constructor or set afterwards, on top of the default or of other ones
    const auto      set_later = defaults ? 0 : c.draw(4);
    Settings<T>     other     = s;
    if (set_later > 1) other.max_iter = 1 + c.draw(3), other.patience = c.draw(3), other.early = !other.early, other.tolerance = static_cast<T>(1), other.n_init = 1 + c.draw(5);
    if (c.showing() && set_later) c.show() << "options set afterwards on top of " << (set_later > 1 ? "other" : "default") << " ones\n";
    ffcl::KMeans<T> model = set_later == 1  ? (given ? ffcl::KMeans<T>(k, starts[0]) : ffcl::KMeans<T>(k))
                            : set_later > 1 ? (given ? ffcl::KMeans<T>(k, starts[0], options_of(other)) : ffcl::KMeans<T>(k, options_of(other)))
                            : given         ? (defaults ? ffcl::KMeans<T>(k, starts[0]) : ffcl::KMeans<T>(k, starts[0], options_of(s)))
                                  : (defaults ? ffcl::KMeans<T>(k) : ffcl::KMeans<T>(k, options_of(s)));
    if (set_later) model.set_options(options_of(s));
    const auto  first = run(model);
    const auto  its   = check(model, first, starts, "fit");
    c.require(calls == (given ? 0 : s.n_init), "initializer", "the initializer was called ", calls, " times");
    // fitting again continues from the fitted centroids
    if (c.chance(1, 3)) {
        if (!defaults && c.chance(1, 2)) {
            s.max_iter = c.draw(5);
            model.set_options(options_of(s));
        }
        check(model, run(model), {first}, "second fit");
    }
    c.nontrivial(k > 1 && n > k && its > 2 && (starts.size() > 1 || given));
}

// the default initializer: centroids are fitted, one per requested cluster, and better than no fit at all
template <typename T>
void default_fit(pbt::Case& c) {
    const std::size_t n = gen::sizeable(c, 2, 10, 60);
    const std::size_t d = gen::features(c, 4);
    const auto        x = c.chance(1, 2) ? gen::groups<T>(c, n, d) : gen::any_data<T>(c, n, d);
    const std::size_t k = 1 + c.draw(std::min<std::size_t>(n, 5));
    gen::describe(c, x);
    if (c.showing()) c.show() << "k=" << k << "\n";
    ffcl::KMeans<T> model(k, typename ffcl::KMeans<T>::Options().max_iter(200).n_init(1 + c.draw(3)));
    const auto      got = model.fit(x.v.cbegin(), x.v.cend(), d);
    c.require(got.size() == k * d, "size", got.size(), " values for ", k, " centroids");
    for (std::size_t j = 0; j < k; ++j)
        for (std::size_t f = 0; f < d; ++f) {
            double lo = x.row(0)[f], hi = lo;
            for (std::size_t i = 0; i < n; ++i) lo = std::min<double>(lo, x.row(i)[f]), hi = std::max<double>(hi, x.row(i)[f]);
            const double tol = gen::kmeans_tol(x, 8);
            c.require(got[j * d + f] >= lo - tol && got[j * d + f] <= hi + tol, "outside", "centroid ", j, " is outside of the data on feature ", f, ": ", got[j * d + f]);
        }
    // converged: one more step moves nothing (up to ties)
    using It = typename std::vector<T>::const_iterator;
    ffcl::Lloyd<It> lloyd(std::make_tuple(x.v.cbegin(), x.v.cend(), d), got);
    gen::check_step(c, x, got, got, 8);
    c.nontrivial(k > 1 && n > k);
}

// the loop of fit on its own: an algorithm that moves its centroids as told, so that they may stand still for a while and move again
struct Script {
    std::vector<std::vector<std::vector<double>>> centroids;  // per candidate and step
    std::vector<double>                           losses;     // per candidate and step, one more before the first step
    std::vector<std::size_t>                      steps;
    std::size_t                                   made = 0, length = 0;
};
Script* script = nullptr;

template <typename SamplesIterator>
class Scripted {
  public:
    Scripted(const std::tuple<SamplesIterator, SamplesIterator, std::size_t>&, const std::vector<double>&)
      : candidate_{script->made++} {
        if (candidate_ >= script->centroids.size()) throw pbt::Failure{"candidates", "more candidates than asked for"};
    }
    std::vector<double> step() {
        const auto now = script->steps[candidate_]++;
        if (now >= script->length) throw pbt::Failure{"steps", "more steps than the largest number of iterations"};
        return script->centroids[candidate_][now];
    }
    double total_deviation() const {
        return script->losses[candidate_ * (script->length + 1) + script->steps[candidate_]];
    }

  private:
    std::size_t candidate_;
};

void loop(pbt::Case& c) {
    const std::size_t k = 1 + c.draw(3), d = 1 + c.draw(3), n = 1 + c.draw(4);
    Settings<double>  s;
    s.max_iter  = c.draw(c.chance(1, 4) ? 30 : 8);
    s.patience  = c.draw(c.chance(1, 4) ? 10 : 4);
    s.early     = !c.chance(1, 6);
    s.n_init    = 1 + c.draw(5);
    s.tolerance = c.chance(1, 4) ? 0 : std::ldexp(1, int(c.symmetric(6)));
    const bool          given = c.chance(1, 4);
    const std::size_t   m     = given ? 1 : s.n_init;
    std::vector<double> x(n * d, 1.0), start(k * d, 0.0);
    Script              told;
    told.length = s.max_iter;
    told.steps.resize(m);
    std::vector<std::size_t>         expected_steps(m);
    std::vector<std::vector<double>> expected(m, start);
    const auto                       order = [&] {
        auto o = gen::iota(m * (s.max_iter + 1));
        gen::shuffle(c, o);
        return o;
    }();
    for (auto o : order) told.losses.push_back(double(o) / 4);  // all different
    for (std::size_t i = 0; i < m; ++i) {
        auto now = start;
        told.centroids.emplace_back();
        std::size_t still = 0;
        bool        over  = false;
        for (std::size_t t = 0; t < s.max_iter; ++t) {
            bool moved = t == 0 || c.chance(1, 3);
            if (moved) {
                now[c.draw(now.size())] += (c.chance(1, 2) ? 1 : -1) * (s.tolerance > 0 ? 2 * s.tolerance : 1e-3);
            } else if (s.tolerance > 0 && c.chance(1, 3)) {
                now[c.draw(now.size())] += (c.chance(1, 2) ? 1 : -1) * s.tolerance / 2;
            }
            told.centroids.back().push_back(now);
            if (over) continue;
            expected[i] = now;
            ++expected_steps[i];
            if (s.early && !moved) {
                over = still == s.patience;
                ++still;
            } else {
                still = 0;
            }
        }
    }
    if (c.showing()) {
        c.show() << "max_iter=" << s.max_iter << " patience=" << s.patience << " early_stopping=" << s.early << " tolerance=" << s.tolerance << " n_init=" << s.n_init
                 << (given ? " given centroids" : "") << " losses " << pbt::list_of(told.losses) << "\n";
        for (std::size_t i = 0; i < m; ++i)
            for (auto& v : told.centroids[i]) c.show() << "candidate " << i << " step to " << gen::show_rows(v, d) << "\n";
    }
    script = &told;
    ffcl::KMeans<double> model = given ? ffcl::KMeans<double>(k, start, options_of(s)) : ffcl::KMeans<double>(k, options_of(s));
    const auto got = model.fit<Scripted>(x.cbegin(), x.cend(), d, [&](const auto&, const auto&, std::size_t, std::size_t) { return start; });
    c.require(told.made == m, "candidates", told.made, " candidates instead of ", m);
    std::size_t best = 0;
    for (std::size_t i = 0; i < m; ++i) {
        c.require(told.steps[i] == expected_steps[i], "steps", "candidate ", i, " makes ", told.steps[i], " steps instead of ", expected_steps[i]);
        if (told.losses[i * (s.max_iter + 1) + expected_steps[i]] < told.losses[best * (s.max_iter + 1) + expected_steps[best]]) best = i;
    }
    c.require(got == expected[best], "centroids", "fit returns ", gen::show_rows(got, d), " instead of ", gen::show_rows(expected[best], d), " of candidate ", best);
    c.nontrivial(s.max_iter > 2 && s.early);
}

LAW("loop", 12000, 400000, loop);
LAW("fit-lloyd", 16000, 400000, [](pbt::Case& c) { fit<ffcl::Lloyd, double>(c, 40, false); });
LAW("fit-hamerly", 24000, 600000, [](pbt::Case& c) { fit<ffcl::Hamerly, double>(c, 40, c.chance(1, 2)); });
LAW("fit-hamerly-float", 16000, 400000, [](pbt::Case& c) { fit<ffcl::Hamerly, float>(c, 40, false); });
LAW("fit-int", 6000, 150000, [](pbt::Case& c) { c.chance(1, 2) ? fit<ffcl::Lloyd, int>(c, 40, false) : fit<ffcl::Hamerly, int>(c, 40, false); });
LAW("fit-large", 600, 12000, [](pbt::Case& c) { fit<ffcl::Hamerly, double>(c, 500, false, 30); });
LAW("fit-lloyd-large", 300, 6000, [](pbt::Case& c) { fit<ffcl::Lloyd, double>(c, 500, false, 30); });
LAW("fit-many", 60, 1200, [](pbt::Case& c) { c.chance(1, 2) ? fit<ffcl::Hamerly, double>(c, 400, false, 400) : fit<ffcl::Lloyd, double>(c, 400, false, 400); });
LAW("default-fit", 16000, 400000, [](pbt::Case& c) { default_fit<double>(c); });

}  // namespace
