// Small property-based testing engine used by every check in /verif.
//
// * Every random choice of a case is one entry of a "tape" of integers.  A case is a pure function of its tape, so
//   - generation  = fill the tape from a PRNG seeded with (VERIF_SEED, law name, case index);
//   - replay      = read the tape back from a file;
//   - shrinking   = delete / zero / lower entries of the tape and re-run (integrated shrinking, as in Hypothesis).
// * Cases are executed in forked workers with the tape in shared memory: crashes, sanitizer reports and hangs of the
//   code under test are failures of the running case, not of the check.
// * Every case runs in a fresh thread and std::random_device is replaced by a value taken from the tape, so the
//   library's thread-local Mersenne twister is (re)seeded by the case as well.
#pragma once

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>

namespace pbt {

struct Failure {
    std::string tag;
    std::string message;
};

struct Discard {};

class Case {
  public:
    // uniform choice in [0, n); the "simplest" value is 0
    std::uint64_t draw(std::uint64_t n);

    // integer in [lo, hi], simplest is lo
    std::int64_t range(std::int64_t lo, std::int64_t hi) {
        return lo + static_cast<std::int64_t>(draw(static_cast<std::uint64_t>(hi - lo) + 1));
    }

    // integer in [lo, hi] biased towards lo (roughly log-uniform)
    std::int64_t small_range(std::int64_t lo, std::int64_t hi);

    // true with probability num/den, simplest is false
    bool chance(std::uint64_t num, std::uint64_t den) { return draw(den) >= den - num; }

    // signed integer in [-m, m], simplest is 0
    std::int64_t symmetric(std::int64_t m) {
        const std::uint64_t z = draw(2 * static_cast<std::uint64_t>(m) + 1);
        return (z & 1) ? static_cast<std::int64_t>((z + 1) / 2) : -static_cast<std::int64_t>(z / 2);
    }

    // real in [0, 1) with 20 bits of resolution, simplest is 0
    double unit() { return static_cast<double>(draw(1u << 20)) / static_cast<double>(1u << 20); }

    template <typename T>
    const T& pick(const std::vector<T>& v) {
        return v[draw(v.size())];
    }

    // Marks the case as non trivial (by the law's rule)
    void nontrivial(bool condition = true) { nontrivial_ = nontrivial_ || condition; }

    void label(const std::string& name) { ++labels_[name]; }

    void discard() { throw Discard{}; }

    [[noreturn]] void fail(const std::string& tag, const std::string& message) { throw Failure{tag, message}; }

    template <typename... Args>
    void require(bool ok, const char* tag, const Args&... args) {
        if (!ok) {
            std::ostringstream oss;
            oss.precision(17);
            (oss << ... << args);
            throw Failure{tag, oss.str()};
        }
    }

    // human readable description of the generated input
    std::ostringstream& show() { return show_; }
    bool                showing() const { return showing_; }

    // tier: 0 quick, 1 thorough
    int tier() const { return tier_; }

    bool                               nontrivial_ = false;
    bool                               showing_    = false;
    int                                tier_       = 0;
    std::map<std::string, std::size_t> labels_;
    std::ostringstream                 show_;
};

struct Law {
    std::string                name;
    std::size_t                quick_cases;
    std::size_t                thorough_cases;
    std::function<void(Case&)> body;
    double                     timeout_s;
};

std::vector<Law>& laws();

struct RegisterLaw {
    RegisterLaw(const char*                name,
                std::size_t                quick_cases,
                std::size_t                thorough_cases,
                std::function<void(Case&)> body,
                double                     timeout_s = 20.0) {
        laws().push_back(Law{name, quick_cases, thorough_cases, std::move(body), timeout_s});
    }
};

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define LAW(name, quick, thorough, ...) \
    static ::pbt::RegisterLaw PBT_CAT(law_, __LINE__)(name, quick, thorough, __VA_ARGS__)

// printing helpers ---------------------------------------------------------------------------------------------------
template <typename It>
std::string list_of(It first, It last, std::size_t max = 400) {
    std::ostringstream oss;
    oss.precision(9);
    oss << "[";
    std::size_t n = 0;
    for (auto it = first; it != last; ++it, ++n) {
        if (n == max) {
            oss << ",...";
            break;
        }
        oss << (n ? "," : "") << +*it;
    }
    oss << "]";
    return oss.str();
}
template <typename C>
std::string list_of(const C& c) {
    return list_of(std::begin(c), std::end(c));
}

// |a-b| within rel * max(|a|,|b|) + abs_
inline bool close(double a, double b, double rel, double abs_) {
    if (a == b) return true;
    if (std::isnan(a) || std::isnan(b)) return false;
    if (std::isinf(a) || std::isinf(b)) return false;
    return std::fabs(a - b) <= rel * std::max(std::fabs(a), std::fabs(b)) + abs_;
}

}  // namespace pbt
