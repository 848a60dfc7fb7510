#include "pbt.hpp"

#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <fstream>
#include <random>
#include <set>
#include <unordered_set>

extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:exitcode=77:abort_on_error=0:handle_abort=1:allocator_may_return_null=0:detect_stack_use_"
           "after_return=0:max_allocation_size_mb=2000";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:exitcode=77"; }

namespace {

using clock_type = std::chrono::steady_clock;

double now_s() { return std::chrono::duration<double>(clock_type::now().time_since_epoch()).count(); }

std::uint64_t splitmix(std::uint64_t& s) {
    std::uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z               = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z               = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

std::uint64_t hash_str(const std::string& s) {
    std::uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) {
        h ^= c;
        h *= 1099511628211ULL;
    }
    return h;
}

constexpr std::size_t kTapeCap = 1u << 19;
constexpr std::size_t kMsgCap  = 1u << 14;

struct Shared {
    std::atomic<std::uint64_t> evaluations;
    std::atomic<std::uint64_t> nontrivial;
    std::atomic<std::uint64_t> discards;
    std::atomic<double>        case_start;  // 0 when idle
    std::atomic<std::int64_t>  law;
    std::atomic<std::uint64_t> index;
    std::uint64_t              tape_len;
    int                        verdict;  // 0 none, 1 fail
    char                       tag[256];
    char                       msg[kMsgCap];
    char                       desc[kMsgCap * 4];
    std::uint64_t              tape[kTapeCap];
};

Shared* map_shared() {
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
        std::perror("mmap");
        std::exit(2);
    }
    std::memset(p, 0, sizeof(Shared) - sizeof(std::uint64_t) * kTapeCap);
    return static_cast<Shared*>(p);
}

// current case state (one case at a time per process)
Shared*                    g_shared = nullptr;
bool                       g_replay = false;
std::vector<std::uint64_t> g_input;
std::uint64_t              g_rng = 0;
std::uint64_t              g_rd_seed = 0;
std::atomic<std::uint64_t> g_rd_calls{0};

struct NullBuf : std::streambuf {
    int             overflow(int c) override { return c; }
    std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};
NullBuf g_null;

}  // namespace

namespace std {
// deterministic replacement of the system entropy source: a pure function of the current case's tape
random_device::result_type random_device::_M_getval() {
    std::uint64_t s = g_rd_seed + 0x51ed2701ULL * (g_rd_calls.fetch_add(1) + 1);
    return static_cast<random_device::result_type>(splitmix(s));
}
}  // namespace std

namespace pbt {

std::vector<Law>& laws() {
    static std::vector<Law> v;
    return v;
}

std::uint64_t Case::draw(std::uint64_t n) {
    if (n == 0) {
        std::fprintf(stderr, "pbt: draw(0)\n");
        std::abort();
    }
    const std::uint64_t pos = g_shared->tape_len;
    if (pos >= kTapeCap) {
        throw Discard{};
    }
    std::uint64_t v;
    if (g_replay) {
        v = pos < g_input.size() ? g_input[pos] : 0;
        if (v >= n) v = n - 1;
    } else {
        v = splitmix(g_rng) % n;
    }
    g_shared->tape[pos] = v;
    g_shared->tape_len  = pos + 1;
    return v;
}

std::int64_t Case::small_range(std::int64_t lo, std::int64_t hi) {
    // choose a cap log-uniformly, then a value below it
    const std::uint64_t span = static_cast<std::uint64_t>(hi - lo) + 1;
    std::uint64_t       bits = 0;
    while ((1ULL << bits) < span) ++bits;
    const std::uint64_t b   = draw(bits + 1);
    const std::uint64_t cap = std::min<std::uint64_t>(span, 1ULL << b);
    return lo + static_cast<std::int64_t>(draw(cap));
}

}  // namespace pbt

namespace {

using pbt::Case;
using pbt::Law;

struct Outcome {
    int         verdict = 0;  // 0 pass, 1 fail, 2 discard
    std::string tag, msg;
};

struct ThreadArg {
    const Law* law;
    Case*      c;
    Outcome    out;
};

void* case_thread(void* p) {
    auto* a = static_cast<ThreadArg*>(p);
    try {
        a->law->body(*a->c);
    } catch (const pbt::Discard&) {
        a->out.verdict = 2;
    } catch (const pbt::Failure& f) {
        a->out.verdict = 1;
        a->out.tag     = f.tag;
        a->out.msg     = f.message;
    } catch (const std::exception& e) {
        a->out.verdict = 1;
        a->out.tag     = "exception";
        a->out.msg     = std::string("unexpected exception: ") + e.what();
    } catch (...) {
        a->out.verdict = 1;
        a->out.tag     = "exception";
        a->out.msg     = "unexpected exception of unknown type";
    }
    return nullptr;
}

// runs one case in a fresh thread of the current process
Outcome run_case(const Law& law, Case& c) {
    g_shared->tape_len = 0;
    g_rd_calls         = 0;
    g_rd_seed          = c.draw(1ULL << 32);
    ThreadArg      arg{&law, &c, {}};
    pthread_attr_t attr;
    pthread_attr_init(&attr);
    pthread_attr_setstacksize(&attr, 16u << 20);
    pthread_t th;
    g_shared->case_start = now_s();
    if (pthread_create(&th, &attr, case_thread, &arg) != 0) {
        std::perror("pthread_create");
        std::_Exit(3);
    }
    pthread_join(th, nullptr);
    pthread_attr_destroy(&attr);
    g_shared->case_start = 0.0;
    return arg.out;
}

void put(char* dst, std::size_t cap, const std::string& s) {
    const std::size_t n = std::min(cap - 1, s.size());
    std::memcpy(dst, s.data(), n);
    dst[n] = 0;
}

void silence_stdout() {
    std::cout.rdbuf(&g_null);
    const int fd = ::open("/dev/null", O_WRONLY);
    if (fd >= 0) {
        std::fflush(stdout);
        ::dup2(fd, 1);
        ::close(fd);
    }
}

std::string first_error_line(const std::string& path) {
    std::ifstream in(path);
    std::string   line, keep;
    while (std::getline(in, line)) {
        if (line.find("ERROR: AddressSanitizer") != std::string::npos ||
            line.find("runtime error:") != std::string::npos || line.find("Assertion") != std::string::npos ||
            line.find("terminate called") != std::string::npos) {
            keep = line;
            break;
        }
    }
    return keep;
}

struct ChildResult {
    int         verdict = 0;  // 0 pass, 1 fail, 2 discard
    std::string tag, msg, desc;
};

// Runs one tape in a forked child with a timeout. sh is the shared block to use.
ChildResult run_tape(const Law& law, const std::vector<std::uint64_t>& tape, Shared* sh, double timeout, int tier,
                     const std::string& errfile, std::vector<std::uint64_t>* used = nullptr) {
    sh->verdict  = 0;
    sh->tape_len = 0;
    sh->tag[0] = sh->msg[0] = sh->desc[0] = 0;
    const pid_t pid = fork();
    if (pid == 0) {
        silence_stdout();
        const int efd = ::open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if (efd >= 0) ::dup2(efd, 2);
        g_shared = sh;
        g_replay = true;
        g_input  = tape;
        Case c;
        c.showing_ = true;
        c.tier_    = tier;
        const auto out = run_case(law, c);
        sh->verdict    = out.verdict;
        put(sh->tag, sizeof(sh->tag), out.tag);
        put(sh->msg, sizeof(sh->msg), out.msg);
        put(sh->desc, sizeof(sh->desc), c.show().str());
        std::_Exit(out.verdict);
    }
    ChildResult  r;
    const double t0     = now_s();
    int          status = 0;
    bool         timed  = false;
    useconds_t   nap    = 200;
    while (true) {
        const pid_t w = waitpid(pid, &status, WNOHANG);
        if (w == pid) break;
        if (now_s() - t0 > timeout) {
            kill(pid, SIGKILL);
            waitpid(pid, &status, 0);
            timed = true;
            break;
        }
        usleep(nap);
        nap = std::min<useconds_t>(nap * 2, 20000);
    }
    if (used) used->assign(sh->tape, sh->tape + sh->tape_len);
    if (timed) {
        r.verdict = 1;
        r.tag     = "hang";
        r.msg     = "the case did not finish within the time limit";
        return r;
    }
    if (WIFEXITED(status) && WEXITSTATUS(status) <= 2) {
        r.verdict = WEXITSTATUS(status);
        r.tag     = sh->tag;
        r.msg     = sh->msg;
        r.desc    = sh->desc;
        return r;
    }
    r.verdict = 1;
    r.tag     = "crash";
    std::ostringstream oss;
    if (WIFSIGNALED(status)) {
        oss << "killed by signal " << WTERMSIG(status);
    } else {
        oss << "exit code " << WEXITSTATUS(status);
    }
    oss << " " << first_error_line(errfile);
    r.msg  = oss.str();
    r.desc = sh->desc;
    return r;
}

struct Known {
    std::string law, tag;
};

std::vector<Known> load_known(const std::string& path) {
    std::vector<Known> out;
    std::ifstream      in(path);
    std::string        line;
    while (std::getline(in, line)) {
        std::istringstream iss(line);
        Known              k;
        if (iss >> k.law >> k.tag) out.push_back(k);
    }
    return out;
}

bool is_known(const std::vector<Known>& ks, const std::string& law, const std::string& tag) {
    for (const auto& k : ks)
        if (k.law == law && k.tag == tag) return true;
    return false;
}

std::string json_escape(const std::string& s) {
    std::ostringstream o;
    for (unsigned char c : s) {
        switch (c) {
            case '"': o << "\\\""; break;
            case '\\': o << "\\\\"; break;
            case '\n': o << "\\n"; break;
            case '\t': o << "\\t"; break;
            case '\r': o << "\\r"; break;
            default:
                if (c < 0x20 || c >= 0x7f) {
                    char b[8];
                    std::snprintf(b, sizeof b, "\\u%04x", c);
                    o << b;
                } else
                    o << c;
        }
    }
    return o.str();
}

std::vector<std::uint64_t> shrink(const Law& law, std::vector<std::uint64_t> best, ChildResult& best_res, Shared* sh,
                                  int tier, double budget_s, const std::string& errfile, std::size_t& tries) {
    const double t0      = now_s();
    const double timeout = best_res.tag == "hang" ? 3.0 : 10.0;
    auto         ok      = [&](const std::vector<std::uint64_t>& cand) {
        if (now_s() - t0 > budget_s) return false;
        ++tries;
        std::vector<std::uint64_t> used;
        auto                       r = run_tape(law, cand, sh, timeout, tier, errfile, &used);
        if (r.verdict == 1 && r.tag == best_res.tag) {
            // normalise to what was really consumed
            if (used.size() <= cand.size() || best.empty()) {
                best = used;
            } else {
                best = cand;
            }
            best_res = r;
            return true;
        }
        return false;
    };
    bool progress = true;
    while (progress && now_s() - t0 < budget_s) {
        progress = false;
        // delete chunks
        for (std::size_t len = std::max<std::size_t>(1, best.size() / 2); len >= 1; len /= 2) {
            for (std::size_t i = 1; i + len <= best.size();) {
                auto cand = best;
                cand.erase(cand.begin() + i, cand.begin() + i + len);
                const auto before = best.size();
                if (ok(cand) && best.size() < before) {
                    progress = true;
                } else {
                    i += len;
                }
                if (now_s() - t0 > budget_s) break;
            }
            if (len == 1 || now_s() - t0 > budget_s) break;
        }
        // zero chunks
        for (std::size_t len = std::max<std::size_t>(1, best.size() / 2); len >= 1; len /= 2) {
            for (std::size_t i = 0; i + len <= best.size(); i += len) {
                bool any = false;
                for (std::size_t j = i; j < i + len; ++j) any |= best[j] != 0;
                if (!any) continue;
                auto cand = best;
                std::fill(cand.begin() + i, cand.begin() + i + len, 0);
                if (ok(cand)) progress = true;
                if (now_s() - t0 > budget_s) break;
            }
            if (len == 1 || now_s() - t0 > budget_s) break;
        }
        // lower single entries by binary search
        for (std::size_t i = 0; i < best.size() && now_s() - t0 < budget_s; ++i) {
            if (i == 0) continue;
            std::uint64_t lo = 0, hi = i < best.size() ? best[i] : 0;
            std::size_t   guard = 0;
            while (lo < hi && guard++ < 40) {
                const std::uint64_t mid  = lo + (hi - lo) / 2;
                auto                cand = best;
                cand[i]                  = mid;
                if (ok(cand)) {
                    progress = true;
                    if (i >= best.size()) break;
                    hi = best[i];
                } else {
                    lo = mid + 1;
                }
                if (now_s() - t0 > budget_s) break;
            }
        }
    }
    return best;
}

void write_replay(const std::string& path, const Law& law, int tier, const std::vector<std::uint64_t>& tape,
                  const ChildResult& r) {
    std::ofstream o(path);
    o << "law " << law.name << "\n";
    o << "tier " << tier << "\n";
    o << "tape";
    for (auto v : tape) o << " " << v;
    o << "\n";
    o << "tag " << r.tag << "\n";
    o << "message " << r.msg << "\n";
    o << "--- input ---\n" << r.desc << "\n";
}

const Law* find_law(const std::string& name) {
    for (const auto& l : pbt::laws())
        if (l.name == name) return &l;
    return nullptr;
}

}  // namespace

int main(int argc, char** argv) {
    std::string mode = argc > 1 ? argv[1] : "run";
    std::map<std::string, std::string> opt;
    std::string                        positional;
    for (int i = 2; i < argc; ++i) {
        std::string a = argv[i];
        if (a.rfind("--", 0) == 0 && i + 1 < argc) {
            opt[a.substr(2)] = argv[++i];
        } else {
            positional = a;
        }
    }
    const std::string scratch = opt.count("scratch") ? opt["scratch"] : "/tmp";

    if (mode == "laws") {
        for (const auto& l : pbt::laws()) std::cout << l.name << "\n";
        return 0;
    }
    if (mode == "replay") {
        std::ifstream in(positional);
        std::string   line, name;
        int           tier = 0;
        std::vector<std::uint64_t> tape;
        while (std::getline(in, line)) {
            std::istringstream iss(line);
            std::string        key;
            iss >> key;
            if (key == "law") iss >> name;
            if (key == "tier") iss >> tier;
            if (key == "tape") {
                std::uint64_t v;
                while (iss >> v) tape.push_back(v);
                break;
            }
        }
        const Law* law = find_law(name);
        if (!law) {
            std::cerr << "unknown law " << name << "\n";
            return 2;
        }
        Shared* sh = map_shared();
        auto    r  = run_tape(*law, tape, sh, 60.0, tier, scratch + "/replay.err");
        std::cout << (r.verdict == 1 ? "FAIL " : "PASS ") << name << " tag=" << r.tag << "\n" << r.msg << "\n" << r.desc
                  << "\n";
        return r.verdict == 1 ? 1 : 0;
    }

    const std::uint64_t seed    = opt.count("seed") ? std::strtoull(opt["seed"].c_str(), nullptr, 10) : 1;
    const int           tier    = opt.count("tier") && opt["tier"] == "thorough" ? 1 : 0;
    const int           workers = opt.count("workers") ? std::atoi(opt["workers"].c_str()) : 8;
    const double        cap_s   = opt.count("cap") ? std::atof(opt["cap"].c_str()) : 300.0;
    const double        scale   = opt.count("scale") ? std::atof(opt["scale"].c_str()) : 1.0;
    const std::string   outpath = opt.count("out") ? opt["out"] : "/dev/stdout";
    const std::string   repdir  = opt.count("replay-dir") ? opt["replay-dir"] : scratch;
    const std::string   only    = opt.count("law") ? opt["law"] : "";
    const auto          known   = load_known(opt.count("known") ? opt["known"] : "");

    const double         t_begin = now_s();
    std::vector<Shared*> sh(workers);
    std::vector<pid_t>   pids(workers);
    std::vector<bool>    done(workers, false);
    for (int w = 0; w < workers; ++w) sh[w] = map_shared();

    for (int w = 0; w < workers; ++w) {
        const pid_t pid = fork();
        if (pid == 0) {
            silence_stdout();
            const std::string errfile = scratch + "/worker" + std::to_string(w) + ".err";
            const int         efd     = ::open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
            if (efd >= 0) ::dup2(efd, 2);
            g_shared = sh[w];
            g_replay = false;
            std::ofstream stats(scratch + "/worker" + std::to_string(w) + ".stats");
            const auto&   ls = pbt::laws();
            for (std::size_t li = 0; li < ls.size(); ++li) {
                const auto& law = ls[li];
                if (!only.empty() && law.name != only) continue;
                const std::size_t total =
                    std::max<std::size_t>(1, static_cast<std::size_t>(scale * (tier ? law.thorough_cases : law.quick_cases)));
                std::unordered_set<std::uint64_t>  distinct;
                std::map<std::string, std::size_t> labels;
                std::size_t                        evals = 0, nontriv = 0, discards = 0, known_hits = 0, samples = 0;
                bool                               cut = false;
                std::map<std::string, std::string> known_msgs;
                for (std::size_t i = w; i < total; i += workers) {
                    if (now_s() - t_begin > cap_s) {
                        cut = true;
                        break;
                    }
                    std::uint64_t s = seed * 0x9e3779b97f4a7c15ULL ^ hash_str(law.name) ^ (i * 0xd1342543de82ef95ULL + 7);
                    splitmix(s);
                    g_rng               = splitmix(s);
                    sh[w]->law          = static_cast<std::int64_t>(li);
                    sh[w]->index        = i;
                    Case c;
                    c.tier_    = tier;
                    c.showing_ = samples < 2;
                    auto out   = run_case(law, c);
                    ++evals;
                    sh[w]->evaluations.fetch_add(1);
                    if (out.verdict == 2) {
                        ++discards;
                        continue;
                    }
                    if (out.verdict == 1) {
                        if (is_known(known, law.name, out.tag)) {
                            ++known_hits;
                            known_msgs.emplace(out.tag, out.msg);
                            continue;
                        }
                        sh[w]->verdict = 1;
                        put(sh[w]->tag, sizeof(sh[w]->tag), out.tag);
                        put(sh[w]->msg, sizeof(sh[w]->msg), out.msg);
                        stats.flush();
                        std::_Exit(1);
                    }
                    for (const auto& kv : c.labels_) labels[kv.first] += kv.second;
                    if (c.nontrivial_) {
                        ++nontriv;
                        std::uint64_t h = 1469598103934665603ULL;
                        // the first entry only seeds the library's generator
                        for (std::uint64_t k = 1; k < sh[w]->tape_len; ++k) {
                            h ^= sh[w]->tape[k] + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
                            h *= 1099511628211ULL;
                        }
                        distinct.insert(h);
                        if (samples < 2 && c.show().str().size()) {
                            ++samples;
                            std::string d = c.show().str();
                            if (d.size() > 1500) d = d.substr(0, 1500) + "...";
                            stats << "S " << law.name << " " << json_escape(d) << "\n";
                        }
                    }
                }
                {
                    std::ofstream hs(scratch + "/worker" + std::to_string(w) + ".hash", std::ios::binary | std::ios::app);
                    for (const auto h : distinct) {
                        const std::uint64_t rec[2] = {static_cast<std::uint64_t>(li), h};
                        hs.write(reinterpret_cast<const char*>(rec), sizeof rec);
                    }
                }
                stats << "L " << law.name << " " << evals << " " << nontriv << " " << discards << " " << known_hits << " "
                      << (cut ? 1 : 0) << " " << distinct.size() << "\n";
                for (const auto& kv : labels) stats << "C " << law.name << " " << kv.second << " " << kv.first << "\n";
                for (const auto& kv : known_msgs)
                    stats << "K " << law.name << " " << kv.first << " " << json_escape(kv.second) << "\n";
            }
            stats.flush();
            stats.close();
            std::_Exit(0);
        }
        pids[w] = pid;
    }

    int         failed_worker = -1;
    std::string fail_kind;
    int         remaining = workers;
    std::string worker_error;
    while (remaining > 0 && failed_worker < 0) {
        bool any = false;
        for (int w = 0; w < workers && failed_worker < 0; ++w) {
            if (done[w]) continue;
            int         status = 0;
            const pid_t r      = waitpid(pids[w], &status, WNOHANG);
            if (r == pids[w]) {
                any     = true;
                done[w] = true;
                --remaining;
                if (WIFEXITED(status) && WEXITSTATUS(status) == 0) continue;
                if (WIFEXITED(status) && WEXITSTATUS(status) == 3) {
                    worker_error = "worker could not start a thread";
                    continue;
                }
                failed_worker = w;
                fail_kind     = (WIFEXITED(status) && WEXITSTATUS(status) == 1) ? "fail" : "crash";
                if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) {
                    // killed from outside (memory pressure): not a verdict about the code unless it reproduces
                    fail_kind = "crash";
                }
            } else {
                const double cs = sh[w]->case_start.load();
                const auto   li = sh[w]->law.load();
                if (cs > 0.0 && now_s() - cs > pbt::laws()[li].timeout_s) {
                    kill(pids[w], SIGKILL);
                    waitpid(pids[w], &status, 0);
                    done[w] = true;
                    --remaining;
                    failed_worker = w;
                    fail_kind     = "hang";
                }
            }
        }
        if (!any) usleep(2000);
    }
    for (int w = 0; w < workers; ++w) {
        if (!done[w]) {
            kill(pids[w], SIGKILL);
            int st;
            waitpid(pids[w], &st, 0);
        }
    }

    std::ofstream out(outpath);
    out << "{";
    if (failed_worker >= 0) {
        Shared*                    s   = sh[failed_worker];
        const Law&                 law = pbt::laws()[s->law.load()];
        std::vector<std::uint64_t> tape(s->tape, s->tape + s->tape_len);
        ChildResult                first;
        first.tag = fail_kind == "fail" ? s->tag : fail_kind;
        first.msg = s->msg;
        Shared*           scratch_sh = map_shared();
        const std::string errfile    = scratch + "/shrink.err";
        // confirm: the case must fail again, three times, from its tape (code under test may be non deterministic, hence
        // a few more attempts than three)
        int         confirmed = 0;
        ChildResult conf;
        for (int k = 0; k < 9 && confirmed < 3; ++k) {
            auto r = run_tape(law, tape, scratch_sh, 60.0, tier, errfile);
            if (r.verdict == 1) {
                ++confirmed;
                conf = r;
            }
        }
        std::size_t tries = 0;
        if (confirmed == 3 && !is_known(known, law.name, conf.tag)) {
            auto res  = conf;
            auto best = shrink(law, tape, res, scratch_sh, tier, opt.count("shrink") ? std::atof(opt["shrink"].c_str()) : 40.0,
                               errfile, tries);
            // the shrunk tape must fail three times as well, otherwise keep the original
            int again = 0;
            for (int k = 0; k < 3; ++k) {
                auto r = run_tape(law, best, scratch_sh, 60.0, tier, errfile);
                if (r.verdict == 1 && r.tag == res.tag) ++again;
            }
            if (again != 3) {
                best = tape;
                res  = conf;
            }
            const std::string path = repdir + "/" + law.name + ".replay";
            write_replay(path, law, tier, best, res);
            out << "\"violation\":{\"law\":\"" << json_escape(law.name) << "\",\"tag\":\"" << json_escape(res.tag)
                << "\",\"message\":\"" << json_escape(res.msg) << "\",\"input\":\"" << json_escape(res.desc)
                << "\",\"replay\":\"" << json_escape(path) << "\",\"shrink_tries\":" << tries
                << ",\"tape_before\":" << tape.size() << ",\"tape_after\":" << best.size() << "},";
        } else {
            out << "\"unconfirmed\":{\"law\":\"" << json_escape(law.name) << "\",\"tag\":\"" << json_escape(first.tag)
                << "\",\"message\":\"" << json_escape(first.msg) << "\",\"confirmed\":" << confirmed << "},";
        }
    }
    if (!worker_error.empty()) out << "\"error\":\"" << worker_error << "\",";
    std::uint64_t evals = 0;
    for (int w = 0; w < workers; ++w) evals += sh[w]->evaluations.load();
    std::set<std::pair<std::uint64_t, std::uint64_t>> all_hashes;
    for (int w = 0; w < workers; ++w) {
        std::ifstream in(scratch + "/worker" + std::to_string(w) + ".hash", std::ios::binary);
        std::uint64_t rec[2];
        while (in.read(reinterpret_cast<char*>(rec), sizeof rec)) all_hashes.insert({rec[0], rec[1]});
    }
    std::map<std::uint64_t, std::uint64_t> per_law;
    for (const auto& h : all_hashes) ++per_law[h.first];
    out << "\"distinct\":{";
    {
        bool f = true;
        for (const auto& kv : per_law) {
            out << (f ? "" : ",") << "\"" << json_escape(pbt::laws()[kv.first].name) << "\":" << kv.second;
            f = false;
        }
    }
    out << "},\"evaluations\":" << evals << ",\"stats\":[";
    bool first = true;
    for (int w = 0; w < workers; ++w) {
        std::ifstream in(scratch + "/worker" + std::to_string(w) + ".stats");
        std::string   line;
        while (std::getline(in, line)) {
            out << (first ? "" : ",") << "\"" << json_escape(line) << "\"";
            first = false;
        }
    }
    out << "],\"wall_s\":" << now_s() - t_begin << "}\n";
    out.close();
    return 0;
}
