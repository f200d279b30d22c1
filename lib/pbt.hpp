// Minimal property-based testing engine: every generated value is decoded from a sequence of bounded integer choices.
// - random search: the choices come from a PRNG seeded by (VERIF_SEED, check name, case index);
// - shrinking: operates on the recorded choice sequence (delete / zero / minimise), so histories shrink as one value;
// - replay: a file holding the choice sequence (bypasses the search).
// Every case runs in a forked worker, so a crash, sanitizer report or hang is attributed to its case.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {

struct Fail : std::exception {
    std::string msg;
    explicit Fail(std::string m) : msg(std::move(m)) {}
    const char* what() const noexcept override { return msg.c_str(); }
};
struct Discard {};

inline uint64_t splitmix(uint64_t& x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

inline uint64_t hash_str(const std::string& s) {
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
    return h;
}

class Src {
public:
    explicit Src(uint64_t seed) : state(seed), replaying(false) {}
    explicit Src(std::vector<uint64_t> choices) : in(std::move(choices)), replaying(true) {}

    // Uniform integer in [0, bound]; 0 is the simplest choice.
    uint64_t draw(uint64_t bound) {
        uint64_t v;
        if (replaying) {
            v = pos < in.size() ? in[pos] : 0;
            ++pos;
            if (v > bound) v = bound == UINT64_MAX ? v : v % (bound + 1);
        } else {
            if (out.size() > 400000) throw Discard{};
            v = splitmix(state);
            if (bound != UINT64_MAX) v %= (bound + 1);
        }
        out.push_back(v);
        return v;
    }
    int64_t integer(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(draw(static_cast<uint64_t>(hi - lo))); }
    // integer whose distribution favours small offsets and the upper end
    int64_t size(int64_t lo, int64_t hi) {
        const uint64_t m = draw(3);
        if (m == 0) return integer(lo, std::min(hi, lo + 3));
        if (m == 1) return integer(lo, lo + (hi - lo) / 3);
        return integer(lo, hi);
    }
    bool boolean() { return draw(1) == 1; }
    // true with probability num/den; shrinks to false
    bool chance(uint64_t num, uint64_t den) { return draw(den - 1) >= den - num; }
    template<typename T>
    const T& pick(const std::vector<T>& v) { return v[draw(v.size() - 1)]; }
    template<typename T>
    T pick(std::initializer_list<T> v) { return v.begin()[draw(v.size() - 1)]; }
    double unit() { return static_cast<double>(draw((1ULL << 53) - 1)) / static_cast<double>((1ULL << 53) - 1); }
    double uniform(double lo, double hi) { return lo + (hi - lo) * unit(); }
    // Real in [lo, hi]: small integers, end points, or uniform.
    double real(double lo, double hi) {
        switch (draw(7)) {
            case 0: {
                const double base = lo <= 0.0 && hi >= 0.0 ? 0.0 : lo;
                double v = base + static_cast<double>(draw(3)) * (draw(1) ? -1.0 : 1.0);
                return std::min(hi, std::max(lo, v));
            }
            case 1: return draw(1) ? hi : lo;
            default: return uniform(lo, hi);
        }
    }
    double normal() {
        double u = unit(), v = unit();
        if (u < 1e-300) u = 1e-300;
        return std::sqrt(-2.0 * std::log(u)) * std::cos(6.283185307179586 * v);
    }
    // log-uniform magnitude with sign
    double wide(double emin = -6, double emax = 6) {
        if (draw(15) == 0) return 0.0;
        const double m = std::pow(10.0, uniform(emin, emax));
        return draw(1) ? -m : m;
    }

    void nontrivial(bool b = true) { nontrivial_ = nontrivial_ || b; }
    void label(const std::string& l) { labels.insert(l); }
    std::ostringstream& note() { return notes; }

    std::vector<uint64_t> out;
    bool nontrivial_{false};
    std::set<std::string> labels;
    std::ostringstream notes;

private:
    std::vector<uint64_t> in;
    std::size_t pos{0};
    uint64_t state{0};
    bool replaying;
};

struct Prop {
    std::string name;
    int quick;     // cases at the quick tier
    int thorough;  // cases at the thorough tier
    std::function<void(Src&)> fn;
    std::string rule;  // non-triviality rule
    bool finding{false};  // a recorded known finding: failing prints KNOWN-FINDING, never VIOLATION
};

inline std::vector<Prop>& registry() {
    static std::vector<Prop> r;
    return r;
}
struct Reg {
    Reg(std::string n, int q, int t, std::string rule, std::function<void(Src&)> f, bool finding = false) {
        registry().push_back({std::move(n), q, t, std::move(f), std::move(rule), finding});
    }
};

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PROPERTY(name, quick, thorough, rule)                                             \
    static void PBT_CAT(prop_, name)(pbt::Src & s);                                       \
    static pbt::Reg PBT_CAT(reg_, name)(#name, quick, thorough, rule, PBT_CAT(prop_, name)); \
    static void PBT_CAT(prop_, name)([[maybe_unused]] pbt::Src & s)

#define CHECK(cond, ...)                                                                              \
    do {                                                                                              \
        if (!(cond)) {                                                                                \
            std::ostringstream pbt_os;                                                                \
            pbt_os << "check failed: " #cond " | " << pbt::cat(__VA_ARGS__);                          \
            throw pbt::Fail(pbt_os.str());                                                            \
        }                                                                                             \
    } while (0)

inline std::string cat() { return ""; }
template<typename... A>
std::string cat(const A&... a) {
    std::ostringstream os;
    os.precision(17);
    (void)std::initializer_list<int>{((os << a), 0)...};
    return os.str();
}

#define CHECK_THROWS(expr, ...)                                                                       \
    do {                                                                                              \
        bool pbt_threw = false;                                                                       \
        try {                                                                                         \
            (void)(expr);                                                                             \
        } catch (const std::exception&) {                                                             \
            pbt_threw = true;                                                                         \
        }                                                                                             \
        CHECK(pbt_threw, "expected an exception from " #expr " ", ##__VA_ARGS__);                       \
    } while (0)

inline bool near(double a, double b, double tol) {
    if (std::isnan(a) || std::isnan(b)) return false;
    if (a == b) return true;
    return std::abs(a - b) <= tol;
}
inline bool rel_near(double a, double b, double rel, double abs_tol) {
    if (a == b) return true;
    return std::abs(a - b) <= abs_tol + rel * std::max(std::abs(a), std::abs(b));
}

// ------------------------------------------------------------------ engine
struct Shared {
    volatile uint64_t current;   // index+1 of the case being run
    volatile uint64_t done;      // finished cases
    volatile uint64_t failed;    // index+1 of a failing case (CHECK / exception)
    volatile double started;     // monotonic start time of the current case
    char msg[4096];
};

inline double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

enum class Outcome { PASS, FAIL, CRASH, HANG, DISCARD };

struct Result {
    Outcome outcome{Outcome::PASS};
    std::string msg;
};

// Runs in the current process.
inline Result run_here(const Prop& p, Src& s) {
    Result r;
    try {
        p.fn(s);
    } catch (const Discard&) {
        r.outcome = Outcome::DISCARD;
    } catch (const Fail& f) {
        r.outcome = Outcome::FAIL;
        r.msg = f.msg;
    } catch (const std::exception& e) {
        r.outcome = Outcome::FAIL;
        r.msg = std::string("unexpected exception: ") + e.what();
    } catch (...) {
        r.outcome = Outcome::FAIL;
        r.msg = "unexpected exception (not a std::exception)";
    }
    return r;
}

inline Shared* new_shared() {
    void* m = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) { perror("mmap"); exit(3); }
    std::memset(m, 0, sizeof(Shared));
    return static_cast<Shared*>(m);
}

inline bool& quiet_stdio() { static bool q = true; return q; }
inline void silence() {
    if (!quiet_stdio()) return;
    const int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 1);
    dup2(fd, 2);
    close(fd);
}

inline double& case_timeout() { static double t = 60.0; return t; }

// Runs one choice sequence in a child process.
inline Result run_forked(const Prop& p, const std::vector<uint64_t>& choices, std::vector<uint64_t>* used = nullptr,
        bool show = false) {
    Shared* sh = new_shared();
    const std::size_t cap = 1 << 20;
    uint64_t* buf = nullptr;
    if (used) {
        buf = static_cast<uint64_t*>(mmap(nullptr, cap * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    }
    fflush(nullptr);
    const pid_t pid = fork();
    if (pid == 0) {
        if (!show) silence();
        Src s(choices);
        const Result r = run_here(p, s);
        strncpy(sh->msg, r.msg.c_str(), sizeof(sh->msg) - 1);
        if (buf) {
            const std::size_t n = std::min(cap - 1, s.out.size());
            buf[0] = n;
            std::memcpy(buf + 1, s.out.data(), n * 8);
        }
        if (show && r.outcome == Outcome::FAIL) std::cerr << "notes: " << s.notes.str() << "\n";
        sh->done = 1;
        fflush(nullptr);
        _exit(r.outcome == Outcome::PASS ? 0 : r.outcome == Outcome::FAIL ? 1 : 2);
    }
    const double t0 = now();
    int st = 0;
    Result r;
    while (true) {
        const pid_t w = waitpid(pid, &st, WNOHANG);
        if (w == pid) break;
        if (now() - t0 > case_timeout()) {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            r.outcome = Outcome::HANG;
            r.msg = "case did not terminate within its time limit";
            munmap(sh, sizeof(Shared));
            if (buf) munmap(buf, cap * 8);
            return r;
        }
        usleep(300);
    }
    if (sh->done && WIFEXITED(st) && WEXITSTATUS(st) <= 2) {
        r.outcome = WEXITSTATUS(st) == 0 ? Outcome::PASS : WEXITSTATUS(st) == 1 ? Outcome::FAIL : Outcome::DISCARD;
        r.msg = sh->msg;
        if (used && buf && buf[0]) used->assign(buf + 1, buf + 1 + buf[0]);
    } else {
        r.outcome = Outcome::CRASH;
        r.msg = WIFSIGNALED(st) ? "crashed with signal " + std::to_string(WTERMSIG(st)) :
                                  "process aborted (sanitizer report or exit), status " + std::to_string(WEXITSTATUS(st));
    }
    munmap(sh, sizeof(Shared));
    if (buf) munmap(buf, cap * 8);
    return r;
}

inline bool bad(const Result& r) {
    return r.outcome == Outcome::FAIL || r.outcome == Outcome::CRASH || r.outcome == Outcome::HANG;
}

inline std::vector<uint64_t> shrink(const Prop& p, std::vector<uint64_t> best, double budget_s, Result& res) {
    const double end = now() + budget_s;
    auto attempt = [&](const std::vector<uint64_t>& c) -> bool {
        if (now() > end) return false;
        if (c == best) return false;
        std::vector<uint64_t> used;
        const Result r = run_forked(p, c, &used);
        if (r.outcome == res.outcome && bad(r)) {
            // canonicalise to the choices really used when that is no longer
            best = (!used.empty() && used.size() <= c.size()) ? used : c;
            res = r;
            return true;
        }
        return false;
    };
    bool progress = true;
    while (progress && now() < end) {
        progress = false;
        for (std::size_t chunk : {256, 64, 16, 8, 4, 2, 1}) {
            for (std::size_t i = 0; i + chunk <= best.size() && now() < end;) {
                std::vector<uint64_t> c(best);
                c.erase(c.begin() + i, c.begin() + i + chunk);
                if (attempt(c)) { progress = true; continue; }
                // delete while decrementing the previous (often a length)
                if (i > 0 && best[i - 1] > 0 && i + chunk <= best.size()) {
                    c = best;
                    c[i - 1] -= 1;
                    c.erase(c.begin() + i, c.begin() + i + chunk);
                    if (attempt(c)) { progress = true; continue; }
                }
                i += chunk;
            }
        }
        for (std::size_t chunk : {64, 8, 1}) {
            for (std::size_t i = 0; i < best.size() && now() < end; i += chunk) {
                std::vector<uint64_t> c(best);
                bool any = false;
                for (std::size_t j = i; j < std::min(best.size(), i + chunk); ++j) { any |= c[j] != 0; c[j] = 0; }
                if (any && attempt(c)) progress = true;
            }
        }
        for (std::size_t i = 0; i < best.size() && now() < end; ++i) {
            for (int k = 0; k < 12 && i < best.size() && best[i] > 0; ++k) {
                std::vector<uint64_t> c(best);
                c[i] = best[i] >> (1 + k);
                if (attempt(c)) { progress = true; break; }
            }
            if (i < best.size() && best[i] > 0) {
                std::vector<uint64_t> c(best);
                c[i] -= 1;
                if (attempt(c)) progress = true;
            }
        }
    }
    return best;
}

struct Options {
    std::string property, tier{"quick"}, out, replay_dir, replay, only;
    uint64_t seed{1};
    double budget{300};
    int jobs{0};
    double scale{1.0};
    bool verbose{false};
};

inline std::string json_escape(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}

inline uint64_t case_seed(const Options& o, const Prop& p, uint64_t i) {
    uint64_t x = o.seed * 0x9e3779b97f4a7c15ULL ^ hash_str(o.property + "/" + p.name);
    x += i * 0xd1342543de82ef95ULL;
    splitmix(x);
    return splitmix(x);
}

inline void write_replay(const std::string& path, const Options& o, const Prop& p, const std::vector<uint64_t>& c,
        const std::string& msg) {
    std::ofstream f(path);
    f << "property " << o.property << "\ncheck " << p.name << "\nmessage ";
    for (char ch : msg) f << (ch == '\n' ? ' ' : ch);
    f << "\nchoices " << c.size() << "\n";
    for (const auto v : c) f << v << "\n";
}

struct PropStats {
    uint64_t done{0}, nontrivial{0}, discarded{0};
    std::map<std::string, uint64_t> labels;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
};

inline int main_impl(int argc, char** argv) {
    Options o;
    for (int i = 1; i < argc; ++i) {
        const std::string a = argv[i];
        auto next = [&]() -> std::string { if (++i >= argc) { std::cerr << "missing argument\n"; exit(3); } return argv[i]; };
        if (a == "--property") o.property = next();
        else if (a == "--tier") o.tier = next();
        else if (a == "--seed") o.seed = std::strtoull(next().c_str(), nullptr, 10);
        else if (a == "--out") o.out = next();
        else if (a == "--replay-dir") o.replay_dir = next();
        else if (a == "--replay") o.replay = next();
        else if (a == "--only") o.only = next();
        else if (a == "--budget") o.budget = std::stod(next());
        else if (a == "--jobs") o.jobs = std::stoi(next());
        else if (a == "--scale") o.scale = std::stod(next());
        else if (a == "--case-timeout") case_timeout() = std::stod(next());
        else if (a == "--verbose") { o.verbose = true; quiet_stdio() = false; }
        else { std::cerr << "unknown option " << a << "\n"; return 3; }
    }
    if (!o.replay.empty()) {
        std::ifstream f(o.replay);
        std::string w, name, line;
        std::vector<uint64_t> c;
        while (f >> w) {
            if (w == "check") f >> name;
            else if (w == "choices") { std::size_t n; f >> n; c.resize(n); for (auto& v : c) f >> v; }
            else std::getline(f, line);
        }
        for (const auto& p : registry()) {
            if (p.name == name) {
                const Result r = run_forked(p, c, nullptr, true);
                std::cout << "replay " << name << ": " << (bad(r) ? "FAILS: " + r.msg : std::string("passes")) << "\n";
                return bad(r) ? 1 : 0;
            }
        }
        std::cerr << "no such check " << name << "\n";
        return 3;
    }
    const int jobs = o.jobs > 0 ? o.jobs : std::max(1L, sysconf(_SC_NPROCESSORS_ONLN));
    const double t_start = now();
    std::map<std::string, PropStats> stats;
    struct Violation { std::string prop, replay, msg; bool finding; };
    std::vector<Violation> violations;
    bool truncated = false;
    char tmpl[] = "/tmp/pbt.XXXXXX";
    const std::string tmp = mkdtemp(tmpl);
    std::size_t n_props = 0, i_prop = 0;
    for (const auto& p : registry()) if (o.only.empty() || p.name.find(o.only) == 0) ++n_props;
    for (const auto& p : registry()) {
        if (!o.only.empty() && p.name.find(o.only) != 0) continue;
        const double share = std::max(5.0, (o.budget - (now() - t_start)) / double(n_props - i_prop++));
        const double prop_end = now() + share;
        const double prop_t0 = now();
        const uint64_t total = std::max<uint64_t>(1, (o.tier == "thorough" ? p.thorough : p.quick) * o.scale);
        PropStats& ps = stats[p.name];
        const int nw = static_cast<int>(std::min<uint64_t>(jobs, total));
        std::vector<Shared*> sh(nw);
        std::vector<pid_t> pids(nw, -1);
        std::vector<uint64_t> next_case(nw);
        std::vector<int> state(nw, 0);  // 0 running, 1 finished
        int restarts = 0;
        auto spawn = [&](int w) {
            fflush(nullptr);
            const pid_t pid = fork();
            if (pid == 0) {
                silence();
                std::ofstream log(tmp + "/" + p.name + "." + std::to_string(w), std::ios::app);
                int sampled = 0;
                for (uint64_t i = next_case[w]; i < total; i += nw) {
                    if (now() > prop_end) { log << "T\n"; break; }
                    sh[w]->started = now();
                    sh[w]->current = i + 1;
                    Src s(case_seed(o, p, i));
                    const Result r = run_here(p, s);
                    if (bad(r)) {
                        strncpy(sh[w]->msg, r.msg.c_str(), sizeof(sh[w]->msg) - 1);
                        sh[w]->failed = i + 1;
                        log.flush();
                        _exit(1);
                    }
                    if (r.outcome == Outcome::DISCARD) log << "D\n";
                    else {
                        uint64_t h = 14695981039346656037ULL;
                        for (const auto v : s.out) { h = (h ^ v) * 1099511628211ULL; h ^= h >> 29; }
                        log << (s.nontrivial_ ? "N " : "C ") << h << "\n";
                        for (const auto& l : s.labels) log << "L " << l << "\n";
                        if (s.nontrivial_ && sampled < 3 && !s.notes.str().empty()) {
                            ++sampled;
                            std::string n = s.notes.str().substr(0, 600);
                            std::replace(n.begin(), n.end(), '\n', ' ');
                            log << "S " << n << "\n";
                        }
                    }
                    ++sh[w]->done;
                }
                log.flush();
                sh[w]->current = 0;
                _exit(0);
            }
            pids[w] = pid;
        };
        for (int w = 0; w < nw; ++w) { sh[w] = new_shared(); next_case[w] = w; spawn(w); }
        uint64_t fail_case = 0;
        Result fail_res;
        int alive = nw;
        while (alive > 0) {
            for (int w = 0; w < nw; ++w) {
                if (pids[w] < 0) continue;
                int st;
                const pid_t q = waitpid(pids[w], &st, WNOHANG);
                if (q == pids[w]) {
                    pids[w] = -1;
                    --alive;
                    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
                    // An external kill (out of memory) is not a verdict on the code: retried by the confirmation below.
                    const uint64_t c = sh[w]->failed ? sh[w]->failed : sh[w]->current;
                    if (c && (!fail_case || c < fail_case)) {
                        fail_case = c;
                        fail_res.outcome = sh[w]->failed ? Outcome::FAIL : Outcome::CRASH;
                        fail_res.msg = sh[w]->failed ? std::string(sh[w]->msg) : "worker died";
                    }
                } else if (sh[w]->current && sh[w]->started > 0 && now() - sh[w]->started > case_timeout()) {
                    kill(pids[w], SIGKILL);
                    waitpid(pids[w], &st, 0);
                    const uint64_t c = sh[w]->current;
                    pids[w] = -1;
                    --alive;
                    if (!fail_case) { fail_case = c; fail_res.outcome = Outcome::HANG; fail_res.msg = "hang"; }
                }
            }
            if (fail_case) {
                for (int w = 0; w < nw; ++w) if (pids[w] >= 0) { kill(pids[w], SIGKILL); int st; waitpid(pids[w], &st, 0); pids[w] = -1; --alive; }
                // Reconstruct the choices of the failing case and confirm three times.
                std::vector<uint64_t> choices;
                {
                    // regenerate by random source in a child which dumps the choices as they are drawn
                    const std::size_t cap = 1 << 20;
                    uint64_t* buf = static_cast<uint64_t*>(mmap(nullptr, cap * 8, PROT_READ | PROT_WRITE,
                            MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
                    // the stream of raw random values does not depend on bounds: draws beyond need are ignored on replay
                    uint64_t st = case_seed(o, p, fail_case - 1);
                    const std::size_t n = 400000;
                    choices.resize(n);
                    for (std::size_t k = 0; k < n; ++k) choices[k] = splitmix(st);
                    munmap(buf, cap * 8);
                }
                std::vector<uint64_t> used;
                Result r1 = run_forked(p, choices, &used);
                if (bad(r1) && !used.empty()) choices = used;
                else if (bad(r1)) {
                    // crash: find a short prefix that still crashes (the tail reads as zeros)
                    for (std::size_t n = 16; n < choices.size(); n *= 2) {
                        std::vector<uint64_t> c(choices.begin(), choices.begin() + n);
                        const Result r = run_forked(p, c);
                        if (r.outcome == r1.outcome) { choices = c; break; }
                    }
                }
                int confirmed = bad(r1) ? 1 : 0;
                for (int k = 0; k < 2; ++k) confirmed += bad(run_forked(p, choices)) ? 1 : 0;
                if (confirmed == 3) {
                    Result r = r1;
                    const double sb = r.outcome == Outcome::HANG ? 0.0 : (p.finding ? 2.0 : 25.0);
                    const std::vector<uint64_t> best = sb > 0 ? shrink(p, choices, sb, r) : choices;
                    const std::string path = o.replay_dir + "/" + o.property + "-" + p.name + ".replay";
                    if (!p.finding) write_replay(path, o, p, best, r.msg);
                    violations.push_back({p.name, path, r.msg, p.finding});
                } else if (restarts++ < 3) {
                    std::cerr << "note: case " << fail_case - 1 << " of " << p.name << " failed but did not reproduce (" << fail_res.msg << ")\n";
                    // skip past it
                    alive = 0;
                    for (int w = 0; w < nw; ++w) {
                        uint64_t nc = next_case[w] + sh[w]->done * nw;
                        if (nc == fail_case - 1) nc += nw;
                        next_case[w] = nc;
                        sh[w]->current = 0; sh[w]->failed = 0; sh[w]->done = 0;
                        spawn(w);
                        ++alive;
                    }
                    fail_case = 0;
                    continue;
                }
                break;
            }
            usleep(2000);
        }
        for (auto* m : sh) munmap(m, sizeof(Shared));
        for (int w = 0; w < nw; ++w) {
            std::ifstream log(tmp + "/" + p.name + "." + std::to_string(w));
            std::string line;
            while (std::getline(log, line)) {
                if (line.empty()) continue;
                if (line[0] == 'D') ++ps.discarded;
                else if (line[0] == 'T') truncated = true;
                else if (line[0] == 'N' || line[0] == 'C') {
                    ++ps.done;
                    if (line[0] == 'N') { ++ps.nontrivial; ps.distinct.insert(std::strtoull(line.c_str() + 2, nullptr, 10)); }
                } else if (line[0] == 'L') ++ps.labels[line.substr(2)];
                else if (line[0] == 'S' && ps.samples.size() < 3) ps.samples.push_back(line.substr(2));
            }
            unlink((tmp + "/" + p.name + "." + std::to_string(w)).c_str());
        }
        std::cerr << "  " << p.name << ": " << ps.done << " cases, " << ps.distinct.size() << " distinct non-trivial, "
                  << ps.discarded << " discarded, " << (now() - prop_t0) << " s" << std::endl;
        if (o.verbose) for (const auto& [l, c] : ps.labels) std::cerr << "      " << l << ": " << c << "\n";
    }
    rmdir(tmp.c_str());
    std::ofstream out(o.out.empty() ? "/dev/null" : o.out);
    out << "{\"seed\": " << o.seed << ", \"tier\": \"" << o.tier << "\", \"truncated\": " << (truncated ? "true" : "false")
        << ", \"wall_s\": " << now() - t_start << ", \"checks\": [";
    bool first = true;
    for (const auto& p : registry()) {
        const auto it = stats.find(p.name);
        if (it == stats.end()) continue;
        const auto& ps = it->second;
        out << (first ? "" : ",") << "\n{\"name\": \"" << p.name << "\", \"evaluations\": " << ps.done
            << ", \"distinct_nontrivial\": " << ps.distinct.size() << ", \"discarded\": " << ps.discarded << ", \"rule\": \""
            << json_escape(p.rule) << "\", \"finding\": " << (p.finding ? "true" : "false") << ", \"labels\": {";
        bool f2 = true;
        for (const auto& [l, c] : ps.labels) { out << (f2 ? "" : ", ") << "\"" << json_escape(l) << "\": " << c; f2 = false; }
        out << "}, \"samples\": [";
        f2 = true;
        for (const auto& x : ps.samples) { out << (f2 ? "" : ", ") << "\"" << json_escape(x) << "\""; f2 = false; }
        out << "]}";
        first = false;
    }
    out << "], \"violations\": [";
    first = true;
    int rc = 0;
    for (const auto& v : violations) {
        out << (first ? "" : ",") << "{\"check\": \"" << v.prop << "\", \"finding\": " << (v.finding ? "true" : "false")
            << ", \"replay\": \"" << json_escape(v.replay) << "\", \"message\": \"" << json_escape(v.msg) << "\"}";
        first = false;
        std::cerr << (v.finding ? "  known: " : "  FAILED ") << v.prop << ": " << v.msg << "\n";
        if (!v.finding) rc = 1;
    }
    out << "]}\n";
    return rc;
}

}  // namespace pbt

#ifndef PBT_NO_MAIN
int main(int argc, char** argv) { return pbt::main_impl(argc, argv); }
#endif
