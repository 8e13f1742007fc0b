// pbt.hpp -- small property-based-testing engine (choice-sequence based, Hypothesis style).
//
//  * every random decision of a case is drawn from a Src; a case is therefore a pure function of its
//    choice sequence, which is what gets shrunk and written to the replay file;
//  * cases run in forked workers, so crashes / sanitizer aborts / endless loops of the code under test are
//    attributed to the case that caused them and are shrunk like ordinary oracle failures;
//  * the same property can be driven by libFuzzer (-DPBT_LIBFUZZER): bytes are decoded into choices.
#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP

#include <algorithm>
#include <array>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>
#include <unordered_set>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt {

struct Discard {};
struct Fail {
    std::string msg;
};

inline std::uint64_t mix(std::uint64_t x) {
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
inline std::uint64_t hashStr(std::string_view s, std::uint64_t h = 1469598103934665603ull) {
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h;
}
// monotonic time that cannot be affected by a virtual clock installed by a harness
inline double wallSeconds() {
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return double(ts.tv_sec) + 1e-9 * double(ts.tv_nsec);
}

inline std::string show(std::string_view s, std::size_t maxLen = 400) {
    std::string r = "\"";
    std::size_t n = 0;
    for (unsigned char c : s) {
        if (n++ >= maxLen) {
            r += "...(" + std::to_string(s.size()) + " bytes)";
            break;
        }
        if (c == '"' || c == '\\') (r += '\\') += char(c);
        else if (c >= 32 && c < 127) r += char(c);
        else {
            char b[8];
            std::snprintf(b, sizeof b, "\\x%02x", c);
            r += b;
        }
    }
    return r + "\"";
}
template<typename T>
    requires std::is_arithmetic_v<T>
std::string show(T v) {
    if constexpr (std::is_same_v<T, bool>) return v ? "true" : "false";
    else if constexpr (std::is_floating_point_v<T>) {
        char b[64];
        std::snprintf(b, sizeof b, "%.17g", double(v));
        return b;
    } else return std::to_string(v);
}
template<typename T>
std::string showVec(const T &v, std::size_t maxN = 40) {
    std::string r = "[";
    std::size_t i = 0;
    for (const auto &e : v) {
        if (i++) r += ", ";
        if (i > maxN) {
            r += "...";
            break;
        }
        r += show(e);
    }
    return r + "]";
}

class Src {
public:
    enum class Mode { Random,
        Replay,
        Bytes };
    Mode                       mode = Mode::Random;
    std::uint64_t              state = 0;
    std::vector<std::uint64_t> rec;
    const std::vector<std::uint64_t> *in = nullptr;
    const std::uint8_t        *bytes = nullptr;
    std::size_t                nBytes = 0, pos = 0;
    std::uint64_t             *mirror = nullptr;
    bool                       isNontrivial = false;
    bool                       verbose      = false;
    std::vector<std::string>   labels;
    std::string                notes;

    std::uint64_t raw() {
        state += 0x9E3779B97F4A7C15ull;
        return mix(state);
    }
    // uniform in [0, maxIncl]; smaller values are "simpler"
    std::uint64_t draw(std::uint64_t maxIncl) {
        std::uint64_t v = 0;
        if (maxIncl == 0) return 0;
        switch (mode) {
        case Mode::Random: v = maxIncl == ~0ull ? raw() : raw() % (maxIncl + 1); break;
        case Mode::Replay: v = pos < in->size() ? std::min((*in)[pos], maxIncl) : 0; ++pos; break;
        case Mode::Bytes: {
            int nb = maxIncl < 256 ? 1 : maxIncl < 65536 ? 2 : maxIncl < (1ull << 32) ? 4 : 8;
            for (int i = 0; i < nb; ++i) v |= std::uint64_t(pos < nBytes ? bytes[pos++] : 0) << (8 * i);
            if (maxIncl != ~0ull) v %= (maxIncl + 1);
            break;
        }
        }
        rec.push_back(v);
        if (mirror && rec.size() < (1u << 20)) { // crash-proof recording into shared memory
            mirror[rec.size()] = v;
            mirror[0]          = rec.size();
        }
        return v;
    }
    std::size_t below(std::size_t n) { return n <= 1 ? 0 : std::size_t(draw(n - 1)); }
    // inclusive range, shrinks towards lo
    template<typename T = std::int64_t>
    T range(T lo, T hi) { return static_cast<T>(static_cast<std::uint64_t>(lo) + draw(static_cast<std::uint64_t>(hi) - static_cast<std::uint64_t>(lo))); }
    // true with probability num/den; shrinks to false
    bool chance(unsigned num, unsigned den) { return draw(den - 1) >= den - num; }
    bool coin() { return chance(1, 2); }
    template<typename C>
    const auto &pick(const C &c) { return *std::next(std::begin(c), static_cast<std::ptrdiff_t>(below(std::size(c)))); }
    template<typename T>
    T oneOf(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
    // weighted choice: returns the index
    std::size_t weighted(std::initializer_list<unsigned> w) {
        std::uint64_t tot = 0;
        for (auto x : w) tot += x;
        std::uint64_t v = draw(tot - 1);
        std::size_t   i = 0;
        for (auto x : w) {
            if (v < x) return i;
            v -= x;
            ++i;
        }
        return 0;
    }
    // length, biased to small but regularly large
    std::size_t size(std::size_t max) {
        switch (weighted({ 6, 3, 1 })) {
        case 0: return below(std::min<std::size_t>(max, 8) + 1);
        case 1: return below(std::min<std::size_t>(max, 40) + 1);
        default: return below(max + 1);
        }
    }
    template<typename T>
    T integer() { // boundary-biased full-range integer
        using L = std::numeric_limits<T>;
        switch (weighted({ 4, 3, 2, 3 })) {
        case 0: return static_cast<T>(range<std::int64_t>(0, 20));
        case 1: {
            static const std::int64_t off[] = { 0, 1, -1, 2, -2 };
            static const T            base[] = { T(0), L::max(), L::min(), T(L::max() / 2), T(10), T(100), T(127), T(-128), T(255), T(1000) };
            return static_cast<T>(static_cast<std::uint64_t>(base[below(10)]) + static_cast<std::uint64_t>(off[below(5)]));
        }
        case 2: { // power of two +- 1
            const unsigned sh = unsigned(below(sizeof(T) * 8));
            return static_cast<T>((1ull << sh) + std::uint64_t(range<std::int64_t>(-1, 1)) + 0ull);
        }
        default: return static_cast<T>(draw(~0ull));
        }
    }
    template<typename T>
    T floating(bool finiteOnly = true) {
        T v{};
        switch (weighted({ 3, 3, 2, 3 })) {
        case 0: v = static_cast<T>(range<std::int64_t>(-20, 20)); break;
        case 1: v = static_cast<T>(range<std::int64_t>(-1000000, 1000000)) / static_cast<T>(oneOf<int>({ 1, 2, 3, 7, 10, 1000 })); break;
        case 2: {
            using L                = std::numeric_limits<T>;
            static const T specials[] = { T(0), -T(0), L::min(), L::max(), L::lowest(), L::denorm_min(), L::epsilon(), T(1) / T(3), T(0.1), T(1e10), T(1e-10) };
            v = specials[below(11)];
            if (!finiteOnly && chance(1, 4)) v = oneOf<T>({ L::infinity(), -L::infinity(), L::quiet_NaN() });
            break;
        }
        default: {
            if constexpr (sizeof(T) == 8) {
                std::uint64_t b = draw(~0ull);
                std::memcpy(&v, &b, 8);
            } else {
                std::uint32_t b = std::uint32_t(draw(0xffffffffu));
                std::memcpy(&v, &b, 4);
            }
            if (finiteOnly && !(v - v == T(0))) v = T(1.5);
        }
        }
        return v;
    }
    // string over a given alphabet
    std::string str(std::size_t maxLen, std::string_view alphabet) {
        std::string s;
        const auto  n = size(maxLen);
        s.reserve(n);
        for (std::size_t i = 0; i < n; ++i) s += alphabet[below(alphabet.size())];
        return s;
    }
    // arbitrary bytes, mostly printable
    std::string bytesStr(std::size_t maxLen) {
        std::string s;
        const auto  n    = size(maxLen);
        const auto  kind = weighted({ 3, 3, 2 });
        for (std::size_t i = 0; i < n; ++i) {
            if (kind == 0) s += char('a' + below(26));
            else if (kind == 1) s += char(32 + below(95));
            else s += char(below(256));
        }
        return s;
    }
    void label(std::string l) { labels.push_back(std::move(l)); }
    void nontrivial(bool b = true) { isNontrivial = isNontrivial || b; }
    void note(std::string_view s) {
        if (notes.size() < 4000) {
            notes += s;
            notes += '\n';
        }
        if (verbose) std::fprintf(stderr, "  %.*s\n", int(s.size()), s.data());
    }
    [[noreturn]] void fail(std::string m) { throw Fail{ std::move(m) }; }
    void              check(bool ok, std::string_view m) {
        if (!ok) throw Fail{ std::string(m) };
    }
    template<typename F>
        requires std::is_invocable_r_v<std::string, F>
    void check(bool ok, F &&m) {
        if (!ok) throw Fail{ m() };
    }
    template<typename A, typename B, typename... R>
    void check(bool ok, const A &a, const B &b, const R &...r) { // the message is only put together on failure
        if (ok) return;
        std::ostringstream o;
        o << a << b;
        ((o << r), ...);
        throw Fail{ o.str() };
    }
    template<typename A, typename B, typename... R>
    void note(const A &a, const B &b, const R &...r) {
        if (!verbose && notes.size() >= 4000) return;
        std::ostringstream o;
        o << a << b;
        ((o << r), ...);
        note(o.str());
    }
    void assume(bool ok) {
        if (!ok) throw Discard{};
    }
};

struct Prop {
    std::string               name, rule;
    std::function<void(Src &)> fn;
    std::uint64_t             quick = 1000, thorough = 100000;
    bool                      nondet  = false; // real threads: a failure may not reproduce from its choices
    int                       maxWorkers = 64;
    int                       cpuLimit = 20; // seconds of CPU time per case
    bool                      wallLimit = false; // cpuLimit is a wall limit (blocking code)
    bool                      exhaustive = false; // fn enumerates a finite space itself; run exactly `quick` cases with index as single choice
};
inline std::vector<Prop> &registry() {
    static std::vector<Prop> r;
    return r;
}
inline Prop &add(Prop p) {
    registry().push_back(std::move(p));
    return registry().back();
}
struct Reg {
    explicit Reg(Prop p) { add(std::move(p)); }
};
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
// PROPERTY(name, quickCases, thoroughCases, rule, extra designated initialisers...) { body using Src &s }
#define PROPERTY(NAME, QUICK, THOROUGH, RULE, ...) \
    static void PBT_CAT(pbt_prop_, NAME)(pbt::Src &); \
    static pbt::Reg PBT_CAT(pbt_reg_, NAME)(pbt::Prop{ .name = #NAME, .rule = RULE, .fn = PBT_CAT(pbt_prop_, NAME), .quick = QUICK, .thorough = THOROUGH __VA_OPT__(, ) __VA_ARGS__ }); \
    static void PBT_CAT(pbt_prop_, NAME)([[maybe_unused]] pbt::Src & s)

// a listed known finding: demonstrated by a fixed input; kept out of the generators by construction
struct Probe {
    std::string           key;
    std::function<bool()> stillFails;
};
inline std::vector<Probe> &probes() {
    static std::vector<Probe> p;
    return p;
}
struct RegProbe {
    RegProbe(std::string k, std::function<bool()> f) { probes().push_back({ std::move(k), std::move(f) }); }
};

#if defined(PBT_LIBFUZZER)
// ------------------------------------------------------------------------------------------------ libFuzzer
inline const Prop *fuzzProp() {
    static const Prop *p = [] {
        const char *n = std::getenv("PBT_PROP");
        for (auto &q : registry())
            if (!n || q.name == n) return &q;
        std::fprintf(stderr, "no such prop\n");
        std::_Exit(9);
    }();
    return p;
}
} // namespace pbt
extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t *d, std::size_t n) {
    using namespace pbt;
    static std::uint64_t evals = 0, nontriv = 0;
    Src s;
    s.mode   = Src::Mode::Bytes;
    s.bytes  = d;
    s.nBytes = n;
    // remember the bytes of the case under way so that a crash can be converted into a replay file
    try {
        fuzzProp()->fn(s);
    } catch (const Discard &) {
    } catch (const Fail &f) {
        std::fprintf(stderr, "PBT-FAIL %s\n", f.msg.c_str());
        std::fflush(stderr);
        std::abort();
    } catch (const std::exception &e) {
        std::fprintf(stderr, "PBT-FAIL unexpected exception: %s\n", e.what());
        std::fflush(stderr);
        std::abort();
    }
    ++evals;
    nontriv += s.isNontrivial;
    if ((evals & 0xfff) == 0) {
        if (const char *p = std::getenv("PBT_FUZZ_STATS")) {
            if (FILE *f = std::fopen(p, "w")) {
                std::fprintf(f, "%llu %llu\n", (unsigned long long) evals, (unsigned long long) nontriv);
                std::fclose(f);
            }
        }
    }
    return 0;
}
namespace pbt {
#else
// ------------------------------------------------------------------------------------------------ runner
struct Slot {
    std::atomic<std::uint64_t> prop, idx, seed;
    std::atomic<int>           state; // 0 idle 1 running 2 failed 3 done
    std::atomic<std::uint64_t> evals, nontrivial, discards;
    char                       msg[4096];
    char                       sample[8][2048];
    std::atomic<int>           nSamples;
    char                       labels[64][64];
    std::atomic<std::uint64_t> labelCount[64];
    std::atomic<int>           nLabels;
};
inline std::atomic<std::uint8_t> *bloom = nullptr;
constexpr std::uint64_t           bloomBits = 1ull << 28;

struct Options {
    std::uint64_t seed = 1;
    std::string   tier = "quick", out, replay, only, replayOut;
    int           jobs = 8;
    double        maxSeconds = 0;
    double        scale      = 1.0;
    bool          verbose = false, stats = false;
    std::string   bytesFile;
};
inline Options &opts() {
    static Options o;
    return o;
}

inline volatile sig_atomic_t g_hangExit = 77;
inline void onAlarm(int) { _exit(77); }
inline void armTimer(int seconds, bool wall) {
    itimerval t{};
    t.it_value.tv_sec = seconds;
    setitimer(wall ? ITIMER_REAL : ITIMER_PROF, &t, nullptr);
}
inline void installTimerHandlers() {
    struct sigaction sa {};
    sa.sa_handler = onAlarm;
    sigaction(SIGPROF, &sa, nullptr);
    sigaction(SIGALRM, &sa, nullptr);
}

enum class Outcome { Pass,
    Discarded,
    Fail };
inline Outcome runCase(const Prop &p, Src &s, std::string &msg) {
    try {
        p.fn(s);
        return Outcome::Pass;
    } catch (const Discard &) {
        return Outcome::Discarded;
    } catch (const Fail &f) {
        msg = f.msg;
        return Outcome::Fail;
    } catch (const std::exception &e) {
        msg = std::string("unexpected exception escaped: ") + typeid(e).name() + ": " + e.what();
        return Outcome::Fail;
    } catch (...) {
        msg = "unexpected non-std exception escaped";
        return Outcome::Fail;
    }
}

inline std::uint64_t caseSeed(const Prop &p, std::uint64_t seed, std::uint64_t idx) { return mix(mix(hashStr(p.name) ^ mix(seed)) + idx); }

// run a fixed choice sequence in a child; returns 0 pass, 1 fail/crash/hang; fills msg
struct ChildResult {
    int                        code = 0; // 0 pass 1 fail 2 infrastructure
    std::string                msg;
    std::vector<std::uint64_t> rec;
    std::string                notes;
};
inline ChildResult runInChild(const Prop &p, const std::vector<std::uint64_t> *choices, std::uint64_t seed, bool verbose) {
    ChildResult  r;
    const size_t shmSize = 1 << 22;
    char        *shm     = static_cast<char *>(mmap(nullptr, shmSize, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    char         errName[] = "/tmp/pbt_err_XXXXXX";
    int          errFd     = mkstemp(errName);
    std::fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        installTimerHandlers();
        if (!verbose) {
            dup2(errFd, 2);
            dup2(errFd, 1);
        }
        armTimer(p.cpuLimit, p.wallLimit);
        Src s;
        if (choices) {
            s.mode = Src::Mode::Replay;
            s.in   = choices;
        } else {
            s.state = seed;
        }
        s.verbose = verbose;
        std::string msg;
        auto        oc = runCase(p, s, msg);
        std::size_t m  = std::min<std::size_t>(msg.size(), 4000);
        std::memcpy(shm, msg.data(), m);
        shm[m] = 0;
        std::size_t nn = std::min<std::size_t>(s.notes.size(), 8000);
        std::memcpy(shm + 4096, s.notes.data(), nn);
        shm[4096 + nn] = 0;
        std::fflush(nullptr);
        _exit(oc == Outcome::Fail ? 3 : 0);
    }
    int st = 0;
    if (pid < 0) {
        r.code = 2;
        return r;
    }
    // wall guard against blocked children: 4x the limit
    double t0 = wallSeconds();
    bool   killed = false;
    while (true) {
        pid_t w = waitpid(pid, &st, WNOHANG);
        if (w == pid) break;
        if (wallSeconds() - t0 > 6.0 * p.cpuLimit + 60) {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            killed = true;
            break;
        }
        timespec ts{ 0, wallSeconds() - t0 < 0.05 ? 200000 : 3000000 };
        nanosleep(&ts, nullptr);
    }
    auto errText = [&] {
        std::ifstream f(errName);
        std::stringstream ss;
        ss << f.rdbuf();
        auto t = ss.str();
        auto q = t.find("ERROR: ");
        if (q == std::string::npos) q = t.find("runtime error");
        if (q == std::string::npos) q = t.find("WARNING: ThreadSanitizer");
        if (q == std::string::npos) q = t.size() > 600 ? t.size() - 600 : 0;
        else q = q > 200 ? q - 200 : 0;
        return t.substr(q, 1500);
    };
    if (killed) {
        r.code = 2;
        r.msg  = "child blocked";
    } else if (WIFEXITED(st)) {
        int c = WEXITSTATUS(st);
        if (c == 0) r.code = 0;
        else if (c == 3) {
            r.code = 1;
            r.msg  = shm;
        } else if (c == 77) {
            r.code = 1;
            r.msg  = std::string("case did not finish within ") + std::to_string(p.cpuLimit) + (p.wallLimit ? " s" : " s of CPU time");
        } else {
            r.code = 1;
            r.msg  = "process exited with code " + std::to_string(c) + ": " + errText();
        }
    } else if (WIFSIGNALED(st)) {
        int sg = WTERMSIG(st);
        r.code = sg == SIGKILL ? 2 : 1;
        r.msg  = std::string("process died with signal ") + std::to_string(sg) + ": " + errText();
    }
    r.notes = shm + 4096;
    munmap(shm, shmSize);
    close(errFd);
    unlink(errName);
    return r;
}

// Recording the choices of a (possibly crashing) case: every draw is mirrored into shared memory.
inline std::vector<std::uint64_t> recordChoices(const Prop &p, std::uint64_t seed, const std::string *data = nullptr) {
    const size_t cap = (1 << 20) + 1;
    auto        *shm = static_cast<std::uint64_t *>(mmap(nullptr, cap * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    std::fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        installTimerHandlers();
        armTimer(p.cpuLimit, p.wallLimit);
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 2);
        dup2(nul, 1);
        Src s;
        s.state  = seed;
        s.mirror = shm;
        if (data) {
            s.mode   = Src::Mode::Bytes;
            s.bytes  = reinterpret_cast<const std::uint8_t *>(data->data());
            s.nBytes = data->size();
        }
        std::string msg;
        runCase(p, s, msg);
        _exit(0);
    }
    int st;
    waitpid(pid, &st, 0);
    std::vector<std::uint64_t> r(shm + 1, shm + 1 + shm[0]);
    munmap(shm, cap * 8);
    return r;
}

inline std::vector<std::uint64_t> shrink(const Prop &p, std::vector<std::uint64_t> cur, std::string &msg, double budget) {
    const double t0 = wallSeconds();
    auto         bad = [&](const std::vector<std::uint64_t> &c) {
        if (wallSeconds() - t0 > budget) return false;
        auto r = runInChild(p, &c, 0, false);
        if (r.code == 1) {
            msg = r.msg;
            return true;
        }
        return false;
    };
    auto inTime = [&] { return wallSeconds() - t0 < budget; };
    // drop trailing part
    for (std::size_t k = cur.size(); k > 0 && inTime(); k /= 2) {
        while (cur.size() > k && inTime()) {
            std::vector<std::uint64_t> c(cur.begin(), cur.end() - std::ptrdiff_t(k));
            if (bad(c)) cur = c;
            else break;
        }
    }
    bool changed = true;
    while (changed && inTime()) {
        changed = false;
        for (std::size_t len : { std::size_t(64), std::size_t(32), std::size_t(16), std::size_t(8), std::size_t(5), std::size_t(4), std::size_t(3), std::size_t(2), std::size_t(1) }) {
            if (len > cur.size()) continue;
            for (std::size_t i = cur.size() - len + 1; i-- > 0 && inTime();) {
                if (i + len > cur.size()) continue;
                auto c = cur;
                c.erase(c.begin() + std::ptrdiff_t(i), c.begin() + std::ptrdiff_t(i + len));
                if (bad(c)) {
                    cur     = c;
                    changed = true;
                }
            }
        }
        // remove one element and decrement an earlier count
        for (std::size_t i = 0; i < cur.size() && inTime(); ++i) {
            if (cur[i] == 0) continue;
            for (std::uint64_t v : { std::uint64_t(0), std::uint64_t(1), cur[i] / 2, cur[i] - 1 }) {
                if (v >= cur[i]) continue;
                auto c = cur;
                c[i]   = v;
                if (bad(c)) {
                    cur     = c;
                    changed = true;
                    break;
                }
                for (std::size_t len = 1; len <= 3 && i + 1 + len <= cur.size(); ++len) {
                    auto d = c;
                    d.erase(d.begin() + std::ptrdiff_t(i + 1), d.begin() + std::ptrdiff_t(i + 1 + len));
                    if (bad(d)) {
                        cur     = d;
                        changed = true;
                        goto next;
                    }
                }
            }
        next:;
        }
    }
    return cur;
}

inline void writeReplay(const std::string &path, const Prop &p, const std::vector<std::uint64_t> &c, const std::string &msg, const std::string &notes, std::uint64_t seed, std::uint64_t idx) {
    std::ofstream f(path);
    f << "prop " << p.name << "\n";
    f << "choices " << c.size();
    for (auto v : c) f << ' ' << v;
    f << "\n# found with seed " << seed << " case " << idx << "\n";
    std::istringstream ms(msg), ns(notes);
    std::string        l;
    while (std::getline(ms, l)) f << "# message: " << l << "\n";
    while (std::getline(ns, l)) f << "# case: " << l << "\n";
}

inline std::string jsonEsc(std::string_view s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') (r += '\\') += char(c);
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c >= 127) {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        } else r += char(c);
    }
    return r;
}

inline bool mergeLabel(Slot &sl, const std::string &l) {
    int n = sl.nLabels.load();
    for (int i = 0; i < n; ++i)
        if (std::strncmp(sl.labels[i], l.c_str(), 63) == 0) {
            sl.labelCount[i]++;
            return true;
        }
    if (n >= 64) return false;
    std::snprintf(sl.labels[n], 64, "%s", l.c_str());
    sl.labelCount[n] = 1;
    sl.nLabels       = n + 1;
    return true;
}

inline void worker(int w, int nW, Slot *slots, const Options &o, double deadline, std::size_t propIdx, std::uint64_t total) {
    installTimerHandlers();
    Slot       &sl = slots[w];
    const Prop &p  = registry()[propIdx];
    sl.prop        = propIdx;
    for (std::uint64_t i = std::uint64_t(w); i < total; i += std::uint64_t(nW)) {
        if (wallSeconds() > deadline) break;
        Src s;
        std::vector<std::uint64_t> idxChoice{ i };
        if (p.exhaustive) {
            s.mode = Src::Mode::Replay;
            s.in   = &idxChoice;
        } else s.state = caseSeed(p, o.seed, i);
        sl.idx   = i;
        sl.seed  = s.state;
        sl.state = 1;
        armTimer(p.cpuLimit, p.wallLimit);
        std::string msg;
        auto        oc = runCase(p, s, msg);
        armTimer(0, p.wallLimit);
        sl.evals++;
        if (oc == Outcome::Fail) {
            std::snprintf(sl.msg, sizeof sl.msg, "%s", msg.c_str());
            sl.state = 2;
            std::fflush(nullptr);
            _exit(3);
        }
        if (oc == Outcome::Discarded) sl.discards++;
        else if (s.isNontrivial) {
            std::uint64_t h = mix(propIdx + 77);
            for (auto v : s.rec) h = mix(h ^ v);
            std::uint64_t bit = h % bloomBits;
            auto          old = bloom[bit / 8].fetch_or(std::uint8_t(1u << (bit % 8)));
            if (!(old & (1u << (bit % 8)))) sl.nontrivial++;
            int ns = sl.nSamples;
            if (ns < 2 && !s.notes.empty()) {
                std::snprintf(sl.sample[ns], sizeof sl.sample[ns], "%s: %s", p.name.c_str(), s.notes.c_str());
                sl.nSamples = ns + 1;
            }
        }
        for (auto &l : s.labels) mergeLabel(sl, p.name + ":" + l);
        sl.state = 0;
    }
    sl.state = 3;
}

inline int report(const Prop &p, std::uint64_t seed, std::uint64_t idx, std::string msg, const Options &o) {
    std::fprintf(stderr, "[pbt] property %s: case %llu failed: %s\n", p.name.c_str(), (unsigned long long) idx, msg.substr(0, 1500).c_str());
    std::vector<std::uint64_t> choices;
    if (p.exhaustive) choices = { idx };
    else choices = recordChoices(p, seed);
    auto r = runInChild(p, &choices, 0, false);
    if (p.nondet) {
        for (int k = 0; k < 10 && r.code != 1; ++k) r = runInChild(p, &choices, 0, false);
        if (r.code == 1) msg = r.msg;
        writeReplay(o.replayOut, p, choices, msg, r.notes, seed, idx);
        std::printf("PBT-VIOLATION prop=%s replay=%s :: %s\n", p.name.c_str(), o.replayOut.c_str(), msg.substr(0, 600).c_str());
        return 1;
    }
    if (r.code != 1) {
        // not reproducible from the recorded choices: try the seed itself
        r = runInChild(p, nullptr, seed, false);
        if (r.code != 1) {
            std::fprintf(stderr, "[pbt] failure did not reproduce; ignored as non-deterministic: %s\n", msg.c_str());
            return 5;
        }
        std::fprintf(stderr, "[pbt] reproduces from seed only\n");
    } else {
        msg     = r.msg;
        if (!p.exhaustive) choices = shrink(p, choices, msg, p.cpuLimit > 20 ? 120 : 60);
    }
    int again = 0;
    for (int k = 0; k < 3; ++k) {
        auto q = runInChild(p, &choices, 0, false);
        again += q.code == 1;
        if (q.code == 1) {
            msg     = q.msg;
            r.notes = q.notes;
        }
    }
    if (again < 3) {
        std::fprintf(stderr, "[pbt] failure reproduced only %d/3 times; treated as infrastructure noise: %s\n", again, msg.c_str());
        return 5;
    }
    writeReplay(o.replayOut, p, choices, msg, r.notes, seed, idx);
    std::printf("PBT-VIOLATION prop=%s replay=%s :: %s\n", p.name.c_str(), o.replayOut.c_str(), msg.substr(0, 600).c_str());
    return 1;
}

inline int runReplay(const Options &o) {
    std::ifstream f(o.replay);
    std::string   tok, name;
    std::vector<std::uint64_t> c;
    while (f >> tok) {
        if (tok == "prop") f >> name;
        else if (tok == "choices") {
            std::size_t n;
            f >> n;
            c.resize(n);
            for (auto &v : c) f >> v;
        } else std::getline(f, tok);
    }
    for (auto &p : registry())
        if (p.name == name) {
            auto r = runInChild(p, &c, 0, true);
            std::fprintf(stderr, "%s", r.notes.c_str());
            std::printf("%s: %s\n", r.code == 1 ? "FAILS" : "passes", r.msg.c_str());
            return r.code == 1 ? 1 : 0;
        }
    return 9; // prop not in this binary
}

inline int runMain(int argc, char **argv) {
    Options &o = opts();
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto        nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") o.seed = std::stoull(nx());
        else if (a == "--tier") o.tier = nx();
        else if (a == "--out") o.out = nx();
        else if (a == "--replay") o.replay = nx();
        else if (a == "--replay-out") o.replayOut = nx();
        else if (a == "--only") o.only = nx();
        else if (a == "--jobs") o.jobs = std::stoi(nx());
        else if (a == "--max-seconds") o.maxSeconds = std::stod(nx());
        else if (a == "--scale") o.scale = std::stod(nx());
        else if (a == "--bytes") o.bytesFile = nx();
        else if (a == "-v") o.verbose = true;
    }
    if (o.replayOut.empty()) o.replayOut = "/tmp/pbt_replay.txt";
    if (!o.replay.empty()) return runReplay(o);
    if (!o.bytesFile.empty()) { // a failing libFuzzer input: decode, shrink, report
        std::ifstream     f(o.bytesFile, std::ios::binary);
        std::stringstream ss;
        ss << f.rdbuf();
        static std::string data = ss.str();
        for (auto &p : registry())
            if (p.name == o.only) {
                const Prop &q = p;
                auto        c = recordChoices(q, 0, &data);
                auto r = runInChild(q, &c, 0, false);
                if (r.code != 1) {
                    std::fprintf(stderr, "[pbt] fuzzer finding does not reproduce under the replay build\n");
                    return 5;
                }
                std::string msg = r.msg;
                c               = shrink(q, c, msg, 60);
                int again       = 0;
                for (int k = 0; k < 3; ++k) {
                    auto x = runInChild(q, &c, 0, false);
                    again += x.code == 1;
                    r.notes = x.notes;
                }
                if (again < 3) return 5;
                writeReplay(o.replayOut, q, c, msg, r.notes, 0, 0);
                std::printf("PBT-VIOLATION prop=%s replay=%s :: %s\n", q.name.c_str(), o.replayOut.c_str(), msg.substr(0, 600).c_str());
                return 1;
            }
        return 9;
    }

    const double t0       = wallSeconds();
    const double cap      = o.maxSeconds > 0 ? o.maxSeconds : (o.tier == "quick" ? 240.0 : 2400.0);
    const double deadline = t0 + cap;
    bloom = static_cast<std::atomic<std::uint8_t> *>(mmap(nullptr, bloomBits / 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    std::uint64_t evals = 0, nontriv = 0, discards = 0;
    std::map<std::string, std::uint64_t> labels, perProp;
    std::vector<std::string>             samples;
    int                                  rc = 0;

    for (auto &pr : probes()) {
        std::fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0) {
            installTimerHandlers();
            armTimer(20, false);
            int nul = open("/dev/null", O_WRONLY);
            dup2(nul, 2);
            bool f = true;
            try {
                f = pr.stillFails();
            } catch (...) {
            }
            _exit(f ? 3 : 0);
        }
        int st;
        waitpid(pid, &st, 0);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) std::printf("PBT-KNOWN %s\n", pr.key.c_str());
    }

    std::string violation;
    for (std::size_t pi = 0; pi < registry().size() && rc != 1; ++pi) {
        const Prop &p = registry()[pi];
        if (!o.only.empty() && p.name != o.only) continue;
        const double pt0 = wallSeconds();
        std::uint64_t total = o.tier == "quick" ? p.quick : p.thorough;
        if (!p.exhaustive) total = std::max<std::uint64_t>(1, std::uint64_t(double(total) * o.scale));
        else total = p.quick;
        int  nW    = std::max(1, std::min(o.jobs, p.maxWorkers));
        auto *slots = static_cast<Slot *>(mmap(nullptr, sizeof(Slot) * std::size_t(nW), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        std::vector<pid_t> pids;
        std::vector<std::string> errs;
        for (int w = 0; w < nW; ++w) {
            char en[] = "/tmp/pbt_w_XXXXXX";
            int  fd   = mkstemp(en);
            errs.push_back(en);
            std::fflush(nullptr);
            pid_t pid = fork();
            if (pid == 0) {
                dup2(fd, 2);
                dup2(fd, 1);
                worker(w, nW, slots, o, deadline, pi, total);
                std::fflush(nullptr);
                _exit(0);
            }
            close(fd);
            pids.push_back(pid);
        }
        int  remaining = nW;
        int  bad       = -1;
        int  badStatus = 0;
        while (remaining > 0) {
            int   st;
            pid_t w = wait(&st);
            if (w < 0) break;
            auto it = std::find(pids.begin(), pids.end(), w);
            if (it == pids.end()) continue;
            int k = int(it - pids.begin());
            --remaining;
            pids[std::size_t(k)] = -1;
            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && bad < 0) {
                bad       = k;
                badStatus = st;
                for (auto q : pids)
                    if (q > 0) kill(q, SIGKILL);
            }
        }
        for (int w = 0; w < nW; ++w) {
            evals += slots[w].evals;
            perProp[p.name] += slots[w].evals;
            nontriv += slots[w].nontrivial;
            discards += slots[w].discards;
            for (int i = 0; i < slots[w].nSamples && w < 1; ++i) samples.push_back(slots[w].sample[i]);
            for (int i = 0; i < slots[w].nLabels; ++i) labels[slots[w].labels[i]] += slots[w].labelCount[i];
        }
        if (bad >= 0) {
            Slot       &sl  = slots[bad];
            std::string msg = sl.state == 2 ? std::string(sl.msg) : std::string();
            if (msg.empty()) {
                std::ifstream     f(errs[std::size_t(bad)]);
                std::stringstream ss;
                ss << f.rdbuf();
                auto t = ss.str();
                auto q = t.find("ERROR: ");
                if (q == std::string::npos) q = t.find("runtime error");
                if (q == std::string::npos) q = t.find("WARNING: ThreadSanitizer");
                msg = "crash (status " + std::to_string(badStatus) + ") " + (q == std::string::npos ? (t.size() > 800 ? t.substr(t.size() - 800) : t) : t.substr(q > 200 ? q - 200 : 0, 3000));
            }
            const bool infra = WIFSIGNALED(badStatus) && WTERMSIG(badStatus) == SIGKILL;
            if (infra) {
                std::fprintf(stderr, "[pbt] worker was killed (out of memory?); treated as infrastructure\n");
                rc = 6;
            } else {
                int r = report(p, sl.seed, sl.idx, msg, o);
                if (r == 1) rc = 1;
                else rc = rc ? rc : 5;
            }
        }
        for (auto &e : errs) unlink(e.c_str());
        munmap(slots, sizeof(Slot) * std::size_t(nW));
        if (o.verbose) std::fprintf(stderr, "[pbt] %-32s %10llu cases %6.1f s\n", p.name.c_str(), (unsigned long long) perProp[p.name], wallSeconds() - pt0);
    }
    if (!o.out.empty()) {
        std::ofstream f(o.out);
        f << "{\"evaluations\":" << evals << ",\"distinct_nontrivial\":" << nontriv << ",\"discarded\":" << discards << ",\"props\":{";
        bool first = true;
        for (auto &[k, v] : perProp) {
            f << (first ? "" : ",") << "\"" << jsonEsc(k) << "\":" << v;
            first = false;
        }
        f << "},\"rules\":[";
        first = true;
        for (auto &p : registry()) {
            f << (first ? "" : ",") << "\"" << jsonEsc(p.name + ": " + p.rule) << "\"";
            first = false;
        }
        f << "],\"labels\":{";
        first = true;
        for (auto &[k, v] : labels) {
            f << (first ? "" : ",") << "\"" << jsonEsc(k) << "\":" << v;
            first = false;
        }
        f << "},\"samples\":[";
        first = true;
        for (auto &v : samples) {
            f << (first ? "" : ",") << "\"" << jsonEsc(v) << "\"";
            first = false;
        }
        f << "],\"wall_s\":" << (wallSeconds() - t0) << ",\"rc\":" << rc << "}\n";
    }
    return rc;
}
#endif
} // namespace pbt

#if !defined(PBT_LIBFUZZER) && !defined(PBT_NO_MAIN)
int main(int argc, char **argv) { return pbt::runMain(argc, argv); }
#endif
#endif
