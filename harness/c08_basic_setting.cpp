// C08: a shared setting never shows a torn, stale or freed value and never makes the real-time thread wait, under every schedule.
#if !defined(REAL_THREADS)
#include "sched.hpp"
#include <BasicSetting.hpp>
using namespace opencmw;

static int liveObjects = 0;
struct Payload { // copies take several steps; use after destruction is detected
    vs::Wide<3>   v;
    std::uint64_t alive = 0xA11FE;
    Payload() { ++liveObjects; }
    explicit Payload(std::uint64_t x) : v(x) { ++liveObjects; }
    Payload(const Payload &o) : v(o.v) { check(o); ++liveObjects; }
    Payload &operator=(const Payload &o) {
        check(o);
        v = o.v;
        return *this;
    }
    ~Payload() {
        alive = 0xDEAD;
        --liveObjects;
    }
    static void check(const Payload &o) {
        if (o.alive != 0xA11FE) throw pbt::Fail{ "a destroyed value was accessed" };
    }
};
static std::uint64_t readStable(pbt::Src &s, const Payload &p, unsigned hold) {
    Payload::check(p);
    s.check(p.v.consistent(), "torn value: parts of different versions");
    const auto x = p.v.w[0];
    for (unsigned i = 0; i <= hold; ++i) {
        vs::point();
        Payload::check(p);
        s.check(p.v.consistent() && p.v.w[0] == x, "the value changed while it was being read under a guard");
    }
    return x;
}
PROPERTY(nonrt_writers, 800000, 3000000, "one real-time reader, 1-3 non-real-time writers (read-modify-write guards and replace), schedule drawn per synchronisation access; non-trivial = a write and a real-time read happened and 3 context switches") {
    liveObjects = 0;
    {
        BasicSetting<Payload, MutableOption::NonRealTimeMutable> set{ Payload(0) };
        vs::Sched sc(s, 2500, 60000);
        std::uint64_t committed = 0; // writer side order
        int           inWriter = 0;
        const int     reads = 1 + int(s.below(6));
        const int     nw    = 1 + int(s.below(3));
        int           writes = 0, writersLeft = nw;
        const bool    lowLevel = s.coin();
        std::vector<unsigned> holds;
        for (int i = 0; i < reads; ++i) holds.push_back(unsigned(s.below(5)));
        sc.spawn([&] {
            std::uint64_t last = 0;
            for (int i = 0; i < reads; ++i) {
                const auto b0 = sc.cur->blocks, p0 = sc.cur->points;
                std::uint64_t x;
                const auto low = committed;
                if (lowLevel) {
                    const auto &p = set.acquire<AccessType::RealTime>();
                    const auto  p1 = sc.cur->points;
                    s.check(sc.cur->blocks == b0 && p1 - p0 <= 20, "the real-time thread had to wait for access");
                    x = readStable(s, p, holds[std::size_t(i)]);
                    const auto b2 = sc.cur->blocks, p2 = sc.cur->points;
                    set.release<AccessType::RealTime>();
                    s.check(sc.cur->blocks == b2 && sc.cur->points - p2 <= 20, "the real-time thread had to wait for release");
                } else {
                    auto g = set.realTimeAccessGuard();
                    s.check(sc.cur->blocks == b0 && sc.cur->points - p0 <= 20, "the real-time thread had to wait for access");
                    x = readStable(s, g.get(), holds[std::size_t(i)]);
                    s.check(g->v.w[0] == x, "operator->");
                }
                s.check(x >= last, [&] { return "real-time reads went back from " + std::to_string(last) + " to " + std::to_string(x); });
                s.check(x >= low, [&] { return "real-time read returned " + std::to_string(x) + " although " + std::to_string(low) + " had been committed before"; });
                last = x;
            }
        }, "rt");
        for (int w = 0; w < nw; ++w) {
            struct Op { bool replace; unsigned hold; bool readOnly; };
            std::vector<Op> ops;
            for (std::size_t k = 1 + s.below(3); k > 0; --k) ops.push_back({ nw == 1 && s.coin(), unsigned(s.below(4)), s.chance(1, 4) });
            sc.spawn([&, ops] {
                for (auto &o : ops) {
                    if (o.replace) {
                        const auto nv = committed + 1;
                        ++writes;
                        set.replace<AccessType::NonRealTime>(nv);
                        committed = nv;
                    } else {
                        std::uint64_t nv;
                        {
                            auto g = set.nonRealTimeAccessGuard();
                            s.check(++inWriter == 1, "two non-real-time threads have write access at the same time");
                            nv = readStable(s, g.get(), o.hold);
                            if (!o.readOnly) {
                                ++nv;
                                ++writes;
                                if (o.hold & 1) g = Payload(nv);
                                else g.get().v.set(nv);
                            }
                            --inWriter;
                        }
                        committed = std::max(committed, nv);
                    }
                }
                --writersLeft;
            }, "w" + std::to_string(w));
        }
        sc.run();
        const auto fin = set.realTimeAccessGuard().get().v.w[0];
        s.check(fin == std::uint64_t(writes), [&] { return "final value " + std::to_string(fin) + " after " + std::to_string(writes) + " increments: updates were lost"; });
        s.nontrivial(writes > 0 && sc.switches >= 3);
        s.note("reads=" + std::to_string(reads) + " writers=" + std::to_string(nw) + " writes=" + std::to_string(writes) + " switches=" + std::to_string(sc.switches));
    }
    s.check(liveObjects == 0, "values leaked or destroyed twice");
}
PROPERTY(rt_writer, 800000, 3000000, "one real-time writer (guard and replace), 1-3 non-real-time readers, schedule drawn per synchronisation access; non-trivial = at least two writes and 3 context switches") {
    BasicSetting<Payload, MutableOption::RealTimeMutable> set{ Payload(0) };
    vs::Sched     sc(s, 2500, 60000);
    std::uint64_t published = 0, started = 0;
    const int     nWrites = 1 + int(s.below(6));
    struct Op { bool replace; unsigned hold; };
    std::vector<Op> wops;
    for (int i = 0; i < nWrites; ++i) wops.push_back({ s.chance(1, 3), unsigned(s.below(3)) });
    sc.spawn([&] {
        for (auto &o : wops) {
            const auto b0 = sc.cur->blocks, p0 = sc.cur->points;
            const auto nv = ++started;
            if (o.replace) set.replace<AccessType::RealTime>(nv);
            else {
                auto g = set.realTimeAccessGuard();
                s.check(readStable(s, g.get(), 0) == nv - 1, [&] { return "the real-time thread does not see its own previous value " + std::to_string(nv - 1); });
                g.get().v.set(nv);
                for (unsigned i = 0; i < o.hold; ++i) vs::point();
            }
            published = nv;
            s.check(sc.cur->blocks == b0 && sc.cur->points - p0 <= 60, "the real-time thread had to wait");
        }
    }, "rt");
    const int nr = 1 + int(s.below(3));
    for (int r = 0; r < nr; ++r) {
        std::vector<unsigned> holds;
        for (std::size_t k = 1 + s.below(4); k > 0; --k) holds.push_back(unsigned(s.below(5)));
        const bool lowLevel = s.chance(1, 3);
        sc.spawn([&, holds, lowLevel] {
            std::uint64_t last = 0;
            for (auto h : holds) {
                const auto low = published;
                std::uint64_t x;
                if (lowLevel) {
                    const auto &p = set.acquire<AccessType::NonRealTime>();
                    x = readStable(s, p, h);
                    set.release<AccessType::NonRealTime>();
                } else {
                    auto g = set.nonRealTimeAccessGuard();
                    x = readStable(s, g.get(), h);
                }
                s.check(x >= last && x <= started, [&] { return "reads went from " + std::to_string(last) + " to " + std::to_string(x); });
                s.check(x >= low, [&] { return "read " + std::to_string(x) + " although " + std::to_string(low) + " had been published before"; });
                last = x;
            }
        }, "r" + std::to_string(r));
    }
    sc.run();
    { // lock outside a fiber is legal: nobody else runs
        auto g = set.nonRealTimeAccessGuard();
        s.check(g.get().v.consistent() && g.get().v.w[0] == published, "the last published value is not visible afterwards");
    }
    s.nontrivial(nWrites >= 2 && sc.switches >= 3);
    s.note("writes=" + std::to_string(nWrites) + " readers=" + std::to_string(nr) + " switches=" + std::to_string(sc.switches));
}
template<MutableOption M>
static void seqModel(pbt::Src &s) {
    constexpr auto Wt = M == MutableOption::RealTimeMutable ? AccessType::RealTime : AccessType::NonRealTime;
    constexpr auto Rt = M == MutableOption::RealTimeMutable ? AccessType::NonRealTime : AccessType::RealTime;
    BasicSetting<std::string, M> set{ std::string("init") };
    std::string m = "init";
    int w = 0;
    for (std::size_t k = s.below(25); k > 0; --k) {
        const auto v = s.str(40, "abc");
        switch (s.below(5)) {
        case 0: set.template replace<Wt>(v); m = v; ++w; break;
        case 1: { auto g = set.template accessGuard<Wt>(); s.check(static_cast<const std::string &>(g.get()) == m, "writer view"); g = v; m = v; ++w; break; }
        case 2: { auto g = set.template accessGuard<Wt>(); g->append(v); m += v; ++w; break; }
        case 3: { auto g = set.template accessGuard<Rt>(); s.check(g.get() == m && g->size() == m.size(), [&] { return "reader sees " + pbt::show(g.get()) + " instead of " + pbt::show(m); }); break; }
        default: { const std::string c = set.template acquire<Rt>(); set.template release<Rt>(); s.check(c == m, "acquire/release view"); }
        }
    }
    s.nontrivial(w >= 2);
    s.note("final=" + pbt::show(m));
}
PROPERTY(model_nonrt, 200000, 600000, "sequential histories of guards, replace and acquire/release against a plain variable; non-trivial = two writes") { seqModel<MutableOption::NonRealTimeMutable>(s); }
PROPERTY(model_rt, 200000, 600000, "same for the real-time-mutable flavour") { seqModel<MutableOption::RealTimeMutable>(s); }
#else
#include "pbt.hpp"
#include <array>
#include <BasicSetting.hpp>
#include <string>
#include <thread>
using namespace opencmw;
struct P { std::array<std::uint64_t, 16> a{}; std::string t = "0"; };
PROPERTY(real_threads_nonrt, 300, 1000, "real threads under ThreadSanitizer: 1 real-time reader, 2 writers; every case non-trivial", .nondet = true, .maxWorkers = 3, .cpuLimit = 60) {
    BasicSetting<P, MutableOption::NonRealTimeMutable> set;
    const int rounds = 50 + int(s.below(200));
    std::atomic<bool> bad = false, done = false;
    s.nontrivial();
    s.note("rounds=" + std::to_string(rounds));
    auto writer = [&] { for (int i = 0; i < rounds; ++i) { auto g = set.nonRealTimeAccessGuard(); for (auto &x : g.get().a) ++x; g.get().t = std::to_string(g.get().a[0]); } };
    std::thread rt([&] { std::uint64_t last = 0; while (!done) { auto g = set.realTimeAccessGuard(); const P &p = g.get(); for (auto x : p.a) if (x != p.a[0]) bad = true; if (p.a[0] < last || p.t != std::to_string(p.a[0])) bad = true; last = p.a[0]; } });
    std::thread w1(writer), w2(writer);
    w1.join(); w2.join(); done = true; rt.join();
    s.check(!bad, "torn or stale value");
    s.check(set.realTimeAccessGuard().get().a[3] == std::uint64_t(2 * rounds), "lost update");
}
PROPERTY(real_threads_rt, 300, 1000, "real threads under ThreadSanitizer: 1 real-time writer, 2 readers; every case non-trivial", .nondet = true, .maxWorkers = 3, .cpuLimit = 60) {
    BasicSetting<P, MutableOption::RealTimeMutable> set;
    const int rounds = 100 + int(s.below(400));
    std::atomic<bool> bad = false, done = false;
    s.nontrivial();
    s.note("rounds=" + std::to_string(rounds));
    auto reader = [&] { std::uint64_t last = 0; while (!done) { auto g = set.nonRealTimeAccessGuard(); const P &p = g.get(); for (auto x : p.a) if (x != p.a[0]) bad = true; if (p.a[0] < last || p.t != std::to_string(p.a[0])) bad = true; last = p.a[0]; } };
    std::thread r1(reader), r2(reader);
    for (int i = 0; i < rounds; ++i) { auto g = set.realTimeAccessGuard(); for (auto &x : g.get().a) ++x; g.get().t = std::to_string(g.get().a[0]); }
    done = true; r1.join(); r2.join();
    s.check(!bad, "torn or stale value");
    s.check(set.nonRealTimeAccessGuard().get().a[3] == std::uint64_t(rounds), "lost update");
}
#endif
