// C07: spin-wait timeouts are honoured exactly, waiting always lets other threads run, and the spin mutex excludes, under every schedule.
#if !defined(REAL_THREADS)
#include "sched.hpp"
#include <SpinWait.hpp>
using namespace opencmw;

PROPERTY(spin_until, 150000, 1200000, "timeout in {-1,0,1,2..300 ms}, condition turning true after 0..400 evaluations (or never) while virtual time advances 0..3 ms per evaluation; non-trivial = the condition is false at first") {
    vs::Sched          sc(s, 0, 400000);
    const std::int64_t timeout  = s.oneOf<std::int64_t>({ -1, 0, 1, 2, 3, 5, 10, 20, 50, 300 });
    const bool         never    = timeout >= 0 && s.chance(1, 3);
    const std::int64_t trueAt   = never ? -1 : std::int64_t(s.chance(1, 2) ? s.below(30) : s.below(400)); // index of the first true evaluation
    const std::int64_t perEvalNs = s.oneOf<std::int64_t>({ 0, 1000, 100000, 500000, 1000000, 3000000 });
    const bool         defaultOverload = timeout == -1 && s.coin();
    std::int64_t       evals = 0, start = 0, end = 0, evalsAfterDeadline = 0;
    bool               result = false, sawTrue = false;
    sc.spawn([&] {
        sc.nowNs = (1 + std::int64_t(s.below(1000000000))) * 1000; // start anywhere inside a tick
        SpinWait<> sw;
        for (std::size_t k = s.below(4); k > 0; --k) sw.spinOnce();
        start = sc.nowNs;
        auto cond = [&]() noexcept -> bool {
            const std::int64_t i = evals++;
            if (timeout > 0 && sc.nowNs - start > (timeout + 1) * 1000000) ++evalsAfterDeadline;
            sc.nowNs += perEvalNs;
            const bool r = trueAt >= 0 && i >= trueAt;
            sawTrue      = sawTrue || r;
            return r;
        };
        result = defaultOverload ? sw.spinUntil(cond) : sw.spinUntil(cond, timeout);
        end    = sc.nowNs;
    }, "waiter");
    sc.run();
    s.nontrivial(trueAt != 0);
    s.note("timeout=" + std::to_string(timeout) + "ms trueAt=" + std::to_string(trueAt) + " perEval=" + std::to_string(perEvalNs) + "ns -> " + (result ? "true" : "false") + " after " + std::to_string(evals) + " evaluations, " + std::to_string(end - start) + " ns");
    s.check(result == sawTrue, "spinUntil's result is not the last value of the condition");
    if (timeout == -1) s.check(result, "spinUntil without timeout gave up before the condition held");
    else if (timeout == 0) s.check(evals == 1, "spinUntil with timeout 0 has to evaluate the condition exactly once");
    else if (!result) s.check(end - start > (timeout - 1) * 1000000, [&] { return "timed out after " + std::to_string(end - start) + " ns although the timeout is " + std::to_string(timeout) + " ms"; });
    s.check(evalsAfterDeadline <= 14, "kept waiting long after the timeout");
}
PROPERTY(bad_timeout, 300, 3000, "timeouts below -1 are refused; all non-trivial") {
    s.nontrivial();
    const auto t = -2 - std::int64_t(s.integer<std::uint32_t>());
    SpinWait<> sw;
    bool threw = false;
    try { (void) sw.spinUntil([]() noexcept -> bool { return true; }, t); } catch (const std::out_of_range &) { threw = true; }
    s.note("timeout=" + std::to_string(t));
    s.check(threw, "negative timeout accepted");
}
template<int Y, int S0, int S1>
static void counters(pbt::Src &s) {
    vs::Sched sc(s, 0, 2000000);
    std::string trace;
    sc.spawn([&] {
        SpinWait<Y, S0, S1> sw;
        std::int64_t        m = 0, sinceSleep = 0;
        for (std::size_t k = 1 + s.below(150); k > 0; --k) {
            if (s.chance(1, 40)) {
                sw.reset();
                m = 0;
                sinceSleep = 0;
                s.check(sw.count() == 0 && !sw.nextSpinWillYield(), "reset");
                continue;
            }
            s.check(sw.count() == m, "count()");
            const bool yields = sw.nextSpinWillYield();
            s.check(yields == (m > Y), [&] { return "nextSpinWillYield() after " + std::to_string(m) + " spins"; });
            const auto t0 = sc.nowNs;
            const auto p0 = sc.cur->points + sc.cur->blocks;
            sw.spinOnce();
            ++m;
            const bool gaveUp = sc.cur->points + sc.cur->blocks > p0;
            s.check(gaveUp || !yields, "a spin that should yield kept the processor");
            if (yields) sinceSleep = sc.nowNs - t0 >= 1000000 ? 0 : sinceSleep + 1;
            s.check(sinceSleep < 2 * S1, "no real sleep although waiting for a long time");
            s.check(sc.nowNs - t0 < 2000000, "a single spin slept for more than the documented 1 ms");
        }
        trace = std::to_string(m);
    }, "spinner");
    sc.run();
    s.nontrivial();
    s.note("spins=" + trace);
}
PROPERTY(spin_counters_default, 12000, 100000, "1-150 spins and resets against a counter model, default parameters") { counters<10, 5, 20>(s); }
PROPERTY(spin_counters_other, 6000, 100000, "same with other parameters") { s.coin() ? counters<12, 3, 7>(s) : counters<10, 4, 9>(s); }

template<typename M>
static void mutexExcl(pbt::Src &s) {
    vs::Sched sc(s, 1500, 30000);
    M         m;
    int       inside = 0, done = 0, want = 0;
    vs::Wide<2> data;
    const int n = 2 + int(s.below(3));
    for (int t = 0; t < n; ++t) {
        const int rounds = 1 + int(s.below(4));
        const bool guard = s.coin();
        want += rounds;
        sc.spawn([&, rounds, guard] {
            for (int i = 0; i < rounds; ++i) {
                auto body = [&] {
                    s.check(++inside == 1, "two threads inside the mutex");
                    s.check(data.consistent(), "torn data behind the mutex");
                    data.set(data.w[0] + 1);
                    s.check(--inside == 0, "two threads inside the mutex");
                    ++done;
                };
                if (guard) {
                    std::lock_guard g(m);
                    body();
                } else {
                    m.lock();
                    body();
                    m.unlock();
                }
            }
        }, "t" + std::to_string(t));
    }
    sc.run();
    s.check(done == want && data.w[0] == std::uint64_t(want), "lost update behind the mutex");
    s.nontrivial(sc.switches >= 3);
    s.note("threads=" + std::to_string(n) + " sections=" + std::to_string(want) + " switches=" + std::to_string(sc.switches));
}
PROPERTY(atomic_mutex, 500000, 1500000, "2-4 threads, 1-4 critical sections each, schedule drawn per atomic access; non-trivial = at least 3 context switches") { mutexExcl<AtomicMutex<NO_SPIN_WAIT>>(s); }
PROPERTY(atomic_mutex_spin, 300000, 1000000, "same with the spin-wait flavour") { mutexExcl<AtomicMutex<SpinWait<>>>(s); }
#else
#include "pbt.hpp"
#include <SpinWait.hpp>
#include <mutex>
#include <thread>
using namespace opencmw;
PROPERTY(real_threads_mutex, 400, 1000, "real threads under ThreadSanitizer incrementing plain data behind the spin mutex; every case non-trivial", .nondet = true, .maxWorkers = 3, .cpuLimit = 60) {
    AtomicMutex<>            m;
    std::uint64_t            a = 0;
    const int                n = 2 + int(s.below(2)), rounds = 100 + int(s.below(300));
    std::vector<std::thread> th;
    s.nontrivial();
    s.note("threads=" + std::to_string(n) + " rounds=" + std::to_string(rounds));
    for (int t = 0; t < n; ++t) th.emplace_back([&] {
        for (int i = 0; i < rounds; ++i) {
            std::lock_guard g(m);
            ++a;
        }
    });
    for (auto &t : th) t.join();
    s.check(a == std::uint64_t(n) * std::uint64_t(rounds), "lost increments");
}
#endif
