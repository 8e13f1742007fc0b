// C06: readers and writers never overlap, under every schedule; every lock attempt completes once the other side has left.
#if !defined(REAL_THREADS)
#include "sched.hpp"
#include <ReaderWriterLock.hpp>
using opencmw::ReaderWriterLock;
using enum opencmw::ReaderWriterLockType;

template<opencmw::ReaderWriterLockType T, opencmw::ReaderWriterLockType O>
struct Actor {
    static void critical(pbt::Src &s, int &mine, const int &other, const vs::Wide<2> &data, vs::Wide<2> *w, std::uint64_t v, unsigned hold) {
        ++mine;
        s.check(other == 0, "a reader and a writer hold the lock at the same time");
        const auto before = data.w[0];
        for (unsigned i = 0; i < hold; ++i) {
            vs::point();
            s.check(other == 0, "a reader and a writer hold the lock at the same time");
        }
        if constexpr (T == READ) s.check(data.consistent() && data.w[0] == before, "a reader observed a change while holding the read lock");
        else w->set(v);
        --mine;
    }
};
PROPERTY(exclusion, 900000, 4000000, "2-5 threads, 1-4 lock/tryLock/scoped sections each, schedule drawn per atomic access; non-trivial = at least one reader and one writer section and 3 context switches") {
    vs::Sched        sc(s, 1500, 30000);
    ReaderWriterLock lock;
    int              readers = 0, writers = 0, nr = 0, nw = 0, tryOk = 0, tryFail = 0;
    vs::Wide<2>      data;
    bool             dataOwned = false; // concurrent writers are legal; they take turns for the payload
    const int n = 2 + int(s.below(4));
    for (int t = 0; t < n; ++t) {
        struct Op { int kind; bool write; unsigned hold; };
        std::vector<Op> ops;
        for (std::size_t k = 1 + s.below(4); k > 0; --k) ops.push_back({ int(s.below(4)), s.coin(), unsigned(s.below(4)) });
        for (auto &o : ops) (o.write ? nw : nr)++;
        sc.spawn([&, ops, t, n] {
            std::uint64_t v = std::uint64_t(t) * 1000;
            for (auto &o : ops) {
                auto section = [&] {
                    if (o.write) {
                        vs::Wide<2> *w = nullptr;
                        if (!dataOwned) { dataOwned = true; w = &data; }
                        ++writers;
                        s.check(readers == 0, "a reader and a writer hold the lock at the same time");
                        for (unsigned i = 0; i < o.hold; ++i) { vs::point(); s.check(readers == 0, "a reader and a writer hold the lock at the same time"); }
                        if (w) { w->set(++v); dataOwned = false; }
                        s.check(readers == 0, "a reader and a writer hold the lock at the same time");
                        --writers;
                    } else Actor<READ, WRITE>::critical(s, readers, writers, data, nullptr, 0, o.hold);
                };
                switch (o.kind) {
                case 0:
                case 1: {
                    const auto r = o.write ? lock.lock<WRITE>() : lock.lock<READ>();
                    s.check(o.write ? (r <= -1 && r >= -n) : (r >= 1 && r <= n), [&] { return "lock returned the holder count " + std::to_string(r); });
                    section();
                    const auto u = o.write ? lock.unlock<WRITE>() : lock.unlock<READ>();
                    s.check(o.write ? (u <= 0 && u > -n) : (u >= 0 && u < n), [&] { return "unlock returned the holder count " + std::to_string(u); });
                    break;
                }
                case 2: {
                    bool ok = o.write ? lock.tryLock<WRITE>() : lock.tryLock<READ>();
                    (ok ? tryOk : tryFail)++;
                    if (ok) {
                        section();
                        o.write ? lock.unlock<WRITE>() : lock.unlock<READ>();
                    }
                    break;
                }
                default:
                    try {
                        if (o.write) {
                            auto g = lock.scopedGuard<WRITE>();
                            section();
                            if (o.hold == 3) throw 1;
                        } else {
                            auto g = lock.scopedGuard<READ>();
                            section();
                            if (o.hold == 3) throw 1;
                        }
                    } catch (int) {
                    }
                }
                const auto v2 = lock.value();
                s.check(v2 >= -n && v2 <= n, "value() outside the range of possible holders");
            }
        }, "t" + std::to_string(t));
    }
    sc.run();
    s.check(lock.value() == 0, [&] { return "lock is not free after every holder left: value() = " + std::to_string(lock.value()); });
    s.check(lock.tryLock<WRITE>(), "a free lock cannot be acquired");
    lock.unlock<WRITE>();
    s.check(lock.tryLock<READ>(), "a free lock cannot be acquired");
    s.nontrivial(nr > 0 && nw > 0 && sc.switches >= 3);
    if (tryFail) s.label("tryLock refused");
    s.note("threads=" + std::to_string(n) + " reader sections=" + std::to_string(nr) + " writer sections=" + std::to_string(nw) + " switches=" + std::to_string(sc.switches));
}
PROPERTY(sequential_model, 300000, 1000000, "up to 60 single-threaded calls compared with an integer model; non-trivial = both modes used") {
    ReaderWriterLock lock;
    std::int64_t     m = 0;
    bool r = false, w = false;
    for (std::size_t k = s.below(60); k > 0; --k) {
        switch (s.below(5)) {
        case 0: if (m >= 0) { s.check(lock.lock<READ>() == ++m, "lock<READ> count"); r = true; } break;
        case 1: if (m <= 0) { s.check(lock.lock<WRITE>() == --m, "lock<WRITE> count"); w = true; } break;
        case 2: { bool ok = lock.tryLock<READ>(); s.check(ok == (m >= 0), "tryLock<READ> result on an uncontended lock"); if (ok) ++m; break; }
        case 3: { bool ok = lock.tryLock<WRITE>(); s.check(ok == (m <= 0), "tryLock<WRITE> result on an uncontended lock"); if (ok) --m; break; }
        default:
            if (m > 0) s.check(lock.unlock<READ>() == --m, "unlock<READ> count");
            else if (m < 0) s.check(lock.unlock<WRITE>() == ++m, "unlock<WRITE> count");
        }
        s.check(lock.value() == m, "value()");
    }
    s.nontrivial(r && w);
    s.note("final=" + std::to_string(m));
}
#else
#include "pbt.hpp"
#include <ReaderWriterLock.hpp>
#include <thread>
using opencmw::ReaderWriterLock;
using enum opencmw::ReaderWriterLockType;
PROPERTY(real_threads_race, 500, 1500, "real threads under ThreadSanitizer: 1 writer and 1-3 readers of plain data guarded by the lock; every case non-trivial", .nondet = true, .maxWorkers = 3, .cpuLimit = 60) {
    ReaderWriterLock   lock;
    std::uint64_t      a = 0, b = 0;
    const int          readers = 1 + int(s.below(3)), rounds = 200 + int(s.below(400));
    const bool         tryMode = s.coin(), scoped = s.coin();
    std::atomic<bool>  bad = false;
    std::vector<std::thread> th;
    s.nontrivial();
    s.note("readers=" + std::to_string(readers) + " rounds=" + std::to_string(rounds) + (tryMode ? " tryLock" : "") + (scoped ? " scoped" : ""));
    std::atomic<bool> done = false;
    th.emplace_back([&] {
        for (int i = 0; i < rounds; ++i) {
            if (scoped) { auto g = lock.scopedGuard<WRITE>(); ++a; ++b; }
            else {
                if (tryMode) while (!lock.tryLock<WRITE>()) std::this_thread::yield();
                else lock.lock<WRITE>();
                ++a; ++b;
                lock.unlock<WRITE>();
            }
            std::this_thread::yield();
        }
        done = true;
    });
    for (int r = 0; r < readers; ++r) th.emplace_back([&] {
        while (!done.load(std::memory_order_relaxed)) {
            if (scoped) { auto g = lock.scopedGuard<READ>(); if (a != b) bad = true; }
            else {
                if (tryMode) while (!lock.tryLock<READ>()) std::this_thread::yield();
                else lock.lock<READ>();
                if (a != b) bad = true;
                lock.unlock<READ>();
            }
            std::this_thread::yield();
        }
    });
    for (auto &t : th) t.join();
    s.check(!bad, "a reader observed a half-finished write");
    s.check(lock.value() == 0 && a == std::uint64_t(rounds), "lock not free at the end or writes lost");
}
#endif
