// C18-C20: concurrent delivery through the disruptor under generated schedules.
// PART 18: ring buffer with pollers, batch processors and worker pools; PART 19: handler graphs; PART 20: barriers and wait strategies.
#if !defined(REAL_THREADS)
#include "sched.hpp"
#else
#include "pbt.hpp"
#include <mutex>
#include <thread>
#endif
#include <disruptor/BlockingQueue.hpp>
#include <disruptor/Disruptor.hpp>
#include <disruptor/IgnoreExceptionHandler.hpp>
#include <disruptor/WorkerPool.hpp>
#include <malloc.h>
#include <map>
using namespace opencmw::disruptor;
static const int kPerturb = mallopt(M_PERTURB, 0x5A); // freed memory is overwritten, so that a use of it shows

#if !defined(REAL_THREADS)
struct Ev {
    vs::Wide<3>  data;
    int          producer = -1;
    int          serial   = -1;
    std::int64_t seq      = -1;
};
struct TimeoutWait : TimeoutBlockingWaitStrategy {
    TimeoutWait() : TimeoutBlockingWaitStrategy(std::chrono::microseconds(20)) {}
};
struct Spawner : ITaskScheduler { // every task is a thread of the schedule
    vs::Sched &sc;
    int        running = 0, n = 0;
    explicit Spawner(vs::Sched &s) : sc(s) {}
    void start(std::size_t) override {}
    void stop() override {}
    std::future<void> scheduleAndStart(std::packaged_task<void()> &&task) override {
        auto t = std::make_shared<std::packaged_task<void()>>(std::move(task));
        auto f = t->get_future();
        ++running;
        sc.spawn([this, t] { (*t)(); --running; }, "task" + std::to_string(n++));
        return f;
    }
};
// what the producers wrote, by sequence
struct Book {
    pbt::Src                                         &s;
    std::map<std::int64_t, std::pair<int, int>>       written;
    std::string                                       error; // found inside a translator, whose exceptions the ring buffer swallows
    void check(bool ok, const std::function<std::string()> &m) {
        if (!ok && error.empty()) error = m();
    }
    void report() {
        if (!error.empty()) s.fail(error);
    }
    void fill(Ev &e, std::int64_t seq, int producer, int serial) {
        e.producer = producer;
        e.serial   = serial;
        vs::point();
        e.data.set(std::uint64_t(seq) * 100 + 7);
        e.seq = seq;
        check(written.emplace(seq, std::pair{ producer, serial }).second, [&] { return "sequence " + std::to_string(seq) + " was handed out twice"; });
    }
};
// one consumer's view of the history
struct Log {
    std::string               name;
    std::int64_t              count = 0;
    std::map<int, int>        last; // per producer
    bool                      lastWasEnd = true;
    void see(pbt::Src &s, Book &b, const Ev &e, std::int64_t seq, bool inOrder = true) {
        b.report();
        if (inOrder) s.check(seq == count, [&] { return name + " received sequence " + std::to_string(seq) + " as its event number " + std::to_string(count); });
        ++count;
        auto it = b.written.find(seq);
        s.check(it != b.written.end(), [&] { return name + " received sequence " + std::to_string(seq) + " which has not been written"; });
        const auto ok = [&] { return e.seq == seq && e.data.consistent() && e.data.w[0] == std::uint64_t(seq) * 100 + 7 && std::pair{ e.producer, e.serial } == it->second; };
        s.check(ok(), [&] { return name + " found the wrong event at sequence " + std::to_string(seq) + " (it holds " + std::to_string(e.seq) + ")"; });
        vs::point();
        s.check(ok(), [&] { return "the event of sequence " + std::to_string(seq) + " was overwritten while " + name + " read it"; });
        if (inOrder) {
            auto l = last.find(e.producer);
            s.check(l == last.end() ? e.serial == 0 : e.serial == l->second + 1, [&] { return name + " received the events of a producer out of order"; });
            last[e.producer] = e.serial;
        }
    }
};
template<typename RB>
static void spawnProducers(pbt::Src &s, vs::Sched &sc, RB &rb, Book &book, int producers, const std::vector<int> &counts, int &active, bool multi, const std::function<std::int64_t()> &slowest) {
    constexpr bool trySupported = true;
    active = producers;
    for (int p = 0; p < producers; ++p) {
        std::vector<int> plan;
        for (int k = 0; k < counts[std::size_t(p)];) {
            const int mode = int(s.below(3));
            const int n    = mode == 2 ? 1 + int(s.below(std::size_t(std::min(counts[std::size_t(p)] - k, rb->bufferSize() - 1)))) : 1;
            plan.push_back(mode * 100 + n);
            k += n;
        }
        sc.spawn([&s, &sc, &book, rb, p, plan, &active, multi, slowest] {
            int serial = 0;
            const auto gate = [&](std::int64_t seq) { book.check(seq - rb->bufferSize() <= slowest(), [&] { return "sequence " + std::to_string(seq) + " was claimed although a consumer still needs the slot's previous event"; }); };
            for (int op : plan) {
                book.report();
                const int mode = op / 100, n = op % 100;
                if (mode == 0) {
                    rb->publishEvent([&](Ev &&e, std::int64_t seq) { gate(seq); book.fill(e, seq, p, serial); });
                    ++serial;
                } else if (mode == 1 && trySupported) {
                    while (!rb->tryPublishEvent([&](Ev &&e, std::int64_t seq) { gate(seq); book.fill(e, seq, p, serial); })) std::this_thread::yield();
                    ++serial;
                } else {
                    const auto hi = rb->next(n);
                    gate(hi);
                    for (auto q = hi - n + 1; q <= hi; ++q) book.fill((*rb)[q], q, p, serial++);
                    if (!multi && n > 1 && s.coin()) rb->publish(hi);
                    else
                        for (auto q = hi - n + 1; q <= hi; ++q) rb->publish(q);
                }
            }
            --active;
        }, "producer" + std::to_string(p));
    }
}
#if PART == 18
template<typename RB>
struct Processor : IEventHandler<Ev>, ILifecycleAware, ITimeoutHandler {
    pbt::Src &s;
    Book     &b;
    Log       log;
    int       starts = 0, stops = 0, timeouts = 0;
    std::set<std::int64_t> throwAt;
    Processor(pbt::Src &s_, Book &b_) : s(s_), b(b_) {}
    void onEvent(Ev &e, std::int64_t seq, bool end) override {
        s.check(starts == 1 && stops == 0, "event outside of onStart/onShutdown");
        log.see(s, b, e, seq);
        log.lastWasEnd = end;
        if (throwAt.contains(seq)) throw std::runtime_error("handler");
    }
    void onStart() override { ++starts; }
    void onShutdown() override { ++stops; }
    void onTimeout(std::int64_t q) override {
        ++timeouts;
        s.check(q < log.count, "timeout notification for a sequence that has not been processed");
    }
};
struct Exceptions : IExceptionHandler<Ev> {
    std::map<std::int64_t, int> seen;
    int other = 0;
    void handleEventException(const std::exception &, std::int64_t q, Ev &) override { ++seen[q]; }
    void handleOnTimeoutException(const std::exception &, std::int64_t) override { ++other; }
    void handleOnStartException(const std::exception &) override { ++other; }
    void handleOnShutdownException(const std::exception &) override { ++other; }
};
template<std::size_t SIZE, typename WS, template<std::size_t, typename> typename CS>
static void delivery(pbt::Src &s, bool multi) {
    using RBT = RingBuffer<Ev, SIZE, WS, CS>;
    vs::Sched sc(s, 1500, 150000);
    Book      book{ s };
    auto      rb = std::make_shared<RBT>();
    const int producers = multi ? 1 + int(s.below(3)) : 1;
    std::vector<int> counts;
    int total = 0;
    for (int p = 0; p < producers; ++p) counts.push_back(1 + int(s.below(6))), total += counts.back();
    const int np = int(s.below(3)), nb = np == 0 ? 1 + int(s.below(2)) : int(s.below(2));
    std::vector<std::unique_ptr<Log>> logs;
    std::vector<std::shared_ptr<Sequence>> gates;
    std::shared_ptr<Sequence> prev;
    std::vector<std::pair<const Log *, const Log *>> deps;
    for (int i = 0; i < np; ++i) {
        const bool chain  = prev && s.coin();
        auto       poller = chain ? rb->newPoller({ prev }) : rb->newPoller();
        auto      *log    = logs.emplace_back(std::make_unique<Log>()).get();
        log->name         = "poller" + std::to_string(i);
        const Log *dep    = chain ? logs[logs.size() - 2].get() : nullptr;
        prev              = poller->sequence();
        gates.push_back(prev);
        const int stopAfter = int(s.below(4));
        sc.spawn([&s, &book, rb, poller, log, dep, total, stopAfter] {
            while (log->count < total) {
                bool       any = false;
                const auto before = log->count;
                const auto st = poller->poll([&](Ev &e, std::int64_t seq, bool end) -> bool {
                    any = true;
                    if (dep) s.check(dep->count > seq, [&] { return log->name + " processed sequence " + std::to_string(seq) + " before the consumer it depends on"; });
                    log->see(s, book, e, seq);
                    log->lastWasEnd = end;
                    return !(stopAfter && log->count % 4 == stopAfter);
                });
                s.check(any == (st == PollState::Processing) && any == (log->count > before), "poll state does not tell whether events were processed");
                s.check(poller->sequence()->value() == log->count - 1, "the poller's sequence is not that of its last event");
                if (!any) std::this_thread::yield();
            }
        }, log->name);
    }
    std::vector<std::shared_ptr<BatchEventProcessor<Ev>>> procs;
    std::vector<std::shared_ptr<Processor<RBT>>>          handlers;
    auto exc = std::make_shared<Exceptions>();
    std::map<std::int64_t, int> expectThrown;
    int finished = 0;
    for (int i = 0; i < nb; ++i) {
        auto h      = std::make_shared<Processor<RBT>>(s, book);
        h->log.name = "processor" + std::to_string(i);
        for (int q = 0; q < total; ++q)
            if (s.chance(1, 12)) h->throwAt.insert(q), ++expectThrown[q];
        auto p = std::make_shared<BatchEventProcessor<Ev>>(rb, newBarrier(rb, {}), h);
        p->setExceptionHandler(exc);
        procs.push_back(p);
        handlers.push_back(h);
        gates.push_back(p->sequence());
        sc.spawn([p, &finished] { p->run(); ++finished; }, h->log.name);
    }
    rb->addGatingSequences(gates);
    int active = 0;
    const auto slowest = [&] {
        std::int64_t m = 1 << 30;
        for (auto &l : logs) m = std::min(m, l->count - 1);
        for (auto &h : handlers) m = std::min(m, h->log.count - 1);
        return m;
    };
    spawnProducers(s, sc, rb, book, producers, counts, active, multi, slowest);
    if (nb) {
        sc.spawn([&] {
            for (auto &p : procs)
                while (p->sequence()->value() < total - 1) std::this_thread::yield();
            for (auto &p : procs) p->halt();
        }, "supervisor");
    }
    sc.run();
    book.report();
    s.check(rb->cursor() == total - 1, "cursor");
    s.check(int(book.written.size()) == total, "number of events written");
    for (auto &l : logs) s.check(l->count == total && l->lastWasEnd, [&] { return l->name + " received " + std::to_string(l->count) + " of " + std::to_string(total) + " events, or the last one was not marked as the end of its batch"; });
    for (auto &h : handlers) {
        s.check(h->log.count == total, [&] { return h->log.name + " received " + std::to_string(h->log.count) + " of " + std::to_string(total) + " events"; });
        s.check(h->starts == 1 && h->stops == 1, "onStart/onShutdown not called once each");
    }
    s.check(finished == nb, "a halted processor still runs");
    s.check(exc->seen == expectThrown && exc->other == 0, "exceptions of the handlers were not reported once each");
    for (auto &p : procs) s.check(!p->isRunning() && p->sequence()->value() == total - 1, "state of a halted processor");
    s.check(rb->getRemainingCapacity() == std::int64_t(SIZE) && rb->getMinimumGatingSequence() == total - 1, "remaining capacity of a drained buffer");
    s.nontrivial(total > int(SIZE) && sc.switches >= 5);
    s.label(multi ? "multi" : "single");
    s.note("size=" + std::to_string(SIZE) + " producers=" + std::to_string(producers) + " events=" + std::to_string(total) + " pollers=" + std::to_string(np) + " processors=" + std::to_string(nb) + " switches=" + std::to_string(sc.switches));
}
template<template<std::size_t, typename> typename CS>
static void deliveryAny(pbt::Src &s, bool multi) {
    switch (s.below(6)) {
    case 0: delivery<4, BlockingWaitStrategy, CS>(s, multi); break;
    case 1: delivery<2, BusySpinWaitStrategy, CS>(s, multi); break;
    case 2: delivery<8, SleepingWaitStrategy, CS>(s, multi); break;
    case 3: delivery<2, SpinWaitWaitStrategy, CS>(s, multi); break;
    case 4: delivery<4, TimeoutWait, CS>(s, multi); break;
    default: delivery<4, YieldingWaitStrategy, CS>(s, multi); break;
    }
}
PROPERTY(multi_producer, 30000, 1000000, "1-3 producers, ring of 2-8 slots, up to 2 pollers and 2 batch processors, every wait strategy; schedule drawn per atomic access; non-trivial = more events than slots and 5 context switches") { deliveryAny<MultiThreadedStrategy>(s, true); }
PROPERTY(single_producer, 15000, 500000, "as multi_producer with the single-producer claim strategy") { deliveryAny<SingleThreadedStrategy>(s, false); }

struct Worker : IWorkHandler<Ev> {
    std::function<void(Ev &)> fn;
    void onEvent(Ev &e) override { fn(e); }
};
template<std::size_t SIZE, typename WS, template<std::size_t, typename> typename CS>
static void pool(pbt::Src &s, bool multi) {
    vs::Sched sc(s, 1500, 150000);
    Book      book{ s };
    auto      rb = std::make_shared<RingBuffer<Ev, SIZE, WS, CS>>();
    const int producers = multi ? 1 + int(s.below(2)) : 1, workers = 1 + int(s.below(3));
    std::vector<int> counts;
    int total = 0;
    for (int p = 0; p < producers; ++p) counts.push_back(1 + int(s.below(6))), total += counts.back();
    std::map<std::int64_t, int> done, thrown;
    std::set<std::int64_t>      throwAt;
    for (int q = 0; q < total; ++q)
        if (s.chance(1, 10)) throwAt.insert(q);
    std::set<std::int64_t> inWork;
    auto exc = std::make_shared<Exceptions>();
    std::vector<std::shared_ptr<IWorkHandler<Ev>>> hs;
    std::vector<Log> logs(static_cast<std::size_t>(workers));
    for (int w = 0; w < workers; ++w) {
        auto h = std::make_shared<Worker>();
        logs[std::size_t(w)].name = "worker" + std::to_string(w);
        h->fn = [&, w](Ev &e) {
            const auto seq = e.seq;
            s.check(seq >= 0, "a worker received an event that was never written");
            s.check(++done[seq] == 1, [&] { return "event " + std::to_string(seq) + " was given to two workers"; });
            inWork.insert(seq);
            logs[std::size_t(w)].see(s, book, e, seq, false);
            inWork.erase(seq);
            if (throwAt.contains(seq)) throw std::runtime_error("worker");
        };
        hs.push_back(h);
    }
    auto wp = std::make_shared<WorkerPool<Ev>>(rb, newBarrier(rb, {}), exc, hs);
    rb->addGatingSequences(wp->getWorkerSequences());
    auto spawner  = std::make_shared<Spawner>(sc);
    auto executor = std::make_shared<BasicExecutor>(spawner);
    wp->start(executor);
    bool again = false;
    try { wp->start(executor); } catch (const std::logic_error &) { again = true; }
    s.check(again && wp->isRunning(), "a running worker pool was started again");
    int active = 0;
    spawnProducers(s, sc, rb, book, producers, counts, active, multi, [&] {
        std::int64_t m = 0; // every event below the first unfinished one is done
        while (done.contains(m) && !inWork.contains(m)) ++m;
        return m - 1;
    });
    sc.spawn([&] {
        while (active > 0) std::this_thread::yield();
        wp->drainAndHalt();
        s.check(int(done.size()) == total && inWork.empty(), [&] { return "drainAndHalt returned after " + std::to_string(done.size()) + " of " + std::to_string(total) + " events"; });
    }, "supervisor");
    sc.run();
    book.report();
    s.check(!wp->isRunning() && spawner->running == 0, "a worker still runs after drainAndHalt");
    std::map<std::int64_t, int> want;
    for (auto q : throwAt) want[q] = 1;
    s.check(exc->seen == want, "exceptions of the workers were not reported once each");
    s.nontrivial(workers > 1 && total > int(SIZE) && sc.switches >= 5);
    s.note("size=" + std::to_string(SIZE) + " workers=" + std::to_string(workers) + " events=" + std::to_string(total) + " switches=" + std::to_string(sc.switches));
}
PROPERTY(worker_pool, 20000, 600000, "1-3 workers share the events of 1-2 producers; non-trivial = 2 or more workers, more events than slots") {
    switch (s.below(6)) {
    case 0: pool<4, BlockingWaitStrategy, MultiThreadedStrategy>(s, true); break;
    case 1: pool<2, BusySpinWaitStrategy, MultiThreadedStrategy>(s, true); break;
    case 2: pool<4, TimeoutWait, SingleThreadedStrategy>(s, false); break;
    case 3: pool<2, SpinWaitWaitStrategy, SingleThreadedStrategy>(s, false); break;
    case 4: pool<4, YieldingWaitStrategy, MultiThreadedStrategy>(s, true); break;
    default: pool<8, SleepingWaitStrategy, SingleThreadedStrategy>(s, false); break;
    }
}
#endif

#if PART == 19
struct Handler : IEventHandler<Ev>, ILifecycleAware {
    std::function<void(Ev &, std::int64_t, bool)> fn;
    int starts = 0, stops = 0;
    void onEvent(Ev &e, std::int64_t q, bool end) override { fn(e, q, end); }
    void onStart() override { ++starts; }
    void onShutdown() override { ++stops; }
};
struct PoolWorker : IWorkHandler<Ev> {
    std::function<void(Ev &)> fn;
    void onEvent(Ev &e) override { fn(e); }
};
struct Exceptions : IExceptionHandler<Ev> {
    std::map<std::int64_t, int> seen;
    void handleEventException(const std::exception &, std::int64_t q, Ev &) override { ++seen[q]; }
    void handleOnTimeoutException(const std::exception &, std::int64_t) override {}
    void handleOnStartException(const std::exception &) override {}
    void handleOnShutdownException(const std::exception &) override {}
};
// a consumer of the graph: one handler, or a worker pool whose members share the events
struct Stage {
    std::string                  name;
    std::vector<int>             deps;
    std::map<std::int64_t, int>  done;   // finished (or failed) events
    std::int64_t                 entered = 0;
    bool                         isPool = false;
    std::shared_ptr<Handler>     handler;
};
template<std::size_t SIZE, typename WS, template<std::size_t, typename> typename CS>
static void graph(pbt::Src &s, bool multi) {
    vs::Sched sc(s, 1500, 250000);
    Book      book{ s };
    using Core  = DisruptorCore<Ev, SIZE, WS, CS>;
    using Group = decltype(std::declval<Core &>().handleEventsWith(std::shared_ptr<IEventHandler<Ev>>{}));
    auto spawner = std::make_shared<Spawner>(sc);
    auto core    = std::make_shared<Core>(spawner);
    auto rb      = core->ringBuffer();
    auto exc     = std::make_shared<Exceptions>();
    core->setDefaultExceptionHandler(exc);
    const int producers = multi ? 1 + int(s.below(2)) : 1;
    std::vector<int> counts;
    int total = 0;
    for (int p = 0; p < producers; ++p) counts.push_back(int(s.below(6))), total += counts.back();
    std::vector<std::unique_ptr<Stage>> st;
    std::map<std::int64_t, int> thrown;
    // the oracle: before a consumer receives an event, everything upstream of it has finished that event
    const auto observe = [&](Stage &me, Ev &e, std::int64_t q, bool single, bool throws) {
        book.report();
        if (single) s.check(q == me.entered, [&] { return me.name + " received sequence " + std::to_string(q) + " as its event number " + std::to_string(me.entered); });
        ++me.entered;
        for (int d : me.deps) s.check(st[std::size_t(d)]->done.contains(q), [&] { return me.name + " received event " + std::to_string(q) + " before " + st[std::size_t(d)]->name + " had finished it"; });
        auto it = book.written.find(q);
        const auto ok = [&] { return it != book.written.end() && e.seq == q && e.data.consistent() && e.data.w[0] == std::uint64_t(q) * 100 + 7 && std::pair{ e.producer, e.serial } == it->second; };
        s.check(ok(), [&] { return me.name + " found the wrong event at sequence " + std::to_string(q); });
        vs::point();
        s.check(ok(), [&] { return "the event of sequence " + std::to_string(q) + " was overwritten while " + me.name + " handled it"; });
        s.check(++me.done[q] == 1, [&] { return me.name + " handled event " + std::to_string(q) + " twice"; });
        if (throws) {
            ++thrown[q];
            throw std::runtime_error("handler");
        }
    };
    const auto newHandler = [&](std::vector<int> deps) {
        auto &stage = *st.emplace_back(std::make_unique<Stage>());
        stage.name  = "handler" + std::to_string(st.size() - 1);
        stage.deps  = std::move(deps);
        auto h      = std::make_shared<Handler>();
        std::set<std::int64_t> throwAt;
        for (int q = 0; q < total; ++q)
            if (s.chance(1, 14)) throwAt.insert(q);
        h->fn = [&observe, &stage, throwAt](Ev &e, std::int64_t q, bool) { observe(stage, e, q, true, throwAt.contains(q)); };
        stage.handler = h;
        return h;
    };
    struct G { Group g; std::vector<int> members; bool handlersOnly = true; };
    std::vector<G> groups;
    const int nGroups = 1 + int(s.below(4));
    for (int k = 0; k < nGroups && st.size() < 6; ++k) {
        const auto kind = groups.empty() ? 0 : s.below(4);
        std::vector<int> deps;
        const G *up = nullptr;
        G joined;
        if (kind == 1 || kind == 3) up = &s.pick(groups);
        else if (kind == 2) { // a && b
            const auto &a = s.pick(groups), &b = s.pick(groups);
            joined = { a.g->And(b.g), a.members };
            joined.members.insert(joined.members.end(), b.members.begin(), b.members.end());
            up = &joined;
        }
        if (up) deps = up->members;
        if (kind == 3 && s.coin()) { // after(handler)
            const auto m = s.pick(up->members);
            if (st[std::size_t(m)]->handler) {
                joined = { core->after(std::shared_ptr<IEventHandler<Ev>>(st[std::size_t(m)]->handler)), { m } };
                up     = &joined;
                deps   = { m };
            }
        }
        G made;
        if (s.chance(1, 4)) { // a worker pool
            auto &stage  = *st.emplace_back(std::make_unique<Stage>());
            stage.name   = "pool" + std::to_string(st.size() - 1);
            stage.deps   = deps;
            stage.isPool = true;
            std::vector<std::shared_ptr<IWorkHandler<Ev>>> ws;
            for (std::size_t n = 1 + s.below(2); n > 0; --n) {
                auto w = std::make_shared<PoolWorker>();
                w->fn  = [&observe, &stage](Ev &e) { observe(stage, e, e.seq, false, false); };
                ws.push_back(w);
            }
            made = { up ? up->g->handleEventsWithWorkerPool(ws) : core->handleEventsWithWorkerPool(ws), { int(st.size()) - 1 } };
        } else {
            std::vector<std::shared_ptr<IEventHandler<Ev>>> hs;
            std::vector<int> members;
            for (std::size_t n = 1 + s.below(2); n > 0; --n) {
                hs.push_back(newHandler(deps));
                members.push_back(int(st.size()) - 1);
            }
            made = { up ? (s.coin() ? up->g->then(hs) : up->g->handleEventsWith(hs)) : core->handleEventsWith(hs), members };
        }
        groups.push_back(made);
    }
    const auto slowest = [&] {
        std::int64_t m = 1 << 30;
        for (auto &x : st) {
            std::int64_t f = 0;
            while (x->done.contains(f)) ++f;
            m = std::min(m, f - 1);
        }
        return m;
    };
    core->start();
    bool twice = false;
    try { core->start(); } catch (const std::logic_error &) { twice = true; }
    s.check(twice, "start() twice did not throw");
    bool late = false;
    try { core->handleEventsWith(std::shared_ptr<IEventHandler<Ev>>(std::make_shared<Handler>())); } catch (const std::logic_error &) { late = true; }
    s.check(late, "a handler was added after start()");
    int active = 0;
    spawnProducers(s, sc, rb, book, producers, counts, active, multi, slowest);
    const bool waitStarted = PART == 19 && STARTED_ONLY;
    sc.spawn([&] {
        while (active > 0) std::this_thread::yield();
        if (waitStarted)
            for (auto &x : st)
                while (x->handler && x->handler->starts == 0) std::this_thread::yield();
        core->shutdown();
        for (auto &x : st) s.check(int(x->done.size()) == total, [&] { return "shutdown() returned although " + x->name + " had handled only " + std::to_string(x->done.size()) + " of " + std::to_string(total) + " events"; });
    }, "supervisor");
    sc.run();
    book.report();
    s.check(spawner->running == 0, "a consumer still runs after shutdown()");
    for (auto &x : st) {
        s.check(int(x->done.size()) == total && x->entered == total, [&] { return x->name + " handled " + std::to_string(x->done.size()) + " of " + std::to_string(total) + " events"; });
        if (x->handler) s.check(x->handler->starts == 1 && x->handler->stops == 1, "onStart/onShutdown not called once each");
    }
    s.check(exc->seen == thrown, "exceptions of the handlers were not reported once each");
    s.check(core->cursor() == total - 1, "cursor");
    s.nontrivial(st.size() >= 2 && total > int(SIZE) && sc.switches >= 5);
    s.label(std::to_string(st.size()) + " consumers");
    s.note("size=" + std::to_string(SIZE) + " consumers=" + std::to_string(st.size()) + " events=" + std::to_string(total) + " switches=" + std::to_string(sc.switches));
}
PROPERTY(handler_graph, 25000, 800000, "generated graphs of handlers and worker pools (parallel, chained, joined, after), 1-2 producers; non-trivial = 2 or more consumers, more events than slots, 5 context switches") {
    switch (s.below(6)) {
    case 0: graph<4, BlockingWaitStrategy, MultiThreadedStrategy>(s, true); break;
    case 1: graph<2, BusySpinWaitStrategy, MultiThreadedStrategy>(s, true); break;
    case 2: graph<4, SleepingWaitStrategy, SingleThreadedStrategy>(s, false); break;
    case 3: graph<2, SpinWaitWaitStrategy, SingleThreadedStrategy>(s, false); break;
    case 4: graph<2, TimeoutWait, MultiThreadedStrategy>(s, true); break;
    default: graph<4, YieldingWaitStrategy, MultiThreadedStrategy>(s, true); break;
    }
}
static pbt::RegProbe p1("shutdown-before-consumers-run", [] {
    struct Later : ITaskScheduler {
        std::vector<std::packaged_task<void()>> tasks;
        void start(std::size_t) override {}
        void stop() override {}
        std::future<void> scheduleAndStart(std::packaged_task<void()> &&t) override {
            auto f = t.get_future();
            tasks.push_back(std::move(t));
            return f;
        }
    };
    auto later = std::make_shared<Later>();
    auto core  = std::make_shared<DisruptorCore<int, 4, BusySpinWaitStrategy>>(later);
    int  n     = 0;
    core->handleEventsWith(std::shared_ptr<IEventHandler<int>>(makeEventHandler<int>([&](int &, std::int64_t, bool) { ++n; })));
    core->start();
    core->publishEvent([](int &&, std::int64_t) {});
    core->shutdown();
    for (auto &t : later->tasks) t();
    return n == 0;
});
#endif

#if PART == 20
template<std::size_t SIZE, typename WS, template<std::size_t, typename> typename CS>
static void barrier(pbt::Src &s, bool multi, bool timeouts) {
    vs::Sched sc(s, 1200, 60000);
    auto      rb = std::make_shared<RingBuffer<int, SIZE, WS, CS>>();
    const int total = 1 + int(s.below(5));
    const int nd    = int(s.below(3));
    std::vector<std::shared_ptr<Sequence>> deps;
    for (int i = 0; i < nd; ++i) deps.push_back(std::make_shared<Sequence>());
    auto bar = newBarrier(rb, deps);
    const bool willAlert = s.coin();
    bool       alerted = false, publishing = true;
    int        alerts = 0, timeoutsSeen = 0, waits = 0;
    std::int64_t reached = -1;
    std::set<std::int64_t> published;
    std::vector<std::int64_t> claimed;
    const int split = int(s.below(3));
    const std::size_t late = s.chance(1, 12) ? 300 + s.below(1200) : 0; // also after the strategies have given up spinning
    sc.spawn([&] {
        if (!willAlert) for (std::size_t k = late; k > 0; --k) vs::point();
        for (int k = 0; k < total;) {
            if (split == 1 && multi && k + 1 < total) { // publishes a claimed pair in reverse order
                const auto hi = rb->next(2);
                vs::point();
                published.insert(hi);
                rb->publish(hi);
                vs::point();
                published.insert(hi - 1);
                rb->publish(hi - 1);
                k += 2;
            } else {
                const auto q = rb->next();
                vs::point();
                published.insert(q);
                rb->publish(q);
                ++k;
            }
            if (split == 2) std::this_thread::sleep_for(std::chrono::microseconds(s.below(40)));
        }
        publishing = false;
    }, "publisher");
    for (int i = 0; i < nd; ++i)
        sc.spawn([&, i] {
            while (deps[std::size_t(i)]->value() < total - 1) {
                std::int64_t top = -1;
                while (published.contains(top + 1)) ++top;
                if (top > deps[std::size_t(i)]->value()) deps[std::size_t(i)]->setValue(deps[std::size_t(i)]->value() + 1);
                std::this_thread::yield();
            }
        }, "dependency" + std::to_string(i));
    if (willAlert)
        sc.spawn([&] {
            for (std::size_t k = late + s.below(30); k > 0; --k) vs::point();
            alerted = true;
            bar->alert();
            s.check(bar->isAlerted(), "isAlerted() after alert()");
        }, "alerter");
    const int waiters = 1 + int(s.below(2));
    for (int w = 0; w < waiters; ++w)
        sc.spawn([&] {
            std::int64_t next = 0;
            while (next < total + (willAlert ? 1 : 0)) { // with an alert to come, also waits for an event that never comes
                const auto t0 = sc.nowNs;
                ++waits;
                try {
                    const auto r = bar->waitFor(next);
                    s.check(r >= next - 1 && r < total, [&] { return "waitFor(" + std::to_string(next) + ") returned " + std::to_string(r); });
                    for (auto q = next; q <= r; ++q) s.check(published.contains(q), [&] { return "waitFor(" + std::to_string(next) + ") returned " + std::to_string(r) + " but " + std::to_string(q) + " has not been published"; });
                    for (auto &d : deps) s.check(d->value() >= r, [&] { return "waitFor(" + std::to_string(next) + ") returned " + std::to_string(r) + " although a dependency is at " + std::to_string(d->value()); });
                    next = r + 1;
                    reached = std::max(reached, r);
                } catch (const AlertException &) {
                    s.check(alerted, "AlertException without an alert");
                    ++alerts;
                    break;
                } catch (const TimeoutException &) {
                    s.check(timeouts, "TimeoutException from a wait strategy without timeout");
                    s.check(sc.nowNs - t0 >= 20000, [&] { return "TimeoutException after " + std::to_string(sc.nowNs - t0) + " ns instead of 20 us"; });
                    ++timeoutsSeen;
                }
                if (alerted && bar->isAlerted()) {
                    bool threw = false;
                    try { bar->checkAlert(); } catch (const AlertException &) { threw = true; }
                    s.check(threw, "checkAlert() of an alerted barrier");
                }
            }
        }, "waiter" + std::to_string(w));
    sc.run();
    s.check(willAlert ? alerts == waiters : reached == total - 1 && alerts == 0, "a waiter neither reached the last event nor was alerted");
    if (willAlert) {
        bar->clearAlert();
        s.check(!bar->isAlerted(), "isAlerted() after clearAlert()");
        s.check(bar->waitFor(total - 1) == total - 1, "waitFor() after clearAlert()");
    }
    s.check(bar->cursor() == total - 1, "cursor() of the barrier");
    s.nontrivial(sc.switches >= 3 && waits >= 2);
    if (alerts) s.label("alerted");
    if (timeoutsSeen) s.label("timed out");
    s.note("events=" + std::to_string(total) + " dependencies=" + std::to_string(nd) + " alert=" + std::to_string(willAlert) + " waits=" + std::to_string(waits) + " switches=" + std::to_string(sc.switches));
}
PROPERTY(wait_for, 60000, 2000000, "1-2 threads wait for the events of a publisher (also published out of order) and 0-2 dependencies, with an alert at a generated moment or none; every wait strategy; non-trivial = 2 waits and 3 context switches") {
    switch (s.below(8)) {
    case 0: barrier<8, BlockingWaitStrategy, MultiThreadedStrategy>(s, true, false); break;
    case 1: barrier<8, BusySpinWaitStrategy, MultiThreadedStrategy>(s, true, false); break;
    case 2: barrier<8, SleepingWaitStrategy, SingleThreadedStrategy>(s, false, false); break;
    case 3: barrier<8, SpinWaitWaitStrategy, MultiThreadedStrategy>(s, true, false); break;
    case 4: barrier<8, TimeoutWait, MultiThreadedStrategy>(s, true, true); break;
    case 5: barrier<8, TimeoutWait, SingleThreadedStrategy>(s, false, true); break;
    case 6: barrier<8, BlockingWaitStrategy, SingleThreadedStrategy>(s, false, false); break;
    default: barrier<8, YieldingWaitStrategy, SingleThreadedStrategy>(s, false, false); break;
    }
}
// the queue that hands tasks to the scheduler's threads
PROPERTY(blocking_queue, 60000, 2000000, "1-3 producers and 1-3 consumers of one queue, waiting with and without timeout; non-trivial = 3 or more items, 3 context switches") {
    vs::Sched sc(s, 1200, 60000);
    BlockingQueue<std::pair<int, int>> q;
    const int np = 1 + int(s.below(3)), nc = 1 + int(s.below(3));
    std::vector<int> counts;
    int total = 0, popped = 0, pushed = 0;
    for (int p = 0; p < np; ++p) counts.push_back(int(s.below(4))), total += counts.back();
    std::set<std::pair<int, int>> seen;
    for (int p = 0; p < np; ++p)
        sc.spawn([&, p] {
            for (int k = 0; k < counts[std::size_t(p)]; ++k) {
                ++pushed;
                const std::pair<int, int> v{ p, k };
                if (s.coin()) q.push(v);
                else q.push(std::pair<int, int>{ p, k });
            }
        }, "producer" + std::to_string(p));
    int reserved = 0;
    for (int c = 0; c < nc; ++c)
        sc.spawn([&] {
            std::map<int, int> last;
            while (true) {
                std::pair<int, int> v{ -1, -1 };
                if (s.coin() && reserved < total) { // one item is certain to come
                    ++reserved;
                    v = q.pop();
                } else {
                    if (reserved >= total) break;
                    ++reserved;
                    const auto us = s.below(30);
                    const auto t0 = sc.nowNs;
                    while (!q.timedWaitAndPop(v, std::chrono::microseconds(us))) s.check(sc.nowNs - t0 >= std::int64_t(us) * 1000, "timedWaitAndPop gave up early");
                }
                ++popped;
                s.check(popped <= pushed && seen.insert(v).second, "an item was delivered twice or invented");
                auto l = last.find(v.first);
                s.check(l == last.end() || l->second < v.second, "the items of a producer were delivered out of order");
                last[v.first] = v.second;
            }
        }, "consumer" + std::to_string(c));
    sc.run();
    s.check(popped == total && int(seen.size()) == total && q.empty(), [&] { return std::to_string(popped) + " of " + std::to_string(total) + " items delivered"; });
    s.nontrivial(total >= 3 && sc.switches >= 3);
    s.note("producers=" + std::to_string(np) + " consumers=" + std::to_string(nc) + " items=" + std::to_string(total));
}
// concurrent changes of the set of gating sequences
PROPERTY(gating_changes, 60000, 2000000, "1-3 consumers register their sequences while 1-2 producers publish, follow the cursor, and deregister; ring of 4 slots; non-trivial = 3 context switches") {
    vs::Sched sc(s, 1200, 60000);
    using RBT = RingBuffer<int, 4, BusySpinWaitStrategy, MultiThreadedStrategy>;
    auto      rb = std::make_shared<RBT>();
    const int np = 1 + int(s.below(2)), na = 1 + int(s.below(3));
    std::vector<std::shared_ptr<Sequence>> all;
    for (int i = 0; i < na; ++i) all.push_back(std::make_shared<Sequence>());
    int producing = np;
    for (int p = 0; p < np; ++p)
        sc.spawn([&, n = 1 + s.below(5)] {
            for (std::size_t k = 0; k < n; ++k) {
                rb->publishEvent([](int &&, std::int64_t) {});
                const auto r = rb->getRemainingCapacity();
                s.check(r <= 4, [&] { return "getRemainingCapacity() = " + std::to_string(r); });
                (void) rb->hasAvailableCapacity(1);
            }
            --producing;
        }, "producer" + std::to_string(p));
    for (int i = 0; i < na; ++i)
        sc.spawn([&, i] {
            auto &mine = all[std::size_t(i)];
            const auto before = rb->cursor();
            rb->addGatingSequences({ mine });
            s.check(mine->value() >= before && mine->value() <= rb->cursor(), "a new gating sequence does not start at the cursor");
            auto g = rb->getGatingSequences();
            s.check(std::find(g->begin(), g->end(), mine) != g->end(), "an added gating sequence is missing");
            while (producing > 0) {
                mine->setValue(rb->cursor());
                std::this_thread::yield();
            }
        }, "consumer" + std::to_string(i));
    sc.run();
    auto g = rb->getGatingSequences();
    s.check(int(g->size()) == na, "a gating sequence was lost");
    for (auto &x : all) s.check(rb->removeGatingSequence(x), "removeGatingSequence() of a registered sequence");
    for (auto &x : all) s.check(!rb->removeGatingSequence(x), "removeGatingSequence() of an unknown sequence");
    s.check(rb->getGatingSequences()->empty(), "sequences left");
    s.nontrivial(sc.switches >= 3);
    s.note("producers=" + std::to_string(np) + " adders=" + std::to_string(na) + " switches=" + std::to_string(sc.switches));
}
#endif
#endif
