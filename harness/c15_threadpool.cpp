// C15: thread pool: every task runs once, in priority order, and its outcome reaches the future, under every schedule.
#if !defined(REAL_THREADS)
#include "sched.hpp"
namespace vs {
struct ThreadInfo { // what the pool asked of the OS for a thread
    std::string              name;
    std::vector<std::string> names;
    std::vector<bool>        mask;
    int                      policy = -100, priority = -100;
};
static std::map<Sched::Fib *, ThreadInfo> info;
} // namespace vs
namespace std {
class verif_thread { // a fiber of the scheduler
    vs::Sched::Fib *f = nullptr;

public:
    using id = vs::Sched::Fib *;
    verif_thread() = default;
    template<typename F, typename... A>
    explicit verif_thread(F &&fn, A &&...a) {
        auto *s = vs::S();
        if (!s) throw pbt::Fail{ "thread created outside of the scheduler" };
        f = s->spawn([fn = std::decay_t<F>(std::forward<F>(fn)), ... a = std::decay_t<A>(std::forward<A>(a))]() mutable { std::invoke(std::move(fn), std::move(a)...); }, "pool thread");
        vs::info[f];
        vs::point();
    }
    verif_thread(verif_thread &&o) noexcept : f(std::exchange(o.f, nullptr)) {}
    verif_thread &operator=(verif_thread &&o) noexcept {
        if (f) throw pbt::Fail{ "a running thread was overwritten (std::terminate)" };
        f = std::exchange(o.f, nullptr);
        return *this;
    }
    ~verif_thread() {
        if (f && vs::S()) {
            if (!vs::S()->err) vs::S()->err = std::make_exception_ptr(pbt::Fail{ "a thread was destroyed without being joined (std::terminate)" });
            vs::S()->stop = true;
        }
    }
    bool joinable() const noexcept { return f != nullptr; }
    id   get_id() const noexcept { return f; }
    id   native_handle() const noexcept { return f; }
    void join() {
        if (!f) throw std::system_error(std::make_error_code(std::errc::invalid_argument), "join");
        auto *g = f;
        vs::point();
        if (!g->done) vs::S()->block([g] { return g->done; });
        f = nullptr;
    }
    void detach() { f = nullptr; }
    static unsigned hardware_concurrency() noexcept { return 2; }
};
} // namespace std
#define thread verif_thread
#define jthread verif_thread
// stand-in for the OS interface of threads (C09 is about the real one)
#define OPENCMW_CPP_THREADAFFINITY_HPP
#include <Formatter.hpp>
namespace opencmw::thread {
enum Policy { UNKNOWN = -1, OTHER = 0, FIFO = 1, ROUND_ROBIN = 2 };
template<typename... T> vs::ThreadInfo &infoOf(T &...t) {
    if constexpr (sizeof...(T) == 0) return vs::info[vs::S()->cur];
    else {
        auto id = (t.get_id(), ...);
        if (!id) throw std::system_error(std::make_error_code(std::errc::no_such_process), "thread");
        return vs::info[id];
    }
}
template<typename... T> void setThreadName(const std::string_view &n, T &...t) {
    vs::point();
    infoOf(t...).name = std::string(n);
    infoOf(t...).names.push_back(std::string(n));
}
template<typename... T> std::string getThreadName(T &...t) { return infoOf(t...).name; }
template<typename... T> void setThreadSchedulingParameter(Policy p, int prio, T &...t) {
    vs::point();
    infoOf(t...).policy = int(p), infoOf(t...).priority = prio;
}
template<typename M, typename... T> void setThreadAffinity(const M &m, T &...t) {
    vs::point();
    if (std::none_of(m.begin(), m.end(), [](bool b) { return b; })) throw std::system_error(std::make_error_code(std::errc::invalid_argument), "setThreadAffinity");
    infoOf(t...).mask = std::vector<bool>(m.begin(), m.end());
}
} // namespace opencmw::thread
#include <ThreadPool.hpp>
using namespace opencmw;

static int live = 0;
struct Tracked { // something a task captures
    Tracked() { ++live; }
    Tracked(const Tracked &) { ++live; }
    Tracked(Tracked &&) noexcept { ++live; }
    Tracked &operator=(const Tracked &) = default;
    ~Tracked() { --live; }
};
struct TaskRec {
    int          id = 0, kind = 0, prio = 0, work = 0;
    bool         named = false, isVoid = true;
    int          starts = 0, ends = 0;
    bool         submitted = false;
    std::int64_t at = 0, startedAt = 0;
};
template<TaskType tt>
static void pools(pbt::Src &s) {
    vs::info.clear();
    live = 0;
    {
        vs::Sched sc(s, 5000, 1500000);
        const unsigned min = 1 + unsigned(s.below(2)), max = min + unsigned(s.below(2));
        const int      ending = int(s.below(4)); // 0, 1: wait for everything; 2: requestShutdown; 3: destroy
        const bool     waitInit = s.coin(), shutdownFirst = s.coin();
        const int      submitters = 1 + int(s.below(2));
        std::vector<std::vector<TaskRec>> plan(static_cast<std::size_t>(submitters));
        int id = 0;
        for (auto &p : plan)
            for (std::size_t k = 1 + s.below(4); k > 0; --k) {
                TaskRec r;
                r.id   = id++;
                r.kind = int(s.below(4)); // 0: void, 1: void with arguments, 2: value, 3: throws
                r.isVoid = r.kind < 2;
                r.work = int(s.weighted({ 3, 2, 1 }));
                r.named = s.chance(1, 4);
                p.push_back(r);
            }
        s.note(tt == IO_BOUND ? "IO" : "CPU", " pool ", min, "-", max, ", ending ", ending);
        for (auto &p : plan) {
            s.note("submitter:");
            for (auto &r : p) s.note("  task ", r.id, r.kind == 0 ? " void" : r.kind == 1 ? " void(args)" : r.kind == 2 ? " value" : " throws", " work ", r.work, r.named ? " named" : "");
        }
        std::map<int, std::future<int>> futures;
        bool over = false;
        int  running = 0, submittersDone = 0, ran = 0;
        using Pool = BasicThreadPool<tt>;
        std::unique_ptr<Pool> pool;
        struct Leak { // a failed case leaves threads that cannot be joined any more
            std::unique_ptr<Pool> &p;
            ~Leak() { (void) p.release(); }
        } leak{ pool };
        const auto body = [&](TaskRec &r) {
            s.check(!over, [&] { return "task " + std::to_string(r.id) + " runs after the shutdown"; });
            s.check(r.submitted, "a task runs that was not submitted");
            s.check(++r.starts == 1, [&] { return "task " + std::to_string(r.id) + " runs a second time"; });
            r.startedAt = vs::nowNs();
            ++running;
            const auto name = vs::info[vs::S()->cur].name;
            if (r.named) s.check(name == "aName", [&] { return "a task named aName runs in a thread named '" + name + "'"; });
            else s.check(name.empty() || name.starts_with("pool#"), [&] { return "a task without a name runs in a thread named '" + name + "'"; });
            for (int i = 0; i < r.work; ++i) {
                if (i == 0) vs::yieldPoint();
                else std::this_thread::sleep_for(std::chrono::microseconds(300));
            }
            --running;
            ++r.ends;
            ++ran;
        };
        const auto submit = [&](TaskRec &r) {
            r.submitted = true;
            r.at        = vs::nowNs();
            Tracked t;
            const auto go = [&]<basic_fixed_string nm>() {
                switch (r.kind) {
                case 0: pool->template execute<nm>([&body, &r, t] { body(r); }); break;
                case 1:
                    pool->template execute<nm>([&body, &r, &s, t](auto... a) {
                        if constexpr (sizeof...(a) == 2) {
                            const int vals[] = { int(a)... };
                            s.check(vals[0] == r.id && vals[1] == 77, "a task got other arguments");
                            body(r);
                        } else s.check(false, "a task was called without its arguments");
                    }, int(r.id), short(77));
                    break;
                case 2: futures[r.id] = pool->template execute<nm>([&body, &r, t] { body(r); return 1000 + r.id; }); break;
                case 3:
                    futures[r.id] = pool->template execute<nm>([&body, &r, t]() -> int {
                        body(r);
                        throw std::runtime_error("task " + std::to_string(r.id));
                    });
                    break;
                }
            };
            if (r.named) go.template operator()<"aName">();
            else go.template operator()<"">();
        };
        const auto submitAll = [&](std::vector<TaskRec> &p) {
            for (auto &r : p) {
                submit(r);
                s.check(pool->numThreads() <= 64, "numThreads()");
            }
            ++submittersDone;
        };
        const auto total = [&](auto &&pred) {
            int n = 0;
            for (auto &p : plan)
                for (auto &r : p) n += pred(r) ? 1 : 0;
            return n;
        };
        const std::int64_t patience = 2'000'000'000; // far less than the 10 s after which a sleeping worker looks for tasks by itself
        sc.spawn([&] {
            pool = std::make_unique<Pool>("pool", min, max);
            if (tt == IO_BOUND) pool->keepAliveDuration = std::chrono::milliseconds(10);
            if (waitInit) {
                pool->waitUntilInitialised();
                s.check(pool->isInitialised(), "isInitialised() after waiting for it");
                s.check(pool->numThreads() >= min, [&] { return "an initialised pool has " + std::to_string(pool->numThreads()) + " threads, the minimum is " + std::to_string(min); });
            }
            for (int i = 1; i < submitters; ++i) vs::S()->spawn([&, i] { submitAll(plan[std::size_t(i)]); }, "submitter");
            submitAll(plan[0]);
            if (submittersDone < submitters) vs::S()->block([&] { return submittersDone == submitters; });
            if (ending <= 1) {
                vs::S()->block([&] { return ran == id; }, vs::nowNs() + 60'000'000'000);
                s.check(ran == id, [&] { return std::to_string(id - ran) + " of " + std::to_string(id) + " tasks never ran"; });
                for (auto &p : plan)
                    for (auto &r : p) s.check(r.startedAt - r.at < patience, [&] { return "task " + std::to_string(r.id) + " was started only " + std::to_string((r.startedAt - r.at) / 1000000) + " ms after its submission although threads were idle"; });
                std::this_thread::sleep_for(std::chrono::milliseconds(1));
                if (pool->numTasksRunning() || pool->numTasksQueued()) std::this_thread::sleep_for(std::chrono::milliseconds(5));
                s.check(pool->numTasksRunning() == 0 && pool->numTasksQueued() == 0, [&] { return "all tasks are done, but " + std::to_string(pool->numTasksRunning()) + " are said to run and " + std::to_string(pool->numTasksQueued()) + " to be queued"; });
                if (tt == IO_BOUND && ending == 1) {
                    std::this_thread::sleep_for(std::chrono::milliseconds(60));
                    s.check(pool->numThreads() == min, [&] { return "after the keep-alive time the pool has " + std::to_string(pool->numThreads()) + " threads, the minimum is " + std::to_string(min); });
                    s.label("shrunk");
                }
            }
            const auto before = vs::nowNs();
            if (ending == 2 || (ending < 2 && shutdownFirst)) {
                pool->requestShutdown();
                s.check(pool->isShutdown(), "isShutdown()");
                over = true;
                s.check(running == 0, "requestShutdown returned while a task is running");
                s.check(pool->numThreads() == 0, [&] { return "after the shutdown the pool has " + std::to_string(pool->numThreads()) + " threads"; });
            }
            pool.reset();
            over = true;
            s.check(running == 0, "the pool was destroyed while a task is running");
            s.check(vs::nowNs() - before < patience, [&] { return "the shutdown took " + std::to_string((vs::nowNs() - before) / 1000000) + " ms"; });
        }, "owner");
        sc.run();
        for (auto &p : plan)
            for (auto &r : p) {
                s.check(r.starts == r.ends, "a task was started but did not end");
                if (r.isVoid) continue;
                auto &f = futures.at(r.id);
                s.check(f.valid() && f.wait_for(std::chrono::seconds(0)) == std::future_status::ready, [&] { return "the future of task " + std::to_string(r.id) + (r.starts ? ", which ran," : ", which was dropped,") + " is not ready"; });
                try {
                    const int v = f.get();
                    s.check(r.starts == 1 && r.kind == 2 && v == 1000 + r.id, "a future has a wrong value");
                } catch (const std::runtime_error &e) {
                    if (dynamic_cast<const std::future_error *>(&e)) s.check(r.starts == 0, "a task ran but its future is broken");
                    else s.check(r.starts == 1 && r.kind == 3 && e.what() == "task " + std::to_string(r.id), "a future has a wrong exception");
                } catch (const std::future_error &) { s.check(r.starts == 0, "a task ran but its future is broken"); }
            }
        s.nontrivial(ran >= 2 && sc.switches >= 5);
        if (total([](auto &r) { return r.starts == 0; })) s.label("dropped tasks");
        for (auto &f : sc.fibs) s.check(f->done, "a thread is left over");
    }
    s.check(live == 0, [&] { return std::to_string(live) + " objects captured by tasks were never destroyed"; });
}
#define RULE "a pool of 1-3 threads, 1-2 submitters of up to 4 tasks each (with arguments, results, exceptions, names), waiting for the end or shutting down at once, schedule drawn per synchronisation access; non-trivial = 2 tasks ran and 5 context switches"
PROPERTY(cpu_bound, 12000, 150000, RULE) { pools<CPU_BOUND>(s); }
PROPERTY(io_bound, 12000, 150000, RULE) { pools<IO_BOUND>(s); }

PROPERTY(priorities, 6000, 60000, "up to 14 tasks of 5 priorities queued while the only thread is busy: run by priority, then in order of submission; non-trivial = 3 priorities") {
    vs::info.clear();
    vs::Sched sc(s, 1500, 800000);
    std::vector<std::pair<int, int>> order, expected; // (priority, number)
    std::vector<int>                 prios;
    bool                             open = false, busy = false;
    for (std::size_t k = 1 + s.below(14); k > 0; --k) prios.push_back(int(s.below(5)));
    s.note("priorities ", prios.size());
    for (auto p : prios) s.note("  priority ", p);
    sc.spawn([&] {
        BasicThreadPool<CPU_BOUND> pool("pool", 1, 1);
        pool.waitUntilInitialised();
        pool.execute([&] {
            busy = true;
            vs::S()->block([&] { return open; });
        });
        vs::S()->block([&] { return busy; });
        s.check(pool.numTasksRunning() == 1, "numTasksRunning() with one running task");
        int n = 0;
        static constexpr int value[] = { 0, 1, 5, 20, 1000 };
        for (auto p : prios) {
            const int q = n++;
            switch (p) {
            case 0: pool.execute<"", 0>([&, q] { order.push_back({ 0, q }); }); break;
            case 1: pool.execute<"", 1>([&, q] { order.push_back({ 1, q }); }); break;
            case 2: pool.execute<"", 5>([&, q] { order.push_back({ 5, q }); }); break;
            case 3: pool.execute<"", 20>([&, q] { order.push_back({ 20, q }); }); break;
            case 4: pool.execute<"", 1000>([&, q] { order.push_back({ 1000, q }); }); break;
            }
            expected.push_back({ value[p], q });
            s.check(pool.numTasksQueued() == std::size_t(n), [&] { return "numTasksQueued() = " + std::to_string(pool.numTasksQueued()) + " with " + std::to_string(n) + " waiting tasks"; });
        }
        open = true;
        vs::S()->block([&] { return order.size() == prios.size(); }, vs::nowNs() + 60'000'000'000);
    }, "owner");
    sc.run();
    std::stable_sort(expected.begin(), expected.end(), [](auto &a, auto &b) { return a.first > b.first; });
    s.check(order == expected, [&] {
        std::string t = "tasks ran in the order (priority/number)";
        for (auto &[p, q] : order) t += " " + std::to_string(p) + "/" + std::to_string(q);
        return t;
    });
    s.nontrivial(std::set<int>(prios.begin(), prios.end()).size() >= 3);
}

template<TaskType tt>
static void sleepers(pbt::Src &s) {
    vs::info.clear();
    vs::Sched      sc(s, 0, 800000);
    const unsigned n = 1 + unsigned(s.weighted({ 3, 1 }));
    const bool     shutdown = s.coin();
    const auto     early = s.below(14);
    const bool     byRequest = s.coin();
    sc.rate              = s.oneOf<unsigned>({ 30, 12, 100 });
    s.note(n, shutdown ? " threads, shut down " : " threads, task submitted ", early, " steps before the first one falls asleep");
    std::unique_ptr<BasicThreadPool<tt>> pool;
    bool asleep = false;
    int  ran    = 0;
    sc.spawn([&] {
        pool = std::make_unique<BasicThreadPool<tt>>("pool", n, n);
        std::vector<vs::Sched::Fib *> w;
        for (auto &f : vs::S()->fibs)
            if (f->name == "pool thread") w.push_back(f.get());
        const auto allAsleep = [w] { return std::all_of(w.begin(), w.end(), [](auto *f) { return f->blocked && f->deadline > 0; }); };
        vs::S()->block(allAsleep, vs::nowNs() + 1'000'000'000);
        vs::Sched::Fib *who = nullptr;
        std::uint64_t   ended = 0;
        pool->execute([&] {
            who   = vs::S()->cur;
            ended = who->points;
            ++ran;
        });
        vs::S()->block([&] { return ran == 1; }, vs::nowNs() + 60'000'000'000);
        if (!who) return;
        vs::S()->block(allAsleep, vs::nowNs() + 1'000'000'000);
        const auto cycle = who->points - ended; // how far it is from the end of a task to sleep
        pool->execute([&] {
            who   = vs::S()->cur;
            ended = who->points;
            ++ran;
        });
        vs::S()->block([&] { return ran == 2 && who->points + early >= ended + cycle; }, vs::nowNs() + 60'000'000'000);
        sc.randomSteps = sc.steps + 400;
        asleep         = true;
        const auto t0  = vs::nowNs();
        auto       t1  = t0;
        if (!shutdown) {
            pool->execute([&] {
                t1 = vs::nowNs();
                ++ran;
            });
            vs::S()->block([&] { return ran == 3; }, vs::nowNs() + 60'000'000'000);
            s.check(ran == 3, "a task never ran");
            s.check(t1 - t0 < 2'000'000'000, [&] { return "a task was started only " + std::to_string((t1 - t0) / 1000000) + " ms after its submission although all threads were idle"; });
        }
        const auto t2 = vs::nowNs();
        if (byRequest) pool->requestShutdown();
        else pool.reset();
        s.check(vs::nowNs() - t2 < 2'000'000'000, [&] { return "the shutdown of an idle pool took " + std::to_string((vs::nowNs() - t2) / 1000000) + " ms"; });
        pool.reset();
    }, "owner");
    try {
        sc.run();
    } catch (...) {
        (void) pool.release();
        throw;
    }
    (void) pool.release();
    s.nontrivial(asleep);
}
PROPERTY(sleepers_cpu, 12000, 150000, "a task is submitted, or the pool shut down, while its 1-2 threads are about to fall asleep; non-trivial = they were") { sleepers<CPU_BOUND>(s); }
PROPERTY(sleepers_io, 6000, 60000, "a task is submitted, or the pool shut down, while its 1-2 threads are about to fall asleep; non-trivial = they were") { sleepers<IO_BOUND>(s); }

template<TaskType tt>
static void constraints(pbt::Src &s) {
    vs::info.clear();
    vs::Sched      sc(s, 1500, 800000);
    const unsigned n = 1 + unsigned(s.below(4));
    std::vector<std::vector<bool>> masks;
    for (std::size_t k = 1 + s.below(3); k > 0; --k) {
        std::vector<bool> m;
        for (std::size_t c = 1 + s.below(6); c > 0; --c) m.push_back(s.coin());
        if (std::none_of(m.begin(), m.end(), [](bool b) { return b; })) m[s.below(m.size())] = true;
        masks.push_back(m);
    }
    const int prio = int(s.below(5));
    const bool sched = s.coin();
    s.note(n, " threads, ", masks.size(), " masks");
    for (auto &m : masks) {
        std::string t;
        for (bool b : m) t += b ? '1' : '0';
        s.note("mask ", t);
    }
    sc.spawn([&] {
        BasicThreadPool<tt> pool("pool", n, n);
        if (s.coin()) pool.waitUntilInitialised();
        auto *me = vs::S()->cur;
        const auto workers = [&] {
            std::vector<vs::ThreadInfo *> w;
            for (auto &[f, i] : vs::info)
                if (f != me) w.push_back(&i);
            return w;
        };
        s.check(workers().size() == n, [&] { return "the pool has started " + std::to_string(workers().size()) + " threads"; });
        for (auto *w : workers()) s.check(w->name.starts_with("pool#"), [&] { return "a thread of the pool is named '" + w->name + "'"; });
        for (auto &m : masks) {
            pool.setAffinityMask(m);
            s.check(pool.getAffinityMask() == m, "getAffinityMask()");
            s.check(vs::info[me].mask.empty(), "the affinity of the calling thread was changed");
            std::vector<int> used(m.size(), 0);
            for (auto *w : workers()) {
                s.check(!w->mask.empty(), "a thread of the pool got no affinity");
                int cores = 0;
                for (std::size_t c = 0; c < w->mask.size(); ++c)
                    if (w->mask[c]) {
                        s.check(c < m.size() && m[c], [&] { return "a thread may run on CPU " + std::to_string(c) + ", which is not in the mask"; });
                        ++used[c], ++cores;
                    }
                s.check(cores > 0, "a thread of the pool may run nowhere");
                if (tt == IO_BOUND) s.check(w->mask == m, "a thread of an I/O-bound pool may not run on all CPUs of the mask");
            }
            const auto nCores = std::count(m.begin(), m.end(), true);
            for (std::size_t c = 0; c < m.size(); ++c)
                if (m[c]) {
                    s.check(used[c] > 0, [&] { return "no thread may run on CPU " + std::to_string(c) + " of the mask"; });
                    if (tt == CPU_BOUND) s.check(used[c] <= (int(n) + int(nCores) - 1) / int(nCores), [&] { return std::to_string(used[c]) + " threads share CPU " + std::to_string(c) + " although there are " + std::to_string(nCores) + " CPUs for " + std::to_string(n) + " threads"; });
                }
        }
        if (sched) {
            pool.setThreadSchedulingPolicy(opencmw::thread::FIFO, prio);
            s.check(pool.getSchedulingPolicy() == opencmw::thread::FIFO && pool.getSchedulingPriority() == prio, "getSchedulingPolicy()");
            for (auto *w : workers()) s.check(w->policy == int(opencmw::thread::FIFO) && w->priority == prio, "a thread of the pool did not get the scheduling policy");
        }
        for (auto *w : workers()) s.check(w->name.starts_with("pool#"), [&] { return "a thread of the pool is named '" + w->name + "'"; });
    }, "owner");
    sc.run();
    s.nontrivial(n >= 2);
}
PROPERTY(affinity_cpu, 6000, 60000, "pools of 1-4 threads with generated CPU masks and scheduling policies; non-trivial = 2 threads") { constraints<CPU_BOUND>(s); }
PROPERTY(affinity_io, 6000, 60000, "pools of 1-4 threads with generated CPU masks and scheduling policies; non-trivial = 2 threads") { constraints<IO_BOUND>(s); }
#else
#include "pbt.hpp"
#include <atomic>
#include <thread>
#include <ThreadPool.hpp>
using namespace opencmw;
template<TaskType tt>
static void real(pbt::Src &s) {
    const unsigned min = 1 + unsigned(s.below(3)), max = min + unsigned(s.below(3));
    const int      each = 1 + int(s.below(20)), threads = 1 + int(s.below(3));
    const bool     early = s.coin(), nap = s.coin();
    std::atomic<int> ran{ 0 };
    std::vector<std::vector<std::future<std::string>>> fs(static_cast<std::size_t>(threads));
    std::vector<int>                                   data(std::size_t(each * threads), 0); // written by tasks, read after get()
    {
        BasicThreadPool<tt> pool("tsan", min, max);
        std::vector<std::thread> ts;
        for (int t = 0; t < threads; ++t)
            ts.emplace_back([&, t] {
                for (int i = 0; i < each; ++i) {
                    const int id = t * each + i;
                    auto      text = std::make_unique<std::string>("task " + std::to_string(id));
                    fs[std::size_t(t)].push_back(pool.execute([&, id, text = std::move(text)] {
                        data[std::size_t(id)] = id + 1;
                        if (nap && id % 3 == 0) std::this_thread::sleep_for(std::chrono::microseconds(200));
                        ++ran;
                        if (id % 5 == 4) throw std::runtime_error(*text);
                        return *text;
                    }));
                }
                if (!early)
                    for (auto &f : fs[std::size_t(t)]) f.wait();
            });
        for (auto &t : ts) t.join();
        if (s.coin()) pool.requestShutdown();
    }
    int seen = 0;
    for (auto &v : fs)
        for (auto &f : v) {
            const int id = int(&v - fs.data()) * each + int(&f - v.data());
            try {
                s.check(f.get() == "task " + std::to_string(id) && data[std::size_t(id)] == id + 1, "result of a task");
                ++seen;
            } catch (const std::future_error &) { s.check(early, "a task was dropped although nobody had shut down the pool"); }
            catch (const std::runtime_error &e) {
                s.check(id % 5 == 4 && e.what() == "task " + std::to_string(id), "exception of a task");
                ++seen;
            }
        }
    s.check(seen == ran, "number of tasks that ran and of results");
    s.nontrivial(ran >= 3);
}
PROPERTY(cpu_bound, 250, 3000, "1-3 threads submit up to 20 tasks each to a pool of real threads, under ThreadSanitizer; non-trivial = 3 tasks ran", .nondet = true) { real<CPU_BOUND>(s); }
PROPERTY(io_bound, 250, 3000, "1-3 threads submit up to 20 tasks each to a pool of real threads, under ThreadSanitizer; non-trivial = 3 tasks ran", .nondet = true) { real<IO_BOUND>(s); }
#endif
