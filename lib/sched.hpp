// sched.hpp -- controlled scheduler: the "threads" of a case are fibers and every access to a std::atomic / mutex /
// condition variable / sleep / yield / clock of the code under test is a scheduling point whose outcome is drawn from the
// case's choice sequence.  Interleavings are therefore generated, replayed and shrunk like any other input.
// Include this header BEFORE any repository header: it renames the synchronisation vocabulary of namespace std.
// Memory model: sequentially consistent (weaker behaviours are left to the ThreadSanitizer builds).
#ifndef VERIF_SCHED_HPP
#define VERIF_SCHED_HPP
#include <algorithm>
#include <any>
#include <array>
#include <atomic>
#include <barrier>
#include <bit>
#include <bitset>
#include <cassert>
#include <charconv>
#include <chrono>
#include <cmath>
#include <compare>
#include <concepts>
#include <condition_variable>
#include <cstdint>
#include <cstring>
#include <deque>
#include <exception>
#include <filesystem>
#include <format>
#include <fstream>
#include <functional>
#include <future>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <latch>
#include <list>
#include <map>
#include <memory>
#include <memory_resource>
#include <mutex>
#include <numeric>
#include <optional>
#include <queue>
#include <random>
#include <ranges>
#include <semaphore>
#include <set>
#include <shared_mutex>
#include <source_location>
#include <span>
#include <sstream>
#include <stop_token>
#include <string>
#include <string_view>
#include <system_error>
#include <thread>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>

#include <cxxabi.h>
#include <boost/context/fiber.hpp>
#include <boost/context/fixedsize_stack.hpp>
#include "pbt.hpp"

namespace vs {
namespace bc = boost::context;

struct StackPool {
    std::vector<bc::stack_context> free;
    static StackPool &get() {
        static StackPool *p = new StackPool;
        return *p;
    }
};
struct PooledStack {
    static constexpr std::size_t sz = 192 * 1024;
    bc::stack_context allocate() {
        auto &f = StackPool::get().free;
        if (!f.empty()) {
            auto c = f.back();
            f.pop_back();
            return c;
        }
        return bc::fixedsize_stack(sz).allocate();
    }
    void deallocate(bc::stack_context &c) noexcept { StackPool::get().free.push_back(c); }
};

struct EhGlobals { // __cxa_eh_globals of the Itanium C++ ABI
    void        *caught   = nullptr;
    unsigned int uncaught = 0;
};
inline EhGlobals &ehGlobals() { return *reinterpret_cast<EhGlobals *>(__cxxabiv1::__cxa_get_globals()); }
class Sched {
public:
    struct Fib {
        bc::fiber             ctx;
        std::function<void()> fn;
        std::string           name;
        bool                  done = false, blocked = false;
        std::function<bool()> pred;         // wakes when true
        std::int64_t          deadline = -1; // virtual ns, -1: none
        bool                  timedOut = false;
        int                   id       = 0;
        EhGlobals             eh;           // the C++ runtime's exception state belongs to the thread
        std::uint64_t         points = 0, blocks = 0; // scheduling points passed / times blocked by this thread
    };
    pbt::Src                        *src;
    std::vector<std::unique_ptr<Fib>> fibs;
    Fib                             *cur = nullptr;
    bc::fiber                        mainCtx;
    std::uint64_t                    steps = 0, randomSteps, maxSteps, switches = 0;
    unsigned                         rate;      // a point switches with probability 1/rate
    std::int64_t                     nowNs = 1'000'000'000'000;
    std::int64_t                     nsPerStep = 50;
    std::exception_ptr               err;
    int                              rr = 0;
    bool                             stop = false;
    static Sched *&                  active() {
        static Sched *a = nullptr;
        return a;
    }
    explicit Sched(pbt::Src &s, std::uint64_t nRandom = 4000, std::uint64_t nMax = 40000)
        : src(&s), randomSteps(nRandom), maxSteps(nMax), rate(s.oneOf<unsigned>({ 3, 2, 6, 12, 30 })) {}
    ~Sched() {
        if (active() == this) active() = nullptr;
        for (auto &f : fibs)
            if (!f->done) new bc::fiber(std::move(f->ctx)), (void) f.release(); // never unwind: the code under test has noexcept frames
    }
    Fib *spawn(std::function<void()> fn, std::string name = {}) {
        auto f  = std::make_unique<Fib>();
        Fib *p  = f.get();
        p->fn   = std::move(fn);
        p->name = std::move(name);
        p->id   = int(fibs.size());
        p->ctx  = bc::fiber(std::allocator_arg, PooledStack{}, [this, p](bc::fiber &&m) {
            mainCtx = std::move(m);
            try {
                p->fn();
            } catch (const bc::detail::forced_unwind &) {
                throw;
            } catch (...) {
                if (!err) err = std::current_exception();
                stop = true;
            }
            p->fn   = nullptr;
            p->done = true;
            return std::move(mainCtx);
        });
        fibs.push_back(std::move(f));
        return p;
    }
    bool runnable(Fib &f) {
        if (f.done) return false;
        if (!f.blocked) return true;
        if (f.pred && f.pred()) return true;
        if (f.deadline >= 0 && nowNs >= f.deadline) {
            f.timedOut = true;
            return true;
        }
        return false;
    }
    Fib *choose(bool forced) {
        std::vector<Fib *> r;
        for (;;) {
            r.clear();
            for (auto &f : fibs)
                if (runnable(*f)) r.push_back(f.get());
            if (!r.empty()) break;
            std::int64_t d = -1;
            bool         any = false;
            for (auto &f : fibs)
                if (!f->done) {
                    any = true;
                    if (f->deadline >= 0 && (d < 0 || f->deadline < d)) d = f->deadline;
                }
            if (!any) return nullptr;
            if (d < 0) {
                std::string who;
                for (auto &f : fibs)
                    if (!f->done) who += " " + f->name;
                throw pbt::Fail{ "deadlock: every unfinished thread is blocked:" + who };
            }
            nowNs = d;
        }
        Fib *n = nullptr;
        if (steps < randomSteps) {
            std::vector<Fib *> others;
            for (auto *f : r)
                if (f != cur) others.push_back(f);
            const bool canStay = cur && !cur->done && std::find(r.begin(), r.end(), cur) != r.end() && !(forced && !others.empty());
            n                  = others.empty() && canStay ? cur : others[src->below(others.size())];
        } else { // fair phase: round robin
            for (std::size_t k = 1; k <= fibs.size() && !n; ++k) {
                auto *f = fibs[(std::size_t(rr) + k) % fibs.size()].get();
                if (std::find(r.begin(), r.end(), f) != r.end()) n = f;
            }
            rr = n->id;
        }
        n->blocked = false;
        return n;
    }
    void run() {
        active() = this;
        Fib *n   = choose(true);
        while (n) {
            cur    = n;
            auto &eh = ehGlobals();
            auto  mainEh = std::exchange(eh, n->eh);
            n->ctx = std::move(n->ctx).resume();
            n->eh = std::exchange(eh, mainEh);
            if (stop) break;
            if (++steps > maxSteps) {
                active() = nullptr;
                throw pbt::Fail{ "no progress: " + std::to_string(maxSteps) + " steps did not complete the case although scheduled fairly" };
            }
            n = next_ ? std::exchange(next_, nullptr) : choose(true);
        }
        cur      = nullptr;
        active() = nullptr;
        if (err) std::rethrow_exception(err);
    }
    // ---- called from fibers
    void switchTo(Fib *n) {
        if (n == cur) return;
        next_ = n;
        ++switches;
        mainCtx = std::move(mainCtx).resume();
    }
    void point() { // may be preempted here
        ++cur->points;
        nowNs += nsPerStep;
        ++steps;
        if (steps > maxSteps) toMain();
        if (steps < randomSteps ? src->draw(rate - 1) == rate - 1 : true) {
            bool other = false;
            for (auto &f : fibs) other = other || (f.get() != cur && runnable(*f));
            if (other) switchGuard(false);
        }
    }
    void yieldPoint() { // lets somebody else run if possible
        ++cur->points;
        nowNs += nsPerStep;
        ++steps;
        if (steps > maxSteps) toMain();
        switchGuard(true);
    }
    bool block(std::function<bool()> pred, std::int64_t deadline = -1) { // false: timed out
        cur->pred     = std::move(pred);
        cur->deadline = deadline;
        cur->blocked  = true;
        cur->timedOut = false;
        ++cur->blocks;
        ++steps;
        if (steps > maxSteps) toMain();
        switchGuard(true);
        cur->blocked  = false;
        cur->deadline = -1;
        cur->pred     = nullptr;
        return !cur->timedOut;
    }

private:
    Fib *next_ = nullptr;
    void toMain() { mainCtx = std::move(mainCtx).resume(); }
    void switchGuard(bool forced) {
        Fib *n = nullptr;
        try {
            n = choose(forced);
        } catch (...) { // deadlock: report from the main context
            err  = std::current_exception();
            stop = true;
            mainCtx = std::move(mainCtx).resume();
        }
        switchTo(n);
    }
};
inline Sched *S() {
    auto *a = Sched::active();
    return a && a->cur ? a : nullptr;
}
inline void point() {
    if (auto *a = S()) a->point();
}
inline void yieldPoint() {
    if (auto *a = S()) a->yieldPoint();
}
inline std::int64_t &baseNow() {
    static std::int64_t n = 1'000'000'000'000;
    return n;
}
inline std::int64_t nowNs() {
    if (auto *a = Sched::active()) {
        a->nowNs += a->nsPerStep;
        return a->nowNs;
    }
    return baseNow() += 1000;
}

// a payload whose copies are not atomic: every word is transferred in its own step, so unsynchronised access is observable
template<std::size_t N = 3>
struct Wide {
    std::array<std::uint64_t, N> w{};
    Wide() = default;
    explicit Wide(std::uint64_t v) { set(v); }
    Wide(const Wide &o) { *this = o; }
    Wide &operator=(const Wide &o) {
        for (std::size_t i = 0; i < N; ++i) {
            w[i] = o.w[i];
            point();
        }
        return *this;
    }
    void set(std::uint64_t v) {
        for (auto &x : w) {
            x = v;
            point();
        }
    }
    bool consistent() const { return std::all_of(w.begin(), w.end(), [&](auto x) { return x == w[0]; }); }
    bool operator==(const Wide &o) const { return w == o.w; }
};
} // namespace vs

namespace std {
template<typename T>
class verif_atomic {
    T v{};

public:
    using value_type                           = T;
    static constexpr bool is_always_lock_free = true;
    constexpr verif_atomic() noexcept          = default;
    constexpr verif_atomic(T x) noexcept : v(std::move(x)) {}
    verif_atomic(const verif_atomic &)            = delete;
    verif_atomic &operator=(const verif_atomic &) = delete;
    bool          is_lock_free() const noexcept { return true; }
    T load(std::memory_order = std::memory_order_seq_cst) const noexcept {
        vs::point();
        return v;
    }
    void store(T x, std::memory_order = std::memory_order_seq_cst) noexcept {
        vs::point();
        v = std::move(x);
    }
    operator T() const noexcept { return load(); }
    T operator=(T x) noexcept {
        store(x);
        return x;
    }
    T exchange(T x, std::memory_order = std::memory_order_seq_cst) noexcept {
        vs::point();
        return std::exchange(v, std::move(x));
    }
    bool compare_exchange_strong(T &e, T d, std::memory_order = std::memory_order_seq_cst, std::memory_order = std::memory_order_seq_cst) noexcept {
        vs::point();
        if (v == e) {
            v = std::move(d);
            return true;
        }
        e = v;
        return false;
    }
    bool compare_exchange_weak(T &e, T d, std::memory_order = std::memory_order_seq_cst, std::memory_order = std::memory_order_seq_cst) noexcept {
        vs::point();
        if (auto *a = vs::S(); a && v == e && a->steps < a->randomSteps && a->src->chance(1, 16)) return false; // spurious failure
        if (v == e) {
            v = std::move(d);
            return true;
        }
        e = v;
        return false;
    }
    T fetch_add(auto x, std::memory_order = std::memory_order_seq_cst) noexcept { vs::point(); T o = v; v = static_cast<T>(v + x); return o; }
    T fetch_sub(auto x, std::memory_order = std::memory_order_seq_cst) noexcept { vs::point(); T o = v; v = static_cast<T>(v - x); return o; }
    T fetch_or(T x, std::memory_order = std::memory_order_seq_cst) noexcept { vs::point(); T o = v; v = static_cast<T>(v | x); return o; }
    T fetch_and(T x, std::memory_order = std::memory_order_seq_cst) noexcept { vs::point(); T o = v; v = static_cast<T>(v & x); return o; }
    T fetch_xor(T x, std::memory_order = std::memory_order_seq_cst) noexcept { vs::point(); T o = v; v = static_cast<T>(v ^ x); return o; }
    T operator++() noexcept { return static_cast<T>(fetch_add(1) + 1); }
    T operator--() noexcept { return static_cast<T>(fetch_sub(1) - 1); }
    T operator++(int) noexcept { return fetch_add(1); }
    T operator--(int) noexcept { return fetch_sub(1); }
    T operator+=(auto x) noexcept { return static_cast<T>(fetch_add(x) + x); }
    T operator-=(auto x) noexcept { return static_cast<T>(fetch_sub(x) - x); }
    void wait(T old, std::memory_order = std::memory_order_seq_cst) const noexcept {
        vs::point();
        if (auto *a = vs::S()) a->block([this, old] { return !(v == old); });
    }
    void notify_one() noexcept { vs::point(); }
    void notify_all() noexcept { vs::point(); }
};
class verif_atomic_flag {
    bool v = false;

public:
    constexpr verif_atomic_flag() noexcept = default;
    constexpr verif_atomic_flag(bool b) noexcept : v(b) {}
    verif_atomic_flag(const verif_atomic_flag &)            = delete;
    verif_atomic_flag &operator=(const verif_atomic_flag &) = delete;
    bool test_and_set(std::memory_order = std::memory_order_seq_cst) noexcept { vs::point(); return std::exchange(v, true); }
    void clear(std::memory_order = std::memory_order_seq_cst) noexcept { vs::point(); v = false; }
    bool test(std::memory_order = std::memory_order_seq_cst) const noexcept { vs::point(); return v; }
    void wait(bool old, std::memory_order = std::memory_order_seq_cst) const noexcept {
        if (auto *a = vs::S()) a->block([this, old] { return v != old; });
    }
    void notify_one() noexcept { vs::point(); }
    void notify_all() noexcept { vs::point(); }
};
template<typename T> T    atomic_load(const verif_atomic<T> *a) noexcept { return a->load(); }
template<typename T> T    atomic_load_explicit(const verif_atomic<T> *a, memory_order) noexcept { return a->load(); }
template<typename T> void atomic_store(verif_atomic<T> *a, std::type_identity_t<T> x) noexcept { a->store(x); }
template<typename T> void atomic_store_explicit(verif_atomic<T> *a, std::type_identity_t<T> x, memory_order) noexcept { a->store(x); }
template<typename T> T    atomic_exchange(verif_atomic<T> *a, std::type_identity_t<T> x) noexcept { return a->exchange(x); }
template<typename T> T    atomic_exchange_explicit(verif_atomic<T> *a, std::type_identity_t<T> x, memory_order) noexcept { return a->exchange(x); }
template<typename T> T    atomic_fetch_add(verif_atomic<T> *a, std::type_identity_t<T> x) noexcept { return a->fetch_add(x); }
template<typename T> T    atomic_fetch_add_explicit(verif_atomic<T> *a, std::type_identity_t<T> x, memory_order) noexcept { return a->fetch_add(x); }
template<typename T> T    atomic_fetch_sub(verif_atomic<T> *a, std::type_identity_t<T> x) noexcept { return a->fetch_sub(x); }
template<typename T> T    atomic_fetch_sub_explicit(verif_atomic<T> *a, std::type_identity_t<T> x, memory_order) noexcept { return a->fetch_sub(x); }
template<typename T> bool atomic_compare_exchange_strong(verif_atomic<T> *a, std::type_identity_t<T> *e, std::type_identity_t<T> d) noexcept { return a->compare_exchange_strong(*e, d); }
template<typename T> bool atomic_compare_exchange_weak(verif_atomic<T> *a, std::type_identity_t<T> *e, std::type_identity_t<T> d) noexcept { return a->compare_exchange_weak(*e, d); }
template<typename T> bool atomic_compare_exchange_strong_explicit(verif_atomic<T> *a, std::type_identity_t<T> *e, std::type_identity_t<T> d, memory_order, memory_order) noexcept { return a->compare_exchange_strong(*e, d); }
template<typename T> bool atomic_compare_exchange_weak_explicit(verif_atomic<T> *a, std::type_identity_t<T> *e, std::type_identity_t<T> d, memory_order, memory_order) noexcept { return a->compare_exchange_weak(*e, d); }
inline bool atomic_flag_test_and_set(verif_atomic_flag *f) noexcept { return f->test_and_set(); }
inline bool atomic_flag_test_and_set_explicit(verif_atomic_flag *f, memory_order) noexcept { return f->test_and_set(); }
inline void atomic_flag_clear(verif_atomic_flag *f) noexcept { f->clear(); }
inline void atomic_flag_clear_explicit(verif_atomic_flag *f, memory_order) noexcept { f->clear(); }
// the (deprecated) atomic access functions of shared_ptr
template<typename T> shared_ptr<T> verif_sp_load(const shared_ptr<T> *p) { vs::point(); return *p; }

class verif_recursive_mutex {
protected:
    const void *owner = nullptr;
    int         depth = 0;
    static const void *me() {
        static char main;
        auto *a = vs::S();
        return a ? static_cast<const void *>(a->cur) : &main;
    }

public:
    verif_recursive_mutex()                              = default;
    verif_recursive_mutex(const verif_recursive_mutex &) = delete;
    void lock() {
        vs::point();
        while (owner && owner != me()) {
            if (auto *a = vs::S()) a->block([this] { return owner == nullptr; });
            else throw pbt::Fail{ "lock taken outside the scheduler while held" };
        }
        owner = me();
        ++depth;
    }
    bool try_lock() {
        vs::point();
        if (owner && owner != me()) return false;
        owner = me();
        ++depth;
        return true;
    }
    void unlock() {
        if (--depth == 0) owner = nullptr;
        vs::point();
    }
};
class verif_mutex : public verif_recursive_mutex {
public:
    void lock() {
        if (owner == me()) throw pbt::Fail{ "self-deadlock: non-recursive mutex locked twice by one thread" };
        verif_recursive_mutex::lock();
    }
};
class verif_condition_variable {
    struct W {
        bool woken = false;
    };
    std::list<W *> waiters;

public:
    verif_condition_variable()                                 = default;
    verif_condition_variable(const verif_condition_variable &) = delete;
    void notify_one() noexcept {
        vs::point();
        if (waiters.empty()) return;
        auto it = waiters.begin();
        if (auto *a = vs::S(); a && a->steps < a->randomSteps) std::advance(it, long(a->src->below(waiters.size())));
        (*it)->woken = true;
        waiters.erase(it);
    }
    void notify_all() noexcept {
        vs::point();
        for (auto *w : waiters) w->woken = true;
        waiters.clear();
    }
    template<typename L>
    bool waitUntilNs(L &l, std::int64_t deadline) { // false: timeout
        auto *a = vs::S();
        if (!a) throw pbt::Fail{ "condition variable wait outside the scheduler" };
        W w;
        a->point(); // between the evaluation of the condition and the wait
        waiters.push_back(&w);
        const bool spurious = a->steps < a->randomSteps && a->src->chance(1, 24);
        l.unlock();
        bool ok = true;
        if (spurious) a->yieldPoint();
        else ok = w.woken || a->block([&w] { return w.woken; }, deadline);
        if (!w.woken) waiters.remove(&w);
        const bool woken = w.woken || spurious;
        l.lock();
        return ok || woken;
    }
    template<typename L> void wait(L &l) { waitUntilNs(l, -1); }
    template<typename L, typename P> void wait(L &l, P p) {
        while (!p()) wait(l);
    }
    template<typename L, typename R, typename Per> cv_status wait_for(L &l, const chrono::duration<R, Per> &d) {
        const auto ns = chrono::duration_cast<chrono::nanoseconds>(d).count();
        return waitUntilNs(l, vs::nowNs() + std::max<std::int64_t>(ns, 0)) ? cv_status::no_timeout : cv_status::timeout;
    }
    template<typename L, typename R, typename Per, typename P> bool wait_for(L &l, const chrono::duration<R, Per> &d, P p) {
        const auto dl = vs::nowNs() + std::max<std::int64_t>(chrono::duration_cast<chrono::nanoseconds>(d).count(), 0);
        while (!p())
            if (!waitUntilNs(l, dl)) return p();
        return true;
    }
    template<typename L, typename C, typename D> cv_status wait_until(L &l, const chrono::time_point<C, D> &t) {
        return waitUntilNs(l, chrono::duration_cast<chrono::nanoseconds>(t.time_since_epoch()).count()) ? cv_status::no_timeout : cv_status::timeout;
    }
    template<typename L, typename C, typename D, typename P> bool wait_until(L &l, const chrono::time_point<C, D> &t, P p) {
        const auto dl = chrono::duration_cast<chrono::nanoseconds>(t.time_since_epoch()).count();
        while (!p())
            if (!waitUntilNs(l, dl)) return p();
        return true;
    }
};
using verif_condition_variable_any = verif_condition_variable;

namespace verif_this_thread {
    inline void yield() noexcept { vs::yieldPoint(); }
    template<typename R, typename P> void sleep_for(const chrono::duration<R, P> &d) {
        const auto ns = chrono::duration_cast<chrono::nanoseconds>(d).count();
        if (auto *a = vs::S()) {
            if (ns <= 0) a->yieldPoint();
            else a->block([] { return false; }, a->nowNs + ns);
        } else vs::baseNow() += ns;
    }
    template<typename C, typename D> void sleep_until(const chrono::time_point<C, D> &t) { sleep_for(t - C::now()); }
    inline std::thread::id get_id() noexcept { return std::this_thread::get_id(); }
}
namespace chrono {
    struct verif_steady_clock {
        using duration = nanoseconds; using rep = duration::rep; using period = duration::period;
        using time_point = chrono::time_point<verif_steady_clock>;
        static constexpr bool is_steady = true;
        static time_point now() noexcept { return time_point(duration(vs::nowNs())); }
    };
}
} // namespace std
#define atomic verif_atomic
#define atomic_flag verif_atomic_flag
#undef ATOMIC_FLAG_INIT
#define ATOMIC_FLAG_INIT { 0 }
#define mutex verif_mutex
#define recursive_mutex verif_recursive_mutex
#define condition_variable verif_condition_variable
#define condition_variable_any verif_condition_variable_any
#define this_thread verif_this_thread
#define steady_clock verif_steady_clock
#define high_resolution_clock verif_steady_clock
#endif
