// C09: thread/process names, affinity masks and scheduling parameters reach the OS exactly as requested; every OS failure is reported.
// The OS calls are replaced by recording stand-ins with injected faults (nothing privileged is executed); names also run for real.
#include <algorithm>
#include <array>
#include <atomic>
#include <cstring>
#include <format>
#include <print>
#include <fstream>
#include <iostream>
#include <mutex>
#include <optional>
#include <sstream>
#include <system_error>
#include <thread>
#include <vector>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include "pbt.hpp"

static unsigned fakeCpus = 8;
unsigned int std::thread::hardware_concurrency() noexcept { return fakeCpus; }

namespace fake {
struct Call {
    std::string fn;
    pthread_t   handle{};
    int         pid = 0, policy = 0, prio = 0;
    cpu_set_t   set{};
    std::string name;
};
static std::vector<Call>                calls;
static int                              failWith = 0;
static std::map<pthread_t, cpu_set_t>   masks;
static cpu_set_t                        procMask;
static std::map<pthread_t, std::string> names;
static int                              repPolicy = 0, repPrio = 0;
static int setname(pthread_t h, const char *n) {
    if (std::strlen(n) > 15) return ERANGE;
    calls.push_back({ .fn = "setname", .handle = h, .name = n });
    if (!failWith) names[h] = n;
    return failWith;
}
static int getname(pthread_t h, char *b, std::size_t n) {
    if (n < 16) return ERANGE;
    std::snprintf(b, n, "%s", names[h].c_str());
    return failWith == EBADF ? EBADF : 0;
}
static bool emptySet(const cpu_set_t *s) { return CPU_COUNT(s) == 0; }
static int setaff(pthread_t h, std::size_t, const cpu_set_t *s) {
    calls.push_back({ .fn = "setaff", .handle = h, .set = *s });
    if (failWith) return failWith;
    if (emptySet(s)) return EINVAL;
    masks[h] = *s;
    return 0;
}
static int getaff(pthread_t h, std::size_t, cpu_set_t *s) {
    if (failWith) return failWith;
    *s = masks[h];
    return 0;
}
static int ssetaff(int pid, std::size_t, const cpu_set_t *s) {
    calls.push_back({ .fn = "ssetaff", .pid = pid, .set = *s });
    if (failWith || emptySet(s)) {
        errno = failWith ? failWith : EINVAL;
        return -1;
    }
    procMask = *s;
    return 0;
}
static int sgetaff(int, std::size_t, cpu_set_t *s) {
    if (failWith) {
        errno = failWith;
        return -1;
    }
    *s = procMask;
    return 0;
}
static int prioMin(int p) { return p == SCHED_OTHER ? 0 : 1; }
static int prioMax(int p) { return p == SCHED_OTHER ? 0 : 99; }
static int setsched(int pid, int pol, const sched_param *p) {
    calls.push_back({ .fn = "setsched", .pid = pid, .policy = pol, .prio = p->sched_priority });
    if (failWith) { errno = failWith; return -1; }
    return 0;
}
static int getsched(int) { return failWith ? -1 : repPolicy; }
static int getparam(int, sched_param *p) {
    if (failWith) { errno = failWith; return -1; }
    p->sched_priority = repPrio;
    return 0;
}
static int psetsched(pthread_t h, int pol, const sched_param *p) {
    calls.push_back({ .fn = "psetsched", .handle = h, .policy = pol, .prio = p->sched_priority });
    return failWith;
}
static int pgetsched(pthread_t, int *pol, sched_param *p) {
    if (failWith) return failWith;
    *pol              = repPolicy;
    p->sched_priority = repPrio;
    return 0;
}
} // namespace fake
#if !defined(REAL_OS)
#define pthread_setname_np fake::setname
#define pthread_getname_np fake::getname
#define pthread_setaffinity_np fake::setaff
#define pthread_getaffinity_np fake::getaff
#define sched_setaffinity fake::ssetaff
#define sched_getaffinity fake::sgetaff
#define sched_get_priority_min fake::prioMin
#define sched_get_priority_max fake::prioMax
#define sched_setscheduler fake::setsched
#define sched_getscheduler fake::getsched
#define sched_getparam fake::getparam
#define pthread_setschedparam fake::psetsched
#define pthread_getschedparam fake::pgetsched
#endif
#include <ThreadAffinity.hpp>
namespace th = opencmw::thread;

struct Threads {
    std::thread  *t = new std::thread([] { pause(); });
    std::jthread *j = new std::jthread([] { pause(); });
    std::thread  *none = new std::thread;
};
static Threads &threads() {
    static auto *t = new Threads;
    return *t;
}
static int lastCode = 0;
template<typename F>
static bool throwsSystemError(F f) {
    try {
        f();
    } catch (const std::system_error &e) {
        (void) std::string(e.what());
        lastCode = e.code().value();
        if (e.code().message().empty() || std::string(e.code().category().name()).empty()) return false;
        return true;
    }
    return false;
}
// calls f with one of: no thread, a std::thread, a std::jthread, an uninitialised thread; returns the expected handle (0: none)
template<typename F>
static pthread_t onThread(pbt::Src &s, F f) {
    auto &T = threads();
    switch (s.below(4)) {
    case 0: f(); return pthread_self();
    case 1: f(*T.t); return T.t->native_handle();
    case 2: f(*T.j); return T.j->native_handle();
    default: f(*T.none); return 0;
    }
}
#if !defined(REAL_OS)
static void setup(pbt::Src &s) {
    fake::calls.clear();
    fake::failWith = s.chance(1, 4) ? s.oneOf<int>({ EPERM, ESRCH, EINVAL, 1, 2, 3 }) : 0;
    fakeCpus       = s.oneOf<unsigned>({ 8, 1, 2, 4, 16, 64, 128 });
    s.nontrivial();
    s.note("injected fault=" + std::to_string(fake::failWith) + " cpus=" + std::to_string(fakeCpus));
}
template<typename M>
static void checkMask(pbt::Src &s, const cpu_set_t &set, const M &map, const char *what) {
    for (std::size_t i = 0; i < CPU_SETSIZE; ++i) {
        const bool want = i < map.size() && i < fakeCpus && map[i];
        s.check(bool(CPU_ISSET(i, &set)) == want, [&] { return std::string(what) + ": cpu " + std::to_string(i) + " is " + (want ? "missing from" : "unexpectedly in") + " the requested set"; });
    }
}
PROPERTY(thread_affinity, 60000, 800000, "random masks (0-140 entries), thread kinds (self, thread, jthread, uninitialised), CPU counts and injected OS errors; all non-trivial") {
    setup(s);
    std::vector<bool> map(s.below(141));
    for (std::size_t i = 0; i < map.size(); ++i) map[i] = s.coin();
    bool  threw = false;
    auto  h     = onThread(s, [&](auto &...t) { threw = throwsSystemError([&] { th::setThreadAffinity(map, t...); }); });
    if (h == 0) {
        s.check(threw && fake::calls.empty() && lastCode == th::THREAD_UNINITIALISED, "setting the affinity of an uninitialised thread is not refused as such");
        return;
    }
    s.check(fake::calls.size() == 1 && fake::calls[0].fn == "setaff" && fake::calls[0].handle == h, "affinity was not set on the given thread");
    checkMask(s, fake::calls[0].set, map, "setThreadAffinity");
    const bool osFails = fake::failWith || CPU_COUNT(&fake::calls[0].set) == 0;
    s.check(threw == osFails, [&] { return std::string("setThreadAffinity ") + (threw ? "throws although the OS accepted" : "hides an OS error"); });
    if (threw) s.check(lastCode == (fake::failWith ? fake::failWith : EINVAL), "the reported error code is not the one of the OS");
    fake::failWith = s.chance(1, 6) ? ESRCH : 0;
    std::vector<bool> got;
    cpu_set_t rep;
    CPU_ZERO(&rep);
    for (std::size_t i = 0; i < 160; ++i) if (s.coin()) CPU_SET(i, &rep);
    fake::masks[h] = rep;
    auto &T = threads();
    const bool t2 = throwsSystemError([&] { got = h == pthread_self() ? th::getThreadAffinity() : h == T.t->native_handle() ? th::getThreadAffinity(*T.t) : th::getThreadAffinity(*T.j); });
    s.check(t2 == (fake::failWith != 0), "getThreadAffinity hides an OS error");
    if (!t2) {
        s.check(got.size() == fakeCpus, "one entry per CPU expected");
        for (std::size_t i = 0; i < got.size(); ++i) s.check(got[i] == bool(CPU_ISSET(i, &rep)), "getThreadAffinity does not return what the OS reports");
    }
}
PROPERTY(process_affinity, 40000, 500000, "masks of fixed sizes 1..32, pids (own, other, invalid) and injected OS errors; all non-trivial") {
    setup(s);
    const int pid = s.oneOf<int>({ 1234, 1, 0, -1, -5 });
    const bool own = s.chance(1, 3);
    auto run = [&](auto map) {
        for (auto &b : map) b = s.coin();
        const bool threw = throwsSystemError([&] { own ? th::setProcessAffinity(map) : th::setProcessAffinity(map, pid); });
        const int  want  = own ? getpid() : pid;
        if (want <= 0) {
            s.check(threw && fake::calls.empty(), "invalid pid accepted");
            return;
        }
        s.check(fake::calls.size() == 1 && fake::calls[0].fn == "ssetaff" && fake::calls[0].pid == want, "affinity was not set on the given process");
        checkMask(s, fake::calls[0].set, map, "setProcessAffinity");
        s.check(threw == (fake::failWith || CPU_COUNT(&fake::calls[0].set) == 0), "setProcessAffinity hides an OS error");
    };
    switch (s.below(4)) {
    case 0: run(std::array<bool, 1>{}); break;
    case 1: run(std::array<bool, 4>{}); break;
    case 2: run(std::array<bool, 9>{}); break;
    default: run(std::array<bool, 32>{});
    }
    CPU_ZERO(&fake::procMask);
    for (std::size_t i = 0; i < 160; ++i) if (s.coin()) CPU_SET(i, &fake::procMask);
    std::vector<bool> got;
    const bool t2 = throwsSystemError([&] { got = own ? th::getProcessAffinity() : th::getProcessAffinity(pid); });
    s.check(t2 == (fake::failWith != 0 || (!own && pid <= 0)), "getProcessAffinity hides an error");
    if (!t2) for (std::size_t i = 0; i < std::max<std::size_t>(got.size(), fakeCpus); ++i) s.check(i < got.size() && got[i] == bool(CPU_ISSET(i, &fake::procMask)), "getProcessAffinity does not return what the OS reports");
}
PROPERTY(scheduling, 60000, 800000, "policies, priorities around the legal ranges, thread kinds / pids and injected OS errors; all non-trivial") {
    setup(s);
    const auto pol  = s.oneOf<th::Policy>({ th::OTHER, th::FIFO, th::ROUND_ROBIN });
    const int  prio = s.chance(3, 4) ? s.oneOf<int>({ 0, 1, 2, 50, 98, 99, 100, -1, 1000 }) : s.integer<int>();
    const bool inRange = pol == th::OTHER ? prio == 0 : prio >= 1 && prio <= 99;
    const int  osPol   = pol == th::OTHER ? SCHED_OTHER : pol == th::FIFO ? SCHED_FIFO : SCHED_RR;
    fake::repPolicy = s.oneOf<int>({ SCHED_OTHER, SCHED_FIFO, SCHED_RR, SCHED_BATCH, SCHED_IDLE });
    fake::repPrio   = int(s.below(100));
    auto wantPol = fake::repPolicy == SCHED_OTHER ? th::OTHER : fake::repPolicy == SCHED_FIFO ? th::FIFO : fake::repPolicy == SCHED_RR ? th::ROUND_ROBIN : th::UNKNOWN;
    s.note("policy=" + std::to_string(int(pol)) + " priority=" + std::to_string(prio));
    if (s.coin()) {
        bool threw = false;
        auto h     = onThread(s, [&](auto &...t) { threw = throwsSystemError([&] { th::setThreadSchedulingParameter(pol, prio, t...); }); });
        if (h == 0 || !inRange) s.check(threw && fake::calls.empty() && ((h == 0 && lastCode == th::THREAD_UNINITIALISED) || (!inRange && lastCode == th::THREAD_VALUE_RANGE)), "an invalid request reached the OS, was silently ignored or is reported as something else");
        else {
            s.check(fake::calls.size() == 1 && fake::calls[0].fn == "psetsched" && fake::calls[0].handle == h && fake::calls[0].policy == osPol && fake::calls[0].prio == prio, "policy/priority did not reach the OS as requested");
            s.check(threw == (fake::failWith != 0), "setThreadSchedulingParameter hides an OS error");
        }
        th::SchedulingParameter got{};
        bool t2 = false;
        auto h2 = onThread(s, [&](auto &...t) { t2 = throwsSystemError([&] { got = th::getThreadSchedulingParameter(t...); }); });
        s.check(t2 == (h2 == 0 || fake::failWith != 0), "getThreadSchedulingParameter: error handling");
        if (!t2) s.check(got.policy == wantPol && got.priority == fake::repPrio, "getThreadSchedulingParameter does not return what the OS reports");
    } else {
        const int  pid   = s.oneOf<int>({ 77, 1, 0, -1 });
        const bool own   = s.chance(1, 3);
        const int  want  = own ? getpid() : pid;
        const bool threw = throwsSystemError([&] { own ? th::setProcessSchedulingParameter(pol, prio) : th::setProcessSchedulingParameter(pol, prio, pid); });
        if (want <= 0 || !inRange) s.check(threw && fake::calls.empty() && ((want <= 0 && lastCode == th::THREAD_UNINITIALISED) || (!inRange && lastCode == th::THREAD_VALUE_RANGE)), "an invalid request reached the OS, was silently ignored or is reported as something else");
        else {
            s.check(fake::calls.size() == 1 && fake::calls[0].fn == "setsched" && fake::calls[0].pid == want && fake::calls[0].policy == osPol && fake::calls[0].prio == prio, "policy/priority did not reach the OS as requested");
            s.check(threw == (fake::failWith != 0), "setProcessSchedulingParameter hides an OS error");
        }
        th::SchedulingParameter got{};
        const bool t2 = throwsSystemError([&] { got = own ? th::getProcessSchedulingParameter() : th::getProcessSchedulingParameter(pid); });
        s.check(t2 == (want <= 0 || fake::failWith != 0), "getProcessSchedulingParameter: error handling");
        if (!t2) s.check(got.policy == wantPol && got.priority == fake::repPrio, "getProcessSchedulingParameter does not return what the OS reports");
    }
}
PROPERTY(thread_names, 60000, 800000, "names of 0-40 bytes in exact-size views, thread kinds and injected OS errors; all non-trivial") {
    setup(s);
    std::string name;
    for (std::size_t n = s.below(s.coin() ? 41 : 17); n > 0; --n) name += char(1 + s.below(255));
    s.note("name=" + pbt::show(name));
    auto buf = std::make_unique<char[]>(name.size() ? name.size() : 1);
    std::memcpy(buf.get(), name.data(), name.size());
    const std::string_view view(buf.get(), name.size()); // not zero-terminated
    bool threw = false;
    auto h     = onThread(s, [&](auto &...t) { threw = throwsSystemError([&] { th::setThreadName(view, t...); }); });
    if (h == 0) {
        s.check(threw && fake::calls.empty(), "naming an uninitialised thread is not refused");
        return;
    }
    const auto want = name.substr(0, 15);
    s.check(threw == (fake::failWith != 0), [&] { return std::string("setThreadName ") + (threw ? "throws although the OS accepted" : "hides an OS error"); });
    s.check(fake::calls.size() == 1 && fake::calls[0].handle == h && fake::calls[0].name == want, [&] { return "setThreadName(" + pbt::show(name) + ") asked the OS for " + (fake::calls.empty() ? "nothing" : pbt::show(fake::calls[0].name)); });
    if (!threw) {
        auto &T = threads();
        std::string got = h == pthread_self() ? th::getThreadName() : h == T.t->native_handle() ? th::getThreadName(*T.t) : th::getThreadName(*T.j);
        s.check(got == want, "getThreadName does not return the name");
    }
    s.check(throwsSystemError([&] { (void) th::getThreadName(*threads().none); }), "uninitialised thread has a name");
}
#else
PROPERTY(real_names, 4000, 60000, "real OS: thread and process names of 1-40 bytes are read back (first 15 bytes); all non-trivial") {
    std::string name;
    for (std::size_t n = 1 + s.below(s.coin() ? 40 : 16); n > 0; --n) {
        char c = s.coin() ? char('a' + s.below(26)) : char(1 + s.below(255));
        name += c == '\n' ? '_' : c;
    }
    s.nontrivial();
    s.note("name=" + pbt::show(name));
    const auto want = name.substr(0, 15);
    if (s.coin()) {
        auto &T = threads();
        th::setThreadName(std::string_view(name), *T.t);
        s.check(th::getThreadName(*T.t) == want, "thread name not read back");
        th::setThreadName(std::string_view(name));
        s.check(th::getThreadName() == want, "own thread name not read back");
    } else {
        th::setProcessName(name);
        s.check(th::getProcessName() == want && th::getProcessName(getpid()) == want, [&] { return "process name read back as " + pbt::show(th::getProcessName()); });
    }
}
#endif
