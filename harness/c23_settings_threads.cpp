// C23: transactional settings used by several threads, under every schedule.
#include "sched.hpp"
#include <Transactions.hpp>
using namespace opencmw;
static std::int64_t nowNs = 1'000'000'000'000;
namespace std::chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { // reading the clock takes time, too
    vs::point();
    return time_point(duration(++nowNs));
}
} // namespace _V2
} // namespace std::chrono

struct Log { // the stored setting: every value committed so far, in order
    std::vector<int> v;
};
struct Token { // comparing and copying takes time
    std::string v;
    Token() = default;
    Token(const char *c) : v(c) {}
    Token(const std::string &c) : v(c) {}
    Token(const Token &o) : v(o.v) { vs::point(); }
    Token(Token &&o) noexcept : v(std::move(o.v)) {}
    Token &operator=(const Token &o) {
        vs::point();
        v = o.v;
        return *this;
    }
    Token &operator=(Token &&o) noexcept {
        v = std::move(o.v);
        return *this;
    }
    bool empty() const { return v.empty(); }
    bool operator==(const Token &o) const {
        vs::point();
        return v == o.v;
    }
};
template<int timeOut>
static void threads(pbt::Src &s) {
    constexpr std::size_t N = 16, KEEP = N - 8 + 1;
    using Set = SettingBase<int, Log, Token, N, std::chrono::seconds, timeOut>;
    auto set = std::make_unique<Set>([](const Log &old, int &&in) -> Log {
        auto n = old;
        vs::point();
        n.v.push_back(in);
        return n;
    });
    vs::Sched  sc(s, 2500, 200000);
    const int  nt = 2 + int(s.below(2));
    std::vector<int>                                      direct, staged; // committed values; values staged
    std::map<std::string, std::vector<std::pair<int, int>>> byToken;      // per token: (who, value)
    std::map<std::string, int>                            committedOk, retiredOk;
    std::vector<int>                                      latestDone;     // values of commits that have returned
    int                                                   id = 0, reads = 0;
    struct Op {
        int         kind;
        int         value;
        std::string token;
    };
    std::map<int, std::vector<int>> perThread; // values committed directly by a thread, in order
    for (int t = 0; t < nt; ++t) {
        std::vector<Op> ops;
        for (std::size_t k = 1 + s.below(5); k > 0; --k) {
            Op o{ int(s.weighted({ 6, 4, 4, 4, 2, 2, 1, 2 })), 0, "" };
            if (o.kind <= 1 || o.kind == 6) o.value = ++id;
            if (o.kind >= 1 && o.kind <= 2) o.token = s.coin() ? "x" : "y";
            if (o.kind == 5) o.token = s.coin() ? "x" : "y";
            ops.push_back(o);
        }
        s.note("thread ", t, ": ", ops.size(), " operations");
        for (auto &o : ops) s.note("  ", o.kind == 0 ? "commit" : o.kind == 1 ? "stage" : o.kind == 2 ? "commit token" : o.kind == 3 ? "get" : o.kind == 4 ? "pending" : o.kind == 5 ? "retire staged" : o.kind == 6 ? "modify" : "history", " ", o.value, " ", o.token);
        sc.spawn([&, t, ops] {
            std::vector<int> seen;
            for (auto &o : ops) {
                switch (o.kind) {
                case 0: {
                    int  in = o.value;
                    s.check(set->commit(std::move(in)).isCommitted, "a commit was refused");
                    direct.push_back(o.value);
                    perThread[t].push_back(o.value);
                    latestDone.push_back(o.value);
                    break;
                }
                case 1: {
                    staged.push_back(o.value);
                    byToken[o.token].push_back({ t, o.value });
                    int in = o.value;
                    s.check(!set->stage(std::move(in), Token(o.token)), "staging reports a commit");
                    break;
                }
                case 2:
                    if (set->commit(Token(o.token))) ++committedOk[o.token];
                    break;
                case 3: {
                    const auto before = latestDone;
                    const auto n      = set->get();
                    const auto &v     = n.value->v;
                    s.check(v.size() >= seen.size() && std::equal(seen.begin(), seen.end(), v.begin()), [&] { return "a reader saw the setting go back from " + std::to_string(seen.size()) + " to " + std::to_string(v.size()) + " committed values"; });
                    for (int x : before) s.check(std::find(v.begin(), v.end(), x) != v.end(), [&] { return "value " + std::to_string(x) + ", committed before, is not in the setting read later"; });
                    seen = v;
                    ++reads;
                    break;
                }
                case 4: {
                    const auto p = set->getPendingTransactions();
                    s.check(p.size() <= 2 && (p.size() < 2 || p[0].v != p[1].v), "pending transactions are listed twice");
                    for (auto &x : p) s.check(x.v == "x" || x.v == "y", "a pending transaction nobody staged is listed");
                    break;
                }
                case 5:
                    if (set->retireStaged(Token(o.token))) ++retiredOk[o.token];
                    break;
                case 6:
                    s.check(set->modifySetting([&](const Log &old) -> Log {
                        auto n = old;
                        vs::point();
                        n.v.push_back(o.value);
                        return n;
                    }), "a modification was refused");
                    direct.push_back(o.value);
                    perThread[t].push_back(o.value);
                    latestDone.push_back(o.value);
                    break;
                case 7: {
                    const auto n = set->nHistory();
                    s.check(n >= 1 && n <= KEEP + 4, [&] { return "nHistory() = " + std::to_string(n); });
                    try {
                        const auto x = set->get(std::chrono::system_clock::now() + std::chrono::hours(1)); // the latest
                        s.check(x.value->v.size() >= seen.size(), "get(time) in the future gives an old value");
                        seen = x.value->v;
                    } catch (const std::out_of_range &) { s.check(false, "get(time) in the future throws"); }
                    try {
                        [[maybe_unused]] const auto x = set->get(-2);
                    } catch (const std::out_of_range &) {}
                    break;
                }
                }
            }
        });
    }
    sc.run();
    // afterwards: nothing lost, nothing twice
    const auto v = set->get().value->v;
    for (int x : direct) {
        const auto c = std::count(v.begin(), v.end(), x);
        s.check(c == 1, [&] { return "value " + std::to_string(x) + " was committed once and is in the setting " + std::to_string(c) + " times"; });
    }
    for (auto &[t, list] : perThread) {
        std::size_t at = 0;
        for (int x : v)
            if (at < list.size() && list[at] == x) ++at;
        s.check(at == list.size(), "the commits of one thread are out of order");
    }
    const auto pend = set->getPendingTransactions();
    std::size_t tokenValues = 0;
    for (const char *tok : { "x", "y" }) {
        std::size_t inV = 0;
        for (auto &[t, val] : byToken[tok]) {
            const auto c = std::count(v.begin(), v.end(), val);
            s.check(c <= 1, [&] { return "staged value " + std::to_string(val) + " was committed " + std::to_string(c) + " times"; });
            inV += std::size_t(c);
        }
        tokenValues += inV;
        s.check(int(inV) == committedOk[tok], [&] { return std::to_string(committedOk[tok]) + " commits of transaction " + tok + " succeeded, but " + std::to_string(inV) + " of its values are in the setting"; });
        const auto isPending = std::count_if(pend.begin(), pend.end(), [&](auto &x) { return x.v == tok; });
        s.check(isPending <= 1, "a transaction is pending twice");
        s.check(byToken[tok].empty() == (committedOk[tok] + retiredOk[tok] + isPending == 0), [&] { return std::string("transaction ") + tok + " was staged, but neither committed, retired nor pending"; });
    }
    s.check(v.size() == direct.size() + tokenValues, "the setting holds values that were never committed");
    const auto n = set->nHistory();
    s.check(n == std::min<std::size_t>(1 + v.size(), KEEP), [&] { return "nHistory() = " + std::to_string(n) + " after " + std::to_string(v.size()) + " commits"; });
    for (std::size_t i = 0; i < n; ++i) {
        const auto h = set->get(-std::int64_t(i)).value->v;
        s.check(h.size() == v.size() - i && std::equal(h.begin(), h.end(), v.begin()), [&] { return "entry " + std::to_string(i) + " of the history is not the setting before the last " + std::to_string(i) + " commits"; });
    }
    s.nontrivial(direct.size() + tokenValues >= 2 && sc.switches >= 3);
    if (reads) s.label("reads");
    if (n == KEEP) s.label("history full");
}
#define RULE "2-3 threads of up to 5 commits, modifications, staged transactions and look-ups each, schedule drawn per synchronisation access; non-trivial = 2 commits and 3 context switches"
PROPERTY(stage_and_commit, 150000, 1500000, RULE) { threads<-1>(s); }
PROPERTY(with_expiry, 60000, 600000, RULE) { threads<1000>(s); }

PROPERTY(contexts, 100000, 1000000, "2-3 threads that commit, read, retire and expire settings of different contexts; non-trivial = 2 commits and 3 context switches") {
    using Set = CtxSetting<int, std::string, 16, std::chrono::seconds, 1000>;
    auto       set = std::make_unique<Set>();
    vs::Sched  sc(s, 2500, 200000);
    const int  nt = 2 + int(s.below(2));
    int        id = 0, commits = 0;
    std::map<int, int> lastOf; // context -> last value (each thread has its own context)
    for (int t = 0; t < nt; ++t) {
        struct Op { int kind; int value; };
        std::vector<Op> ops;
        for (std::size_t k = 1 + s.below(4); k > 0; --k) ops.push_back({ int(s.weighted({ 6, 4, 2, 1 })), ++id });
        for (auto &o : ops) s.note("thread ", t, ": ", o.kind == 0 ? "commit" : o.kind == 1 ? "get" : o.kind == 2 ? "retireExpired" : "get other", " ", o.value);
        sc.spawn([&, t, ops] {
            const TimingCtx mine(t + 1);
            int             last = 0;
            for (auto &o : ops) {
                if (o.kind == 0) {
                    int v = o.value;
                    s.check(set->commit(mine, std::move(v)).isCommitted, "a commit was refused");
                    last = lastOf[t] = o.value;
                    ++commits;
                } else if (o.kind == 1) {
                    const auto r = set->get(mine);
                    s.check(*r.settingValue.value == last, [&] { return "a thread committed " + std::to_string(last) + " for its context and reads " + std::to_string(*r.settingValue.value); });
                } else if (o.kind == 2) {
                    set->retireExpired();
                } else {
                    [[maybe_unused]] const auto r = set->get(TimingCtx(((t + 1) % nt) + 1));
                }
            }
        });
    }
    sc.run();
    for (auto &[t, v] : lastOf) {
        const auto r = set->get(TimingCtx(t + 1));
        s.check(*r.settingValue.value == v, [&] { return "the last commit for context " + std::to_string(t + 1) + " was " + std::to_string(v) + ", finally it is " + std::to_string(*r.settingValue.value); });
    }
    s.nontrivial(commits >= 2 && sc.switches >= 3);
}

PROPERTY(old_entries, 60000, 600000, "a reader looks up old entries by position and time while 1-2 writers push them out of the history; non-trivial = 3 commits during the look-ups") {
    constexpr std::size_t N = 16, KEEP = N - 8 + 1;
    using Set      = SettingBase<int, Log, std::string, N>;
    using TP       = std::chrono::system_clock::time_point;
    auto set       = std::make_unique<Set>([](const Log &old, int &&in) -> Log {
        auto n = old;
        n.v.push_back(in);
        return n;
    });
    const auto at = [](int i) { return TP(std::chrono::hours(1000000) + std::chrono::seconds(i)); };
    int        id = 0, started = 0, done = 0;
    for (std::size_t k = 6 + s.below(6); k > 0; --k) {
        int v = ++id;
        (void) set->commit(std::move(v), at(id));
    }
    started = done = id;
    vs::Sched sc(s, 2500, 200000);
    sc.rate = s.oneOf<unsigned>({ 30, 100, 300 }); // long pauses: the history has to wrap around during a look-up
    const int writers = 1 + int(s.below(2));
    const int each    = writers == 1 ? 8 + int(s.below(8)) : 4 + int(s.below(6));
    for (int w = 0; w < writers; ++w)
        sc.spawn([&] {
            for (int i = 0; i < each; ++i) {
                ++started;
                (void) set->modifySetting([](const Log &old) -> Log {
                    auto n = old;
                    n.v.push_back(int(n.v.size()) + 1);
                    return n;
                }, at(started));
                ++done;
            }
        });
    struct Look { bool byTime; int k; };
    std::vector<Look> looks;
    for (std::size_t k = 1 + s.below(4); k > 0; --k) looks.push_back({ s.chance(1, 3), s.coin() ? int(KEEP) - 1 : int(s.below(KEEP + 1)) });
    const int before = done;
    int       during = 0;
    sc.spawn([&] {
        for (auto &l : looks) {
            const int lo = done;
            try {
                const auto n = l.byTime ? set->get(TP(at(std::max(1, lo - l.k)))) : set->get(-std::int64_t(l.k));
                const int  hi = started, size = int(n.value->v.size());
                for (int i = 0; i < size; ++i) s.check(n.value->v[std::size_t(i)] == i + 1, "a look-up gives a setting that never existed");
                if (!l.byTime) s.check(size >= lo - l.k && size <= hi - l.k, [&] { return "get(-" + std::to_string(l.k) + ") gives version " + std::to_string(size) + " while the latest went from " + std::to_string(lo) + " to " + std::to_string(hi); });
                else if (writers == 1 && lo - l.k >= 1) s.check(size == std::max(1, lo - l.k), [&] { return "the value valid at time " + std::to_string(std::max(1, lo - l.k)) + " is said to be version " + std::to_string(size); });
                s.check(int(n.value->v.size()) == size, "a value changed after it had been looked up");
            } catch (const std::out_of_range &) {
                const int hi = started;
                if (!l.byTime) s.check(l.k > lo || hi - lo + l.k >= int(KEEP), [&] { return "get(-" + std::to_string(l.k) + ") throws while the latest version went from " + std::to_string(lo) + " to " + std::to_string(hi); });
            }
        }
        during = done - before;
    });
    sc.run();
    s.check(int(set->get().value->v.size()) == id + writers * each, "commits were lost");
    s.nontrivial(during >= 3);
}
