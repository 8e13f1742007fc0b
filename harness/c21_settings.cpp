// C21: transactional settings (history, staged transactions, expiry) and C22: settings multiplexed by timing context, against a model.
#include "pbt.hpp"
#include "vtime.hpp"
#include <deque>
#include <map>
#include <optional>
#include <vector>
#include <Transactions.hpp>
using namespace opencmw;
using namespace std::chrono_literals;
using Clock = std::chrono::system_clock;
using TP    = Clock::time_point;
using ms    = std::chrono::milliseconds;

static std::string show(TP t) { return std::to_string(std::chrono::duration_cast<ms>(t.time_since_epoch()).count()) + "ms"; }
static TP          aTime(pbt::Src &s, TP from) { return from + ms(s.range(-150, 150)); }

struct Refused : std::runtime_error {
    Refused() : std::runtime_error("refused by the commit function") {}
};
#if PART == 0
struct Stored { // what is stored: the sum of everything committed, and the last value
    long        sum  = 0;
    std::string last = "initial";
    bool        operator==(const Stored &) const = default;
};
static Stored next(const Stored &old, long v) { return { old.sum + v, "value " + std::to_string(v) + " after " + std::to_string(old.sum) }; }

template<int timeOut, int timeOutTx>
static void history(pbt::Src &s) {
    constexpr std::size_t N = 16, KEEP = N - 8 + 1;
    SettingBase<long, Stored, std::string, N, ms, timeOut, timeOutTx> set([](const Stored &old, long &&in) -> Stored {
        if (in == 13) throw Refused();
        return next(old, in);
    });
    struct Entry {
        Stored value;
        TP     since, lo, hi; // the last use is between lo and hi (whether the setting counts the look-up a commit does as a use is left open)
        bool   initial = false;
    };
    struct Staged {
        std::string token;
        long        value;
        TP          at;
    };
    std::deque<Entry>  hist{ { Stored{}, Clock::now(), Clock::now(), Clock::now(), true } };
    std::vector<Staged> pending;
    int                commits = 0, dropped = 0, expired = 0, fromToken = 0, lookups = 0;
    const auto         sweep = [&](TP now) {
        if (timeOutTx > 0) expired += int(std::erase_if(pending, [&](auto &p) { return now - p.at > ms(timeOutTx); }));
        while (hist.size() > KEEP) hist.pop_front(), ++dropped;
        std::size_t most = hist.size(), least = hist.size();
        if (timeOut > 0) {
            std::size_t fhi = 0, flo = 0;
            while (fhi + 1 < hist.size() && now - hist[fhi].hi > ms(timeOut)) ++fhi;
            while (flo + 1 < hist.size() && now - hist[flo].lo > ms(timeOut)) ++flo;
            most  = hist.size() - fhi;
            least = hist.size() - flo;
        }
        const auto n = set.nHistory();
        s.check(n >= least, [&] { return std::to_string(n) + " settings are left although " + std::to_string(least) + " are neither too many nor expired (time-out " + std::to_string(timeOut) + ", now " + show(now) + ")"; });
        s.check(n <= most, [&] { return std::to_string(n) + " settings are left although all but " + std::to_string(most) + " had to be retired at " + show(now); });
        while (hist.size() > n) hist.pop_front(), ++expired;
    };
    const auto applied = [&](long v, TP since) {
        hist.back().hi = std::max(hist.back().hi, Clock::now()), hist.back().lo = std::min(hist.back().lo, Clock::now());
        hist.push_back({ next(hist.back().value, v), since, since, since });
        ++commits;
    };
    const auto failed = [&] { // it looked at the latest value; whether it tidied up is left open
        hist.back().hi = std::max(hist.back().hi, Clock::now()), hist.back().lo = std::min(hist.back().lo, Clock::now());
        set.retireExpired();
    };
    const auto look = [&](auto &&node, Entry &e, auto &&what) {
        s.check(*node.value == e.value, [&] { return std::string("get(") + what() + ") is '" + node.value->last + "' (sum " + std::to_string(node.value->sum) + "), expected '" + e.value.last + "' (sum " + std::to_string(e.value.sum) + ")"; });
        s.check(static_cast<const Stored &>(node) == e.value, "conversion of a node to its value");
        if (!e.initial) s.check(node.validSince == e.since, [&] { return std::string("validSince of get(") + what() + ") is " + show(node.validSince) + ", expected " + show(e.since); });
        e.lo = e.hi = Clock::now();
        ++lookups;
    };
    const char *tokens[] = { "a", "b", "token with spaces", "\xff", "A" };
    for (std::size_t steps = s.size(60); steps > 0; --steps) {
        switch (s.weighted({ 10, 6, 5, 1, 2, 3, 8, 6, 3, 6, 2 })) {
        case 0: { // commit directly
            const long v  = s.range(-20, 20);
            const bool at = s.chance(1, 3);
            const auto t  = at ? aTime(s, Clock::now()) : Clock::now();
            s.note("commit ", v, " at ", show(t));
            long in = v;
            bool ok = false, threw = false;
            try {
                const auto r = at ? set.commit(std::move(in), t) : set.commit(std::move(in));
                ok           = r.isCommitted;
                s.check(r.timeStamp == t, "time stamp of the result of a commit");
            } catch (const Refused &) { threw = true; }
            if (v == 13) {
                s.check(!ok, "a commit whose function throws is reported as committed");
                s.label("refused");
                failed();
            } else {
                s.check(ok && !threw, "commit failed");
                applied(v, t);
            }
            sweep(Clock::now());
            break;
        }
        case 1: { // stage
            const std::string tok = tokens[s.below(5)];
            const long        v   = s.range(-20, 12);
            s.note("stage ", v, " as ", tok);
            long       in = v;
            const auto r  = set.stage(std::move(in), tok);
            s.check(!r.isCommitted && r.timeStamp == Clock::now(), "result of staging");
            auto i = std::find_if(pending.begin(), pending.end(), [&](auto &p) { return p.token == tok; });
            if (i != pending.end()) i->value = v, i->at = Clock::now();
            else pending.push_back({ tok, v, Clock::now() });
            sweep(Clock::now());
            break;
        }
        case 2: { // commit a transaction
            const std::string tok = tokens[s.below(5)];
            const bool        at  = s.chance(1, 3);
            const auto        t   = at ? aTime(s, Clock::now()) : Clock::now();
            s.note("commit ", tok, " at ", show(t));
            const auto r = at ? set.commit(tok, t) : set.commit(tok);
            auto       i = std::find_if(pending.begin(), pending.end(), [&](auto &p) { return p.token == tok; });
            s.check(r.isCommitted == (i != pending.end()), [&] { return "commit(" + tok + ") reports " + (r.isCommitted ? "committed" : "nothing committed"); });
            s.check(r.timeStamp == t, "time stamp of the result of committing a transaction");
            if (i != pending.end()) {
                const auto v = i->value;
                pending.erase(i);
                applied(v, t);
                sweep(Clock::now());
                ++fromToken;
            }
            break;
        }
        case 3: { // commit all transactions
            const auto t = aTime(s, Clock::now());
            s.note("commit all (", pending.size(), ") at ", show(t));
            const auto r = set.commit(std::string(), t);
            s.check(r.isCommitted == !pending.empty(), "result of committing all transactions");
            const auto all = std::move(pending);
            pending.clear();
            for (auto &p : all) applied(p.value, t);
            if (!all.empty()) sweep(Clock::now()), ++fromToken;
            break;
        }
        case 4: { // drop transactions
            const bool        all = s.chance(1, 4);
            const std::string tok = tokens[s.below(5)];
            s.note("retire staged ", all ? "(all)" : tok);
            const bool r = all ? set.retireStaged() : set.retireStaged(tok);
            const auto n = std::erase_if(pending, [&](auto &p) { return all || p.token == tok; });
            s.check(r == (n > 0), "result of retireStaged");
            break;
        }
        case 5: { // modify
            const long v    = s.range(-20, 20);
            bool       threw = false, ok = false;
            s.note("modify by ", v);
            try {
                ok = set.modifySetting([&](const Stored &old) -> Stored {
                    s.check(old == hist.back().value, "modifySetting was not given the latest value");
                    if (v == 13) throw Refused();
                    return next(old, v);
                });
            } catch (const Refused &) { threw = true; }
            if (v == 13) {
                s.check(!ok, "a modification that throws is reported as done");
                failed();
            } else {
                s.check(ok && !threw, "modifySetting failed");
                applied(v, Clock::now());
            }
            sweep(Clock::now());
            break;
        }
        case 6: { // read by index
            const auto idx = -std::int64_t(s.below(KEEP + 3)) + std::int64_t(s.chance(1, 8));
            s.note("get ", idx);
            const bool valid = idx <= 0 && std::size_t(-idx) < hist.size();
            try {
                auto n = set.get(idx);
                s.check(valid, [&] { return "get(" + std::to_string(idx) + ") gives a value with " + std::to_string(hist.size()) + " settings"; });
                look(n, hist[hist.size() - 1 - std::size_t(-idx)], [&] { return std::to_string(idx); });
            } catch (const std::out_of_range &) { s.check(!valid, [&] { return "get(" + std::to_string(idx) + ") throws with " + std::to_string(hist.size()) + " settings"; }); }
            break;
        }
        case 7: { // read by time
            const auto t = s.coin() ? hist[s.below(hist.size())].since + ms(s.range(-1, 1)) : aTime(s, Clock::now());
            s.note("get at ", show(t));
            Entry *e = nullptr;
            for (auto &x : hist)
                if (x.since <= t) e = &x;
            try {
                auto n = set.get(t);
                s.check(e != nullptr, [&] { return "get(" + show(t) + ") gives a value that was not valid yet"; });
                look(n, *e, [&] { return show(t); });
            } catch (const std::out_of_range &) { s.check(e == nullptr, [&] { return "get(" + show(t) + ") throws although a setting was valid"; }); }
            break;
        }
        case 8: {
            const auto t = s.coin() ? Clock::now() : Clock::now() + ms(s.below(120));
            s.note("retireExpired ", show(t));
            set.retireExpired(t);
            sweep(t);
            break;
        }
        case 9: {
            const auto d = ms(s.below(s.coin() ? 120 : 30));
            s.note("wait ", d.count(), "ms");
            vt::advance(d);
            break;
        }
        case 10: {
            auto e = hist.back();
            auto n = set.get();
            look(n, hist.back(), [] { return std::string("latest"); });
            break;
        }
        }
        std::vector<std::string> toks;
        for (auto &p : pending) toks.push_back(p.token);
        s.check(set.getPendingTransactions() == toks, [&] { return "pending transactions: " + std::to_string(set.getPendingTransactions().size()) + ", expected " + std::to_string(toks.size()); });
        s.check(set.nHistory() == hist.size(), [&] { return "nHistory() = " + std::to_string(set.nHistory()) + ", expected " + std::to_string(hist.size()); });
    }
    if (dropped) s.label("history full");
    if (expired) s.label("something expired");
    if (fromToken) s.label("transaction committed");
    s.nontrivial(commits >= 3 && lookups >= 2 && (dropped || expired || fromToken));
}
#define RULE "histories of up to 60 commits, staged transactions, look-ups by index and time, modifications, expiry and waits, against a model; non-trivial = 3 commits, 2 look-ups and something was dropped, expired or committed from a transaction"
PROPERTY(unlimited, 30000, 300000, RULE) { history<-1, -1>(s); }
PROPERTY(settings_expire, 30000, 300000, RULE) { history<100, -1>(s); }
PROPERTY(transactions_expire, 30000, 300000, RULE) { history<-1, 100>(s); }
PROPERTY(both_expire, 30000, 300000, RULE) { history<150, 60>(s); }

// the plain variants: default constructed, value stored as given
PROPERTY(plain_variants, 20000, 200000, "Setting and TransactionSetting store strings: the values come back in order; non-trivial = 10 commits") {
    Setting<std::string, 32>                         a;
    TransactionSetting<std::string, std::string, 16> b;
    s.check(*a.get().value == "" && *b.get().value == "", "the initial value is not the default");
    std::vector<std::string> va{ "" }, vb{ "" };
    for (std::size_t n = s.size(60); n > 0; --n) {
        auto v = s.bytesStr(40);
        if (s.coin()) {
            va.push_back(v);
            s.check(a.stage(std::move(v)), "commit");
        } else {
            vb.push_back(v);
            if (s.coin()) s.check(b.stage(std::move(v)), "commit");
            else {
                s.check(!b.stage(std::move(v), "t"), "stage");
                s.check(*b.get().value == vb[vb.size() - 2], "a staged value is visible before it was committed");
                const std::string token = "t"; // (an rvalue would be a value to commit)
                s.check(b.commit(token), "commit of a staged value");
            }
        }
    }
    s.check(a.nHistory() == std::min<std::size_t>(va.size(), 32 - 8 + 1), "nHistory of a Setting");
    s.check(b.nHistory() == std::min<std::size_t>(vb.size(), 16 - 8 + 1), "nHistory of a TransactionSetting");
    for (std::size_t i = 0; i < a.nHistory(); ++i) s.check(*a.get(-std::int64_t(i)).value == va[va.size() - 1 - i], "value of a Setting");
    for (std::size_t i = 0; i < b.nHistory(); ++i) s.check(*b.get(-std::int64_t(i)).value == vb[vb.size() - 1 - i], "value of a TransactionSetting");
    s.nontrivial(va.size() + vb.size() > 12);
}
#else // C22
struct Ids {
    int  c = -1, s = -1, p = -1, g = -1;
    auto operator<=>(const Ids &) const = default;
};
static TimingCtx   ctxOf(const Ids &i) { return TimingCtx(i.c, i.s, i.p, i.g); }
static std::string show(const Ids &i) { return ctxOf(i).toString(); }
static bool        matches(const Ids &x, const Ids &pattern) {
    const auto m = [](int a, int b) { return b == -1 || a == b; };
    return m(x.c, pattern.c) && m(x.s, pattern.s) && m(x.p, pattern.p) && m(x.g, pattern.g);
}
static Ids someIds(pbt::Src &s) {
    Ids i;
    if (s.chance(1, 12)) { // an irregular one
        i = { int(s.range(-1, 2)), int(s.range(-1, 2)), int(s.range(-1, 2)), int(s.range(-1, 2)) };
    } else {
        const auto depth = s.below(5);
        if (depth > 0) i.c = int(s.below(3));
        if (depth > 1) i.s = int(s.below(2));
        if (depth > 2) i.p = int(s.below(2));
        if (depth > 3) i.g = int(s.below(2));
    }
    return i;
}
template<int timeOut, int timeOutTx>
static void contexts(pbt::Src &s) {
    constexpr std::size_t N = 16, KEEP = N - 8 + 1;
    CtxSetting<std::string, std::string, N, ms, timeOut, timeOutTx> set;
    struct Value {
        std::string v;
        TP          used;
    };
    struct Snap {
        std::map<Ids, Value> m;
        TP                   since, lo, hi;
        bool                 initial = false;
    };
    struct Staged {
        std::string token;
        Ids         ctx;
        std::string v;
        TP          at;
    };
    struct Held {
        settings::CtxResult<std::string> r;
        std::string                      v;
        Ids                              ctx;
    };
    std::deque<Snap>    hist{ { {}, Clock::now(), Clock::now(), Clock::now(), true } };
    std::vector<Staged> pending;
    std::vector<Held>   held;
    int                 commits = 0, fallbacks = 0, exact = 0, retired = 0, counter = 0, expiredCtx = 0, nothing = 0;
    const auto          sweep = [&](TP now) {
        if (timeOutTx > 0) std::erase_if(pending, [&](auto &p) { return now - p.at > ms(timeOutTx); });
        while (hist.size() > KEEP) hist.pop_front();
        std::size_t most = hist.size(), least = hist.size();
        if (timeOut > 0) {
            std::size_t fhi = 0, flo = 0;
            while (fhi + 1 < hist.size() && now - hist[fhi].hi > ms(timeOut)) ++fhi;
            while (flo + 1 < hist.size() && now - hist[flo].lo > ms(timeOut)) ++flo;
            most  = hist.size() - fhi;
            least = hist.size() - flo;
        }
        const auto n = set.nHistory();
        s.check(n >= least && n <= most, [&] { return std::to_string(n) + " settings are left, expected " + std::to_string(least) + " to " + std::to_string(most); });
        while (hist.size() > n) hist.pop_front();
    };
    const auto push = [&](auto &&change, TP since) {
        hist.back().hi = std::max(hist.back().hi, Clock::now()), hist.back().lo = std::min(hist.back().lo, Clock::now());
        hist.push_back({ hist.back().m, since, since, since });
        change(hist.back().m);
    };
    const auto fresh  = [&] { return "v" + std::to_string(counter++) + std::string(s.below(40), 'x'); };
    const auto lookup = [&](Snap &snap, const Ids &want, const settings::CtxResult<std::string> &r, auto &&what) {
        snap.lo = snap.hi = Clock::now();
        const std::string got = *r.settingValue.value;
        std::vector<Ids>  tries{ want, { want.c, want.s, want.p, -1 }, { want.c, want.s, -1, -1 }, { want.c, -1, -1, -1 }, { -1, -1, -1, -1 } };
        for (std::size_t i = 0; i < tries.size(); ++i) {
            if (auto it = snap.m.find(tries[i]); it != snap.m.end()) {
                s.check(got == it->second.v, [&] { return what() + " is '" + got + "', expected '" + it->second.v + "' of " + show(it->first); });
                s.check(r.timingCtx == ctxOf(tries[i]), [&] { return what() + " reports the context " + r.timingCtx.toString() + ", expected " + show(tries[i]); });
                s.check(static_cast<const TimingCtx &>(r) == ctxOf(tries[i]) && static_cast<const std::string &>(r) == got, "conversions of a result");
                it->second.used = Clock::now();
                (i == 0 ? exact : fallbacks)++;
                return;
            }
        }
        ++nothing;
        s.check(got.empty(), [&] { return what() + " is '" + got + "' although nothing was stored for it"; });
        s.check(r.timingCtx == NullTimingCtx, [&] { return what() + " reports the context " + r.timingCtx.toString() + " although nothing was stored for it"; });
    };
    // which requests have one answer: no stored context lies below a level at which the request has a wildcard (which of those is meant is not specified)
    const auto definite = [&](const Snap &snap, const Ids &w) {
        if (snap.m.count(w)) return true;
        for (auto &[k, v] : snap.m)
            if ((w.c == -1 || w.s == -1 || w.p == -1) && matches(k, Ids{ w.c, w.s, w.p, -1 }) && k != Ids{ w.c, w.s, w.p, -1 }) return false;
        const Ids p{ w.c, w.s, -1, -1 }, q{ w.c, -1, -1, -1 };
        for (auto &[k, v] : snap.m) {
            if (matches(k, p) && k != p && k.g == -1 && k.p == -1) return false;
            if (matches(k, q) && k != q && k.g == -1 && k.p == -1 && k.s == -1) return false;
        }
        return true;
    };
    const char *tokens[] = { "a", "b", "token#1", "\xff" };
    for (std::size_t steps = s.size(60); steps > 0; --steps) {
        switch (s.weighted({ 12, 4, 4, 1, 1, 14, 4, 3, 3, 5 })) {
        case 0: {
            const auto i  = someIds(s);
            const auto v  = fresh();
            const bool at = s.chance(1, 4);
            const auto t  = at ? aTime(s, Clock::now()) : Clock::now();
            s.note("commit ", show(i), " ", v, " at ", show(t));
            auto       in = v;
            const auto r  = at ? set.commit(ctxOf(i), std::move(in), t) : set.commit(ctxOf(i), std::move(in));
            s.check(r.isCommitted && r.timeStamp == t, "commit failed");
            push([&](auto &m) { m[i] = { v, Clock::now() }; }, t);
            ++commits;
            sweep(Clock::now());
            break;
        }
        case 1: {
            const auto        i   = someIds(s);
            const auto        v   = fresh();
            const std::string tok = tokens[s.below(4)];
            s.note("stage ", show(i), " ", v, " as ", tok);
            auto in = v;
            s.check(!set.stage(ctxOf(i), std::move(in), tok), "result of staging");
            auto p = std::find_if(pending.begin(), pending.end(), [&](auto &x) { return x.token == tok; });
            if (p == pending.end()) pending.push_back({ tok, i, v, Clock::now() });
            else *p = { tok, i, v, Clock::now() };
            sweep(Clock::now());
            break;
        }
        case 2: {
            const std::string tok = tokens[s.below(4)];
            s.note("commit ", tok);
            const auto r = set.commit(tok);
            auto       p = std::find_if(pending.begin(), pending.end(), [&](auto &x) { return x.token == tok; });
            s.check(r.isCommitted == (p != pending.end()), "result of committing a transaction");
            if (p != pending.end()) {
                const auto x = *p;
                pending.erase(p);
                push([&](auto &m) { m[x.ctx] = { x.v, Clock::now() }; }, Clock::now());
                sweep(Clock::now());
                ++commits;
            }
            break;
        }
        case 3: {
            s.note("commit all");
            const auto r   = set.commit();
            const auto all = std::move(pending);
            pending.clear();
            s.check(r.isCommitted == !all.empty(), "result of committing all transactions");
            for (auto &x : all) push([&](auto &m) { m[x.ctx] = { x.v, Clock::now() }; }, Clock::now());
            if (!all.empty()) sweep(Clock::now());
            break;
        }
        case 4: {
            const std::string tok = tokens[s.below(4)];
            s.note("retire staged ", tok);
            const auto r = set.retireStaged(tok);
            s.check(r == (std::erase_if(pending, [&](auto &p) { return p.token == tok; }) > 0), "result of retireStaged");
            break;
        }
        case 5: { // read
            const bool byTime = s.chance(1, 4);
            auto       want   = someIds(s);
            const auto ctx    = ctxOf(want);
            Snap      *snap   = nullptr;
            std::int64_t idx  = 0;
            TP           t{};
            if (byTime) {
                t = s.coin() ? hist[s.below(hist.size())].since + ms(s.range(-1, 1)) : aTime(s, Clock::now());
                for (auto &x : hist)
                    if (x.since <= t) snap = &x;
                s.note("get ", show(want), " at ", show(t));
            } else {
                idx = s.coin() ? 0 : -std::int64_t(s.below(KEEP + 2));
                if (std::size_t(-idx) < hist.size()) snap = &hist[hist.size() - 1 - std::size_t(-idx)];
                s.note("get ", show(want), " index ", idx);
            }
            if (snap && !definite(*snap, want)) break;
            try {
                auto r = byTime ? set.get(ctx, t) : set.get(ctx, idx);
                s.check(snap != nullptr, "get gives a value where there is none");
                lookup(*snap, want, r, [&] { return "get(" + show(want) + ", " + (byTime ? show(t) : std::to_string(idx)) + ")"; });
                if (held.size() < 4 && s.coin()) held.push_back({ r, *r.settingValue.value, want });
            } catch (const std::out_of_range &) { s.check(snap == nullptr, "get throws out_of_range"); }
            break;
        }
        case 6: {
            const auto i     = someIds(s);
            const bool exactly = s.coin();
            s.note("retire ", show(i), exactly ? " exactly" : "");
            const bool r = exactly ? set.template retire<true>(ctxOf(i)) : set.template retire<false>(ctxOf(i));
            bool       gone = false;
            push([&](auto &m) { gone = std::erase_if(m, [&](auto &p) { return exactly ? p.first == i : matches(p.first, i); }) > 0; }, Clock::now());
            s.check(r == gone, [&] { return "retire(" + show(i) + ") returned " + std::to_string(r); });
            retired += gone;
            sweep(Clock::now());
            break;
        }
        case 7: {
            const auto t = s.coin() ? Clock::now() : Clock::now() + ms(s.below(100));
            s.note("retireExpired ", show(t));
            set.retireExpired(t);
            sweep(t);
            hist.back().hi = std::max(hist.back().hi, Clock::now()), hist.back().lo = std::min(hist.back().lo, Clock::now());
            if (timeOut > 0) expiredCtx += int(std::erase_if(hist.back().m, [&](auto &p) { return t - p.second.used > ms(timeOut); }));
            break;
        }
        case 8: {
            const auto idx = -std::int64_t(s.below(hist.size()));
            auto      &sn  = hist[hist.size() - 1 - std::size_t(-idx)];
            const auto n   = set.nCtxHistory(idx);
            s.check(n == sn.m.size(), [&] { return "nCtxHistory(" + std::to_string(idx) + ") = " + std::to_string(n) + ", expected " + std::to_string(sn.m.size()); });
            sn.lo = sn.hi = Clock::now();
            break;
        }
        case 9: vt::advance(ms(s.below(s.coin() ? 120 : 30))); break;
        }
        s.check(set.nHistory() == hist.size(), [&] { return "nHistory() = " + std::to_string(set.nHistory()) + ", expected " + std::to_string(hist.size()); });
        std::vector<std::string> toks;
        for (auto &p : pending) toks.push_back(p.token);
        s.check(set.getPendingTransactions() == toks, "pending transactions");
        for (auto &h : held) s.check(*h.r.settingValue.value == h.v, [&] { return "the result got for " + show(h.ctx) + " earlier changed from '" + h.v + "' to '" + *h.r.settingValue.value + "'"; });
    }
    const auto last = hist.size() - 1;
    s.check(set.nCtxHistory() == hist[last].m.size(), [&] { return "the latest setting has " + std::to_string(set.nCtxHistory()) + " contexts, expected " + std::to_string(hist[last].m.size()); });
    for (auto &[k, v] : hist[last].m) s.check(*set.get(ctxOf(k)).settingValue.value == v.v, [&] { return "finally, the value of " + show(k) + " is '" + *set.get(ctxOf(k)).settingValue.value + "', expected '" + v.v + "'"; });
    if (retired) s.label("retired");
    if (expiredCtx) s.label("context expired");
    if (fallbacks) s.label("fallback");
    if (nothing) s.label("default");
    s.nontrivial(commits >= 3 && (exact + fallbacks) >= 2);
}
#define RULE "histories of up to 60 commits, staged transactions, look-ups by context and index or time, retirements, expiry and waits on timing contexts of all levels, against a model; non-trivial = 3 commits and 2 look-ups that found a value"
PROPERTY(unlimited, 30000, 300000, RULE) { contexts<-1, -1>(s); }
PROPERTY(contexts_expire, 30000, 300000, RULE) { contexts<100, -1>(s); }
PROPERTY(both_expire, 30000, 300000, RULE) { contexts<150, 60>(s); }
#endif
