// C12: timing selectors: parsing, printing, matching, equality, order and hash agree with the selector text at every time.
#include <Formatter.hpp>
#include <TimingCtx.hpp>
#include "ctx_ref.hpp"
using opencmw::TimingCtx;
static cref::Ctx ids(const TimingCtx &c) { return { c.cid(), c.sid(), c.pid(), c.gid() }; }
template<typename F>
static bool invalid(F f) {
    try {
        f();
    } catch (const std::invalid_argument &) {
        return true;
    }
    return false;
}
PROPERTY(parse_print, 300000, 3000000, "selector texts (valid, near-valid, mutated); non-trivial = valid with at least one concrete id") {
    const auto t    = cref::gen(s, s.coin());
    const auto want = cref::parse(t);
    const auto bp   = std::chrono::microseconds(s.chance(1, 3) ? s.integer<std::int64_t>() : std::int64_t(s.below(3)));
    s.note("selector=" + pbt::show(t) + " -> " + cref::show(want));
    s.label(want ? "valid" : "invalid");
    s.nontrivial(want && !(*want == cref::Ctx{}));
    auto buf = std::make_unique<char[]>(t.size() ? t.size() : 1);
    std::copy(t.begin(), t.end(), buf.get());
    std::optional<TimingCtx> c;
    const bool threw = invalid([&] { c.emplace(std::string_view(buf.get(), t.size()), bp); });
    s.check(threw == !want, [&] { return "selector " + pbt::show(t) + (threw ? " is rejected" : " is accepted as " + c->toString()) + ", expected " + cref::show(want); });
    if (!want) return;
    s.check(ids(*c) == *want, [&] { return "selector " + pbt::show(t) + " parsed as " + cref::print(ids(*c)) + ", expected " + cref::show(want); });
    s.check(c->bpcts.value() == bp.count(), "time stamp");
    s.check(c->toString() == cref::print(*want) && std::format("{}", *c) == cref::print(*want), [&] { return "printed as " + c->toString() + ", expected " + cref::print(*want); });
    const TimingCtx again(c->toString(), bp);
    s.check(again == *c && again.hash() == c->hash() && (again <=> *c) == 0, "printing and parsing back gives a different context");
    const TimingCtx fromIds(int(want->c), int(want->s), int(want->p), int(want->t), bp);
    s.check(fromIds == *c && fromIds.hash() == c->hash() && ids(fromIds) == *want, "context built from its ids differs");
}
struct Slot {
    TimingCtx   ctx;
    std::string text = "FAIR.SELECTOR.ALL";
    long        bp   = 0;
};
PROPERTY(histories, 120000, 1000000, "pool of 3 contexts, up to 16 operations: assign a selector (valid/invalid), copy, read, compare pairs in either order, hash, print; non-trivial = a comparison right after an unread selector change") {
    std::vector<Slot> pool(3);
    bool dirtyCompare = false;
    std::vector<bool> dirty(3, false);
    auto P = [&](int i) { return cref::parse(pool[std::size_t(i)].text); };
    for (std::size_t k = 2 + s.below(15); k > 0; --k) {
        const int i = int(s.below(3)), j = int(s.below(3));
        auto &a = pool[std::size_t(i)];
        auto &b = pool[std::size_t(j)];
        const auto pa = P(i), pb = P(j);
        switch (s.below(8)) {
        case 0:
        case 1: {
            a.text = cref::gen(s);
            a.ctx.selector = a.text;
            dirty[std::size_t(i)] = true;
            s.note("sel[" + std::to_string(i) + "]=" + a.text);
            break;
        }
        case 2: a.bp = long(s.below(3)); a.ctx.bpcts = a.bp; break;
        case 3: if (i != j) { a.ctx = TimingCtx(b.ctx); a.text = b.text; a.bp = b.bp; dirty[std::size_t(i)] = dirty[std::size_t(j)]; s.note("copy " + std::to_string(j) + "->" + std::to_string(i)); } break;
        case 4: {
            cref::Ctx g;
            const bool bad = invalid([&] { g = ids(a.ctx); });
            s.check(bad == !pa, [&] { return "reading a context with selector " + pbt::show(a.text) + (bad ? " throws" : " gives " + cref::print(g)); });
            if (pa) s.check(g == *pa, [&] { return "context with selector " + pbt::show(a.text) + " reports " + cref::print(g); });
            dirty[std::size_t(i)] = false;
            break;
        }
        case 5: {
            std::string g;
            const bool bad = invalid([&] { g = a.ctx.toString(); });
            s.check(bad == !pa && (!pa || g == cref::print(*pa)), [&] { return "printing selector " + pbt::show(a.text) + ": " + (bad ? "error" : g); });
            const bool bad2 = invalid([&] { (void) a.ctx.hash(); });
            s.check(bad2 == !pa, "hash of an invalid selector");
            dirty[std::size_t(i)] = false;
            break;
        }
        default: {
            bool m = false, mb = false, eq = false, lt = false;
            dirtyCompare = dirtyCompare || dirty[std::size_t(i)] || dirty[std::size_t(j)];
            s.note("compare " + std::to_string(i) + "," + std::to_string(j));
            const bool bad = invalid([&] {
                switch (s.below(3)) {
                case 0: m = a.ctx.matches(b.ctx); break;
                case 1: eq = a.ctx == b.ctx; break;
                default: lt = (a.ctx <=> b.ctx) < 0;
                }
                m  = a.ctx.matches(b.ctx);
                mb = a.ctx.matchesWithBpcts(b.ctx);
                eq = a.ctx == b.ctx;
                lt = (a.ctx <=> b.ctx) < 0;
            });
            dirty[std::size_t(i)] = dirty[std::size_t(j)] = false;
            if (!pa || !pb) {
                if (!bad) s.check(true, "");
                break;
            }
            s.check(!bad, "comparing two valid contexts throws");
            auto tup = [](const cref::Ctx &c, long bp) { return std::make_tuple(c.c, c.s, c.p, c.t, (long long) bp); };
            s.check(m == cref::matches(*pa, *pb), [&] { return cref::print(*pa) + " matches " + cref::print(*pb) + " reported " + (m ? "true" : "false"); });
            s.check(mb == (cref::matches(*pa, *pb) && (b.bp == 0 || a.bp == b.bp)), "matchesWithBpcts");
            s.check(eq == (tup(*pa, a.bp) == tup(*pb, b.bp)), [&] { return "equality of " + pbt::show(a.text) + " and " + pbt::show(b.text) + " reported " + (eq ? "true" : "false"); });
            s.check(lt == (tup(*pa, a.bp) < tup(*pb, b.bp)), "order");
            if (eq) s.check(std::hash<TimingCtx>{}(a.ctx) == std::hash<TimingCtx>{}(b.ctx), "equal contexts with different hashes");
        }
        }
    }
    s.nontrivial(dirtyCompare);
}
PROPERTY(match_algebra, 100000, 1000000, "triples of valid contexts over small ids: matching is reflexive and transitive, everything matches ALL; non-trivial = some pair matches non-trivially") {
    auto g = [&] { cref::Ctx c; c.c = s.range<int>(-1, 2); c.s = s.range<int>(-1, 2); c.p = s.range<int>(-1, 2); c.t = s.range<int>(-1, 2); return c; };
    const auto a = g(), b = g(), c = g();
    auto mk = [](const cref::Ctx &x) { return TimingCtx(int(x.c), int(x.s), int(x.p), int(x.t)); };
    const auto A = mk(a), B = mk(b), C = mk(c);
    s.note(cref::print(a) + " " + cref::print(b) + " " + cref::print(c));
    s.check(A.matches(A) && A.matches(TimingCtx()) && A.matches(opencmw::NullTimingCtx), "matching is not reflexive or ALL does not match everything");
    s.check(A.matches(B) == cref::matches(a, b), "match");
    if (A.matches(B) && B.matches(C)) { s.nontrivial(); s.check(A.matches(C), "matching is not transitive"); }
    if (A.matches(B) && B.matches(A)) s.check(A == B, "mutual match of different contexts");
    s.nontrivial(A.matches(B) && !(A == B));
}
