// C32: a context object survives the way through query parameters, and no query text breaks it.
#include <cmath>
#include <map>
#include <Formatter.hpp>
#include <QuerySerialiser.hpp>
#include <URI.hpp>
#include <majordomo/SubscriptionMatcher.hpp>
#include "ctx_ref.hpp"
#include "uri_ref.hpp"
using namespace opencmw;
struct Q {
    std::string    text = "def";
    std::string    other;
    bool           flag;
    bool           flag2 = false;
    std::int8_t    i8;
    std::uint8_t   u8 = 7;
    short          i16;
    std::int32_t   i32 = -3;
    std::int64_t   i64;
    float          f32;
    double         f64 = 2.5;
    MIME::MimeType contentType = MIME::UNKNOWN;
    TimingCtx      ctx;
};
ENABLE_REFLECTION_FOR(Q, text, other, flag, flag2, i8, u8, i16, i32,  i64,  f32, f64, contentType, ctx)
struct T {
    bool on = true;
    int  x;
};
ENABLE_REFLECTION_FOR(T, on, x)
struct NoMime {
    int x;
};
ENABLE_REFLECTION_FOR(NoMime, x)
struct TwoMime {
    int            x;
    MIME::MimeType second = MIME::JSON, first = MIME::HTML; // declaration order differs from the listed one
};
ENABLE_REFLECTION_FOR(TwoMime, x, first, second)

static std::string bits(double v) { return std::isnan(v) ? "nan" : std::format("{:a}", v); }
static std::map<std::string, std::string> dump(const Q &q) { // independent view of the fields
    return { { "text", q.text }, { "other", q.other }, { "flag", q.flag ? "1" : "0" }, { "flag2", q.flag2 ? "1" : "0" }, { "i8", std::to_string(q.i8) }, { "u8", std::to_string(q.u8) }, { "i16", std::to_string(q.i16) }, { "i32", std::to_string(q.i32) }, { "i64", std::to_string(q.i64) }, { "f32", bits(double(q.f32)) }, { "f64", bits(q.f64) }, { "contentType", std::string(q.contentType.typeName()) }, { "ctx", q.ctx.toString() } };
}
static std::string diff(const std::map<std::string, std::string> &a, const std::map<std::string, std::string> &b) {
    for (auto &[k, v] : a)
        if (b.at(k) != v) return k + " is " + pbt::show(b.at(k)) + ", expected " + pbt::show(v);
    return "";
}
static const std::vector<MIME::MimeType> kMimes{ MIME::UNKNOWN, MIME::JSON, MIME::BINARY, MIME::CMWLIGHT, MIME::HTML, MIME::TEXT, MIME::PNG };
static std::string text(pbt::Src &s) {
    switch (s.weighted({ 3, 3, 2 })) {
    case 0: return s.oneOf<std::string>({ "", "a", "true", "false", "0", "a=b", "a&b", "%41", "+", " ", "#", "?", "/x", "\xc3\xa4", "def" });
    case 1: { std::string r; for (auto n = s.below(12); n--;) r += char(s.below(256)); return r; }
    default: {
        std::string r;
        for (auto n = s.below(40); n--;) r += char(s.range(32, 126));
        return r;
    }
    }
}
static Q gen(pbt::Src &s) {
    Q q = Q();
    q.text  = text(s);
    q.other = text(s);
    q.flag  = s.coin();
    q.flag2 = s.coin();
    q.i8    = s.integer<std::int8_t>();
    q.u8    = s.integer<std::uint8_t>();
    q.i16   = s.integer<short>();
    q.i32   = s.integer<std::int32_t>();
    q.i64   = s.integer<std::int64_t>();
    q.f32   = s.floating<float>();
    q.f64   = s.floating<double>();
    q.contentType = kMimes[s.below(unsigned(kMimes.size()))];
    auto id = [&] { return s.coin() ? -1 : int(s.below(5000)); };
    q.ctx   = TimingCtx(id(), id(), id(), id());
    return q;
}
static std::string show(const Q &q) {
    std::string r;
    for (auto &[k, v] : dump(q)) r += k + "=" + pbt::show(v) + " ";
    return r;
}
PROPERTY(roundtrip, 40000, 1500000, "contexts with strings, flags, numbers of all sizes, MIME type and timing selector, through the parameter map and through the text of a URI; non-trivial = a string needs escaping and a number is not integral") {
    const Q    q    = gen(s);
    const auto want = dump(q);
    s.note(show(q));
    s.nontrivial((ref::encode(q.text) != q.text || ref::encode(q.other) != q.other) && (q.f64 != std::floor(q.f64) || q.f32 != std::floor(q.f32)));
    const auto m = query::serialise(q);
    for (auto &[k, v] : m) s.check(want.contains(k), "parameter ", k, " does not belong to a field");
    const Q direct = query::deserialise<Q>(m);
    s.check(diff(want, dump(direct)).empty(), "after serialise and deserialise, ", diff(want, dump(direct)));
    const auto uri = URI<STRICT>::factory(URI<STRICT>("/service")).setQuery(m).build();
    const Q    viaUri = query::deserialise<Q>(URI<STRICT>(uri.str()).queryParamMap());
    s.check(diff(want, dump(viaUri)).empty(), "through ", uri.str(), ", ", diff(want, dump(viaUri)));
    s.check(query::getMimeType(q) == q.contentType, "getMimeType gives another type");
}
// what is not there or does not parse keeps the default, the rest arrives
PROPERTY(any_map, 60000, 2000000, "parameter maps with valid, malformed, out-of-range, missing and unknown entries; non-trivial = at least one valid and one invalid entry") {
    query::QueryMap m;
    Q               def = Q();
    auto            want = dump(def);
    unsigned        good = 0, bad = 0;
    auto put = [&](const std::string &k, auto value) { // value(string) -> dumped value if valid
        if (s.chance(1, 3)) return;
        std::optional<std::string> v;
        switch (s.weighted({ 6, 3, 3, 2, 1 })) {
        case 0: v = std::to_string(s.integer<std::int64_t>()); break;
        case 1: v = std::to_string(std::int64_t(s.below(300)) - 150); break;
        case 2: v = s.oneOf<std::string>({ "", "true", "false", "True", "TRUE", "1x", " 1", "1 ", "+1", "-0", "007", "1.5", "-1.5e3", "1e999", "1e-999", "0x10", "nan", "inf", "99999999999999999999999", "-", "text/html", "application/json", "FAIR.SELECTOR.ALL", "FAIR.SELECTOR.C=1:S=2", "FAIR.SELECTOR.X=1", "FAIR.SELECTOR.C=1:S=x", "fair.selector.c=3", "garbage" }); break;
        case 3: v = text(s); break;
        default: break;
        }
        m[k] = v;
        s.note(k, " = ", v ? pbt::show(*v) : "(none)");
        if (auto r = value(v)) {
            want[k] = *r;
            ++good;
        } else ++bad;
    };
    using O = std::optional<std::string>;
    auto str  = [](const O &v) -> O { return v.value_or(""); };
    auto flag = [](const O &v) -> O { return !v || *v == "true" ? O("1") : *v == "false" ? O("0") : O(); };
    auto integer = [](auto lo, auto hi) {
        return [=](const O &v) -> O {
            if (!v || v->empty()) return {};
            std::size_t i = (*v)[0] == '-' && lo < 0 ? 1 : 0;
            if (i == v->size()) return {};
            __int128 r = 0;
            for (std::size_t k = i; k < v->size(); ++k) {
                if ((*v)[k] < '0' || (*v)[k] > '9') return {};
                r = r * 10 + ((*v)[k] - '0');
                if (r > (__int128(1) << 80)) return {};
            }
            if (i) r = -r;
            if (r < __int128(lo) || r > __int128(hi)) return {};
            return r < 0 ? std::to_string((long long) r) : std::to_string((unsigned long long) r);
        };
    };
    auto real = [](auto tag) {
        return [=](const O &v) -> O {
            if (!v || v->empty() || (*v)[0] == '+' || std::isspace((unsigned char) (*v)[0])) return {};
            if (*v == "nan") return "nan";
            if (*v == "inf") return bits(HUGE_VAL);
            if (v->find_first_not_of("0123456789.eE+-") != std::string::npos) return {};
            char *e;
            errno = 0;
            double r;
            if constexpr (sizeof(tag) == 4) r = double(std::strtof(v->c_str(), &e));
            else r = std::strtod(v->c_str(), &e);
            if (*e || e != v->c_str() + v->size() || std::isinf(r) || errno == ERANGE) return {};
            return bits(r);
        };
    };
    put("text", str), put("other", str), put("flag", flag), put("flag2", flag);
    put("i8", integer(-128, 127)), put("u8", integer(0, 255)), put("i16", integer(-32768, 32767)), put("i32", integer(-2147483648ll, 2147483647ll));
    put("i64", integer(std::numeric_limits<std::int64_t>::min(), std::numeric_limits<std::int64_t>::max()));
    put("f32", real(0.f)), put("f64", real(0.0));
    put("ctx", [](const O &v) -> O {
        if (!v) return {};
        auto c = cref::parse(*v);
        return c ? O(cref::print(*c)) : O();
    });
    put("contentType", [](const O &v) -> O {
        if (!v) return {};
        return std::string(MIME::getType(*v).typeName()); // see C11
    });
    if (s.coin()) m["unknown"] = "x", m[""] = std::nullopt, m["TEXT"] = "case";
    s.nontrivial(good && bad);
    std::optional<Q> got;
    try {
        got = query::deserialise<Q>(m);
    } catch (...) { s.check(false, "deserialise throws"); }
    s.check(diff(want, dump(*got)).empty(), diff(want, dump(*got)));
}
// a notification with a context reaches who subscribed to that context, and no one who asked for something else
PROPERTY(filters, 30000, 1000000, "two contexts that agree in most fields, as topics of a notification and a subscription, filters registered from the type; non-trivial = the contexts differ in at least one and at most three fields") {
    Q a = gen(s);
    if (std::isnan(a.f32)) a.f32 = 1.5f;
    if (std::isnan(a.f64)) a.f64 = 1.5;
    Q        b = a;
    const Q  c = gen(s);
    unsigned differing = 0;
    bool     want = true;
    auto     maybe = [&](auto p, auto eq) {
        if (!s.chance(1, 10)) return;
        b.*p = c.*p;
        if (!eq(a.*p, b.*p)) want = false, ++differing;
    };
    auto same = [](const auto &x, const auto &y) { return x == y; };
    auto sub  = [](bool n, bool w) { return n || !w; }; // an unset flag asks for nothing
    maybe(&Q::text, same), maybe(&Q::other, same), maybe(&Q::flag, sub), maybe(&Q::flag2, sub), maybe(&Q::i8, same), maybe(&Q::u8, same), maybe(&Q::i16, same), maybe(&Q::i32, same), maybe(&Q::i64, same), maybe(&Q::f32, same), maybe(&Q::f64, same), maybe(&Q::contentType, same);
    maybe(&Q::ctx, [](const TimingCtx &n, const TimingCtx &w) {
        auto ok = [](int x, int y) { return y == -1 || x == y; };
        return ok(n.cid(), w.cid()) && ok(n.sid(), w.sid()) && ok(n.pid(), w.pid()) && ok(n.gid(), w.gid());
    });
    s.nontrivial(differing >= 1 && differing <= 3);
    majordomo::SubscriptionMatcher matcher;
    query::registerTypes(Q(), matcher);
    auto topic = [](const Q &q) { return mdp::Topic::fromMdpTopic(URI<STRICT>::factory(URI<STRICT>("/s")).setQuery(query::serialise(q)).build()); };
    const auto ta = topic(a), tb = topic(b);
    s.note("notified   ", show(a));
    s.note("subscribed ", show(b));
    s.check(matcher(ta, tb) == want, "notification ", ta.toZmqTopic(), want ? " does not reach " : " reaches ", tb.toZmqTopic());
    s.check(matcher(ta, mdp::Topic::fromString("/s")), "a subscription without parameters is not served");
    s.check(query::getMimeType(NoMime{}) == MIME::UNKNOWN, "MIME type of a context without one");
    TwoMime two{};
    two.first = kMimes[s.below(unsigned(kMimes.size()))];
    s.check(query::getMimeType(two) == two.first, "MIME type of a context with two");
}
static pbt::RegProbe p1("bool-default-true", [] {
    T t{};
    t.on = false;
    return query::deserialise<T>(query::serialise(t)).on != false;
});
