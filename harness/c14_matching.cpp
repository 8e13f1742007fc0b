// C14: a notification reaches exactly the subscriptions whose service and filtered parameters it satisfies.
#include <map>
#include <Formatter.hpp>
#include <majordomo/SubscriptionMatcher.hpp>
#include "ctx_ref.hpp"
#include "uri_ref.hpp"
using opencmw::mdp::Topic;
using Params = Topic::Params;
enum Kind { CTX, TEXT, I32, I64, F64, U8, LESS, NKINDS };
struct Less { bool operator()(std::string_view a, std::string_view b) const { return a < b; } };
template<typename T>
static std::optional<T> num(const std::string &v) { // whole text is one in-range number
    std::size_t i = !v.empty() && v[0] == '-' && std::is_signed_v<T> ? 1 : 0;
    if constexpr (std::is_integral_v<T>) {
        if (i == v.size()) return {};
        __int128 r = 0;
        for (std::size_t k = i; k < v.size(); ++k) {
            if (v[k] < '0' || v[k] > '9') return {};
            r = r * 10 + (v[k] - '0');
            if (r > (__int128(1) << 70)) return {};
        }
        if (i) r = -r;
        if (r < std::numeric_limits<T>::min() || r > std::numeric_limits<T>::max()) return {};
        return T(r);
    } else {
        if (v.empty() || v[0] == '+' || std::isspace(static_cast<unsigned char>(v[0]))) return {};
        if (v.find_first_not_of("0123456789.eE+-") != std::string::npos) return {};
        char *e;
        errno = 0;
        const T r = T(std::strtod(v.c_str(), &e));
        if (*e || e == v.c_str()) return {};
        return r;
    }
}
static bool refFilter(int k, const std::string &n, const std::string &sub) {
    auto eq = [&](auto tag) { auto a = num<decltype(tag)>(n), b = num<decltype(tag)>(sub); return a && b && *a == *b; };
    switch (k) {
    case CTX: { auto a = cref::parse(n), b = cref::parse(sub); return a && b && cref::matches(*a, *b); }
    case TEXT: return n == sub;
    case I32: return eq(std::int32_t{});
    case I64: return eq(std::int64_t{});
    case F64: return eq(double{});
    case U8: return eq(std::uint8_t{});
    default: return n < sub;
    }
}
static std::string genVal(pbt::Src &s, int k) {
    switch (k) {
    case CTX: return cref::gen(s);
    case TEXT:
    case LESS: return s.oneOf<std::string>({ "a", "b", "text/html", "", "ab" });
    case F64: return s.oneOf<std::string>({ "0", "1", "1.0", "1e0", "-1", "0.5", "2.50", "2.5", "", "x", "1x", "+1", "-0" });
    default: return s.chance(1, 3) ? std::to_string(s.integer<std::int64_t>()) : s.oneOf<std::string>({ "0", "1", "01", "-1", "255", "256", "257", "2147483647", "2147483648", "4294967296", "99999999999999999999", "999999999999999999999", "", "x", "1x", "1 ", "-0" });
    }
}
PROPERTY(match, 250000, 2500000, "matchers with 0-5 registered filters of 7 kinds; notification and subscription topics sharing services/keys; non-trivial = same service and at least one filtered key on the subscription side") {
    opencmw::majordomo::SubscriptionMatcher m;
    std::map<std::string, int>              filters;
    static const std::vector<std::string>   keys{ "ctx", "contentType", "k1", "k&2", "K1", "x" };
    for (auto &k : keys) {
        if (s.coin()) continue;
        const int kind = int(s.below(NKINDS));
        filters[k]     = kind;
        switch (kind) {
        case CTX: m.addFilter<opencmw::TimingCtxFilter>(k); break;
        case TEXT: m.addFilter<opencmw::ContentTypeFilter>(k); break;
        case I32: m.addFilter<opencmw::NumberFilter<std::int32_t>>(k); break;
        case I64: m.addFilter<opencmw::NumberFilter<std::int64_t>>(k); break;
        case F64: m.addFilter<opencmw::NumberFilter<double>>(k); break;
        case U8: m.addFilter<opencmw::NumberFilter<std::uint8_t>>(k); break;
        default: m.addFilter<opencmw::DomainFilter<std::string_view, Less>>(k);
        }
    }
    Params pn, ps;
    for (auto &k : keys) {
        const int kind = filters.contains(k) ? filters[k] : int(s.below(NKINDS));
        auto v = [&]() -> std::optional<std::string> { auto t = genVal(s, kind); return t.empty() ? std::nullopt : std::optional(t); };
        if (s.chance(2, 3)) pn[k] = v();
        if (s.coin()) ps[k] = pn.contains(k) && s.coin() ? pn[k] : v();
    }
    const std::string sn = s.oneOf<std::string>({ "/service", "/service/A", "/service2" });
    const std::string ss = s.chance(2, 3) ? sn : s.oneOf<std::string>({ "/service", "/service/A", "/service2", "/servic" });
    bool want = sn == ss, filtered = false;
    for (auto &[k, v] : ps) {
        if (!filters.contains(k)) continue;
        filtered = true;
        if (!pn.contains(k)) want = false;
        else want = want && refFilter(filters[k], pn[k].value_or(""), v.value_or(""));
    }
    s.nontrivial(sn == ss && filtered);
    s.label(want ? "match" : "no match");
    auto text = [](const std::string &svc, const Params &p) {
        std::string q;
        for (auto &[k, v] : p) q += (q.empty() ? "?" : "&") + ref::encode(k) + (v ? "=" + ref::encode(*v) : "");
        return svc + q;
    };
    s.note("notified " + text(sn, pn) + " subscribed " + text(ss, ps));
    const auto tn = s.coin() ? Topic::fromString(text(sn, pn)) : Topic::fromString(sn, pn);
    const auto ts = s.coin() ? Topic::fromString(text(ss, ps)) : Topic::fromZmqTopic(Topic::fromString(ss, ps).toZmqTopic());
    const bool got = m(tn, ts);
    s.check(got == want, [&] {
        std::string f;
        for (auto &[k, v] : filters) f += k + ":" + std::to_string(v) + " ";
        return "notification " + text(sn, pn) + (got ? " delivered to " : " not delivered to ") + text(ss, ps) + " (filters " + f + ")";
    });
}
