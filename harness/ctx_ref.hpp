// independent reference of the timing-selector syntax
#pragma once
#include "pbt.hpp"
#include <optional>
namespace cref {
struct Ctx {
    long long c = -1, s = -1, p = -1, t = -1;
    bool operator==(const Ctx &) const = default;
};
inline std::string upper(std::string v) {
    for (auto &ch : v) if (ch >= 'a' && ch <= 'z') ch = char(ch - 32);
    return v;
}
inline std::optional<long long> int32(const std::string &v) {
    std::size_t i = v.size() > 0 && v[0] == '-' ? 1 : 0;
    if (i == v.size()) return {};
    long long r = 0;
    for (; i < v.size(); ++i) {
        if (v[i] < '0' || v[i] > '9') return {};
        r = r * 10 + (v[i] - '0');
        if (r > (1ll << 33)) return {};
    }
    if (v[0] == '-') r = -r;
    if (r < -2147483648ll || r > 2147483647ll) return {};
    return r;
}
inline std::optional<Ctx> parse(const std::string &selector) {
    auto u = upper(selector);
    Ctx  r;
    if (u.empty() || u == "ALL" || u == "FAIR.SELECTOR.ALL") return r;
    if (!u.starts_with("FAIR.SELECTOR.")) return {};
    u = u.substr(14) + ":";
    for (std::size_t pos = 0; pos < u.size();) {
        const auto e   = u.find(':', pos);
        const auto tag = u.substr(pos, e - pos);
        pos            = e + 1;
        if (tag.size() < 3 || tag[1] != '=' || tag.find('=', 2) != std::string::npos) return {};
        long long v = -1;
        if (tag.substr(2) != "ALL") {
            const auto i = int32(tag.substr(2));
            if (!i) return {};
            v = *i;
        }
        switch (tag[0]) {
        case 'C': r.c = v; break;
        case 'S': r.s = v; break;
        case 'P': r.p = v; break;
        case 'T': r.t = v; break;
        default: return {};
        }
    }
    return r;
}
inline bool matches(const Ctx &notified, const Ctx &subscribed) {
    auto w = [](long long l, long long r) { return r == -1 || l == r; };
    return w(notified.c, subscribed.c) && w(notified.s, subscribed.s) && w(notified.p, subscribed.p) && w(notified.t, subscribed.t);
}
inline std::string print(const Ctx &c) {
    std::string r;
    auto add = [&](const char *k, long long v) { if (v != -1) r += (r.empty() ? "" : ":") + std::string(k) + "=" + std::to_string(v); };
    add("C", c.c);
    add("S", c.s);
    add("P", c.p);
    add("T", c.t);
    return "FAIR.SELECTOR." + (r.empty() ? "ALL" : r);
}
inline std::string genValue(pbt::Src &s) {
    switch (s.below(8)) {
    case 0: return "ALL";
    case 1: return std::to_string(s.integer<std::int32_t>());
    case 2: return s.oneOf<std::string>({ "-1", "2147483647", "2147483648", "-2147483648", "-2147483649", "99999999999999999999", "00001", "-0" });
    case 3: return s.chance(1, 3) ? s.oneOf<std::string>({ "", "1x", "x1", "+1", "0x10", "1.5", "AL", "ALLX", " 1", "1 ", "-", "--1" }) : std::to_string(s.below(10));
    default: return std::to_string(s.below(4));
    }
}
inline std::string gen(pbt::Src &s, bool mostlyValid = true) {
    std::string r;
    if (s.chance(1, 8)) r = s.oneOf<std::string>({ "", "ALL", "FAIR.SELECTOR.ALL", "FAIR.SELECTOR.", "FAIR.SELECTOR", "all", "Fair.Selector.All", "C=1", "FAIR.SELECTOR.C", "FAIR.SELECTOR.C=" });
    else {
        r = "FAIR.SELECTOR.";
        const std::size_t n = 1 + s.below(5);
        for (std::size_t i = 0; i < n; ++i) r += std::string(i ? ":" : "") + (s.chance(1, mostlyValid ? 60 : 10) ? s.oneOf<std::string>({ "X", "CC", "", "=", "c " }) : s.oneOf<std::string>({ "C", "S", "P", "T" })) + "=" + (mostlyValid && !s.chance(1, 12) ? (s.chance(1, 6) ? "ALL" : s.chance(1, 6) ? std::to_string(s.integer<std::int32_t>()) : std::to_string(s.below(4))) : genValue(s));
        if (s.chance(1, 30)) r += s.oneOf<std::string>({ ":", "=", " ", ":C", ":=1" });
    }
    if (s.chance(1, 4)) for (auto &ch : r) if (s.coin() && ch >= 'A' && ch <= 'Z') ch = char(ch + 32);
    if (s.chance(1, mostlyValid ? 40 : 6) && !r.empty()) r[s.below(r.size())] = s.oneOf<char>({ 'C', '=', ':', '.', '1', 'x', '-', '\x01' });
    return r;
}
inline std::string show(const std::optional<Ctx> &c) { return c ? print(*c) : "invalid"; }
} // namespace cref
