// independent reference model of the URI class: RFC 3986 appendix B split + the documented strict-mode alphabets
#ifndef VERIF_URI_REF_HPP
#define VERIF_URI_REF_HPP
#include "pbt.hpp"
#include <optional>
#include <string>
#include <unordered_map>

namespace ref {
using Opt = std::optional<std::string>;
inline bool alnum(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
inline bool in(char c, std::string_view set) { return set.find(c) != std::string_view::npos; }
inline bool unreserved(char c) { return alnum(c) || (c != 0 && in(c, "-_.~")); }
inline bool anyUriChar(char c) { return alnum(c) || (c != 0 && in(c, "-._~:/?#[]@!$&'()*+,;=%")); }
inline int  hexVal(char c) {
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}
inline std::string encode(std::string_view s) {
    std::string r;
    for (char c : s) {
        if (unreserved(c)) r += c;
        else {
            const char *H = "0123456789ABCDEF";
            r += '%';
            r += H[static_cast<unsigned char>(c) >> 4];
            r += H[static_cast<unsigned char>(c) & 15];
        }
    }
    return r;
}
struct Decoded {
    std::string text;
    bool        malformed = false;
};
inline Decoded decode(std::string_view s) {
    Decoded d;
    for (std::size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '%') {
            if (i + 2 < s.size() && hexVal(s[i + 1]) >= 0 && hexVal(s[i + 2]) >= 0) {
                d.text += char(hexVal(s[i + 1]) * 16 + hexVal(s[i + 2]));
                i += 2;
                continue;
            }
            d.malformed = true;
        }
        d.text += s[i];
    }
    return d;
}
struct Parts {
    std::string scheme, authority, path, query, fragment;
    bool        hasScheme = false, hasAuth = false, hasQuery = false, hasFragment = false;
};
inline Parts split(const std::string &u) {
    Parts       p;
    std::size_t pos = 0;
    auto        c   = u.find_first_of(":/?#");
    if (c != std::string::npos && c > 0 && u[c] == ':') {
        p.scheme    = u.substr(0, c);
        p.hasScheme = true;
        pos         = c + 1;
    }
    if (u.compare(pos, 2, "//") == 0) {
        p.hasAuth = true;
        auto e    = u.find_first_of("/?#", pos + 2);
        if (e == std::string::npos) e = u.size();
        p.authority = u.substr(pos + 2, e - pos - 2);
        pos         = e;
    }
    auto e = u.find_first_of("?#", pos);
    if (e == std::string::npos) e = u.size();
    p.path = u.substr(pos, e - pos);
    pos    = e;
    if (pos < u.size() && u[pos] == '?') {
        p.hasQuery = true;
        e          = u.find('#', pos);
        if (e == std::string::npos) e = u.size();
        p.query = u.substr(pos + 1, e - pos - 1);
        pos     = e;
    }
    if (pos < u.size() && u[pos] == '#') {
        p.hasFragment = true;
        p.fragment    = u.substr(pos + 1);
    }
    return p;
}
// references the class documents support for: "[scheme:][//authority][/path][?query][#fragment]"
inline bool supported(const std::string &u) {
    if (u.empty() || u[0] == '/' || u[0] == '?' || u[0] == '#') return true;
    return split(u).hasScheme;
}
inline bool strictOk(const std::string &u) {
    auto p = split(u);
    auto all = [](const std::string &s, auto f) { return std::all_of(s.begin(), s.end(), f); };
    return all(u, anyUriChar) && all(p.scheme, alnum) && all(p.authority, [](char c) { return alnum(c) || in(c, "@:.-_*[]"); }) && all(p.path, [](char c) { return alnum(c) || in(c, "/.-_"); });
}
inline Opt opt(const std::string &s) { return s.empty() ? Opt{} : Opt{ s }; }
struct Auth {
    std::string                  user, pwd, host;
    std::optional<std::uint16_t> port;
    bool                         hostChecked = true;
};
inline Auth splitAuthority(const std::string &a) {
    Auth        r;
    std::string hp = a;
    auto        at = a.find('@');
    if (at != std::string::npos) {
        auto ui = a.substr(0, at);
        hp      = a.substr(at + 1);
        auto c  = ui.find(':');
        r.user  = ui.substr(0, c);
        if (c != std::string::npos) r.pwd = ui.substr(c + 1);
    }
    std::size_t c;
    if (!hp.empty() && hp[0] == '[') {
        auto b = hp.find(']');
        if (b == std::string::npos || (b + 1 < hp.size() && hp[b + 1] != ':')) {
            r.hostChecked = false; // not an IP literal: unspecified
            return r;
        }
        c = hp.find(':', b);
    } else c = hp.find(':');
    r.host = hp.substr(0, c);
    if (c != std::string::npos) {
        auto ps = hp.substr(c + 1);
        unsigned long v = 0;
        bool          ok = !ps.empty();
        for (char d : ps) {
            ok = ok && d >= '0' && d <= '9';
            v  = std::min(v * 10 + unsigned(d - '0'), 10000000ul);
        }
        if (ok && v <= 65535) r.port = std::uint16_t(v);
    }
    return r;
}
using Map = std::unordered_map<std::string, Opt>;
inline Map queryMap(const std::string &q) { // last duplicate wins, empty value == no value
    Map         m;
    std::size_t pos = 0;
    while (pos < q.size()) {
        auto e   = q.find_first_of(";&", pos);
        auto seg = q.substr(pos, e == std::string::npos ? std::string::npos : e - pos);
        auto eq  = seg.find('=');
        auto key = decode(seg.substr(0, eq)).text;
        m[key]   = eq == std::string::npos ? Opt{} : Opt{ decode(seg.substr(eq + 1)).text };
        if (e == std::string::npos) break;
        pos = e + 1;
    }
    return m;
}
inline Map normalise(Map m) {
    for (auto it = m.begin(); it != m.end();) {
        if (it->second && it->second->empty()) it->second.reset();
        if (it->first.empty() && !it->second) it = m.erase(it);
        else ++it;
    }
    return m;
}
inline std::string showMap(const Map &m) {
    std::string r = "{";
    for (auto &[k, v] : m) r += pbt::show(k) + ":" + (v ? pbt::show(*v) : std::string("none")) + " ";
    return r + "}";
}
inline std::string showOpt(const Opt &o) { return o ? pbt::show(*o) : std::string("none"); }

// ---- generators
inline std::string genAlnum(pbt::Src &s, std::size_t lo, std::size_t hi) {
    static const std::string A = "abcxyzABZ0189";
    std::string              r;
    for (std::size_t n = lo + s.below(hi - lo + 1); n > 0; --n) r += A[s.below(A.size())];
    return r;
}
inline std::string genFrom(pbt::Src &s, std::string_view a, std::size_t lo, std::size_t hi) {
    std::string r;
    for (std::size_t n = lo + s.below(hi - lo + 1); n > 0; --n) r += a[s.below(a.size())];
    return r;
}
inline std::string genAuthority(pbt::Src &s) {
    std::string a;
    if (s.chance(1, 3)) {
        a += genFrom(s, "abZ09.-_", 0, 5);
        if (s.coin()) a += ":" + genFrom(s, "abZ09.-_", 0, 5);
        if (s.chance(1, 10)) a += ":" + genFrom(s, "ab", 0, 2);
        a += "@";
    }
    switch (s.weighted({ 6, 2, 1, 1 })) {
    case 0: a += genFrom(s, "abcZ09.-_", 0, 12); break;
    case 1: a += "[" + genFrom(s, "0123abf:", 0, 8) + "]"; break;
    case 2: a += "*"; break;
    default: a += genFrom(s, "ab[]:@*", 0, 6);
    }
    if (s.chance(2, 5)) a += ":" + (s.coin() ? std::to_string(s.oneOf<int>({ 0, 1, 80, 8080, 65535, 65536, 99999, 100000 })) : s.coin() ? std::to_string(s.below(70000)) : genFrom(s, "0123456789ax-+ ", 0, 6));
    return a;
}
inline std::string genQuery(pbt::Src &s, bool strictMap) {
    std::string q;
    for (std::size_t n = s.below(6); n > 0; --n) {
        auto tok = [&] {
            std::string t;
            for (std::size_t k = s.below(5); k > 0; --k) switch (s.weighted({ 6, 2, 1, 1 })) {
                case 0: t += genFrom(s, "abkv019.-_~:/", 1, 2); break;
                case 1: t += encode(std::string(1, char(s.below(256)))); break;
                case 2: t += s.oneOf<const char *>({ "%4a", "%4A", "%61", "%", "%4", "%g1", "%1g", "%%", "%-1", "% 1" }); break;
                default: t += strictMap ? std::string("=") : genFrom(s, "!$'()*+,?@[]=:/", 1, 1);
                }
            return t;
        };
        q += tok();
        if (s.chance(2, 3)) q += "=" + tok();
        if (n > 1 || s.chance(1, 8)) q += s.coin() ? "&" : ";";
    }
    return q;
}
inline std::string genUri(pbt::Src &s, bool withBad = true) {
    std::string u;
    if (s.chance(3, 4)) u += genAlnum(s, 1, 6) + ":";
    if (s.chance(3, 4)) u += "//" + genAuthority(s);
    if (s.chance(3, 4)) {
        if (!u.empty() && u.find("//") != std::string::npos) u += "/";
        else if (s.chance(3, 4)) u += "/";
        u += genFrom(s, "abcZ09.-_/", 0, s.chance(1, 10) ? 60 : 14);
    }
    if (s.coin()) u += "?" + genQuery(s, s.coin());
    if (s.coin()) u += "#" + genFrom(s, "abZ09-._~?/:=&%@!", 0, 10);
    if (withBad && s.chance(1, 3)) { // mutations
        static const std::string del = ":/?#[]@%~!$&'()*+,;= <>\"{}|\\^`\x7f\x80\xff";
        for (std::size_t n = 1 + s.below(3); n > 0; --n) {
            const auto p = s.below(u.size() + 1);
            const char c = s.chance(9, 10) ? del[s.below(del.size())] : char(s.below(256));
            if (s.chance(1, 4) && p < u.size()) u.erase(p, 1);
            else if (s.coin() && p < u.size()) u[p] = c;
            else u.insert(u.begin() + long(p), c);
        }
    }
    return u;
}
} // namespace ref
#endif
