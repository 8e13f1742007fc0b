// C10: text rendering helpers (join, range/optional/pair formatters, debug log) print exactly the given elements, in order.
#include <chrono>
#include <deque>
#include <list>
#include <map>
#include <optional>
#include <ranges>
#include <set>
#include <span>
#include <string>
#include <vector>
#include "pbt.hpp"
#include <Formatter.hpp>
#include <Debug.hpp>

static std::string one(const std::string &v) { return v; }
static std::string one(int v) { return std::to_string(v); }
static std::string one(long v) { return std::to_string(v); }
static std::string one(unsigned char v) { return std::to_string(unsigned(v)); }
static std::string one(bool v) { return v ? "true" : "false"; }
static std::string one(char v) { return std::string(1, v); }
static std::string one(double v) { // shortest round-trip representation, as std::format documents
    char b[64];
    auto r = std::to_chars(b, b + 64, v);
    return std::string(b, r.ptr);
}
template<typename A, typename B>
static std::string one(const std::pair<A, B> &p);
template<typename T>
static std::string one(const std::optional<T> &o);
template<typename R>
    requires(std::ranges::range<R> && !std::is_same_v<R, std::string>)
static std::string one(const R &r) {
    std::string s = "[";
    std::size_t i = 0;
    for (const auto &e : r) s += std::string(i++ ? ", " : "") + one(typename R::value_type(e));
    return s + "]";
}
template<typename A, typename B>
static std::string one(const std::pair<A, B> &p) { return "(" + one(std::remove_const_t<A>(p.first)) + ", " + one(p.second) + ")"; }
template<typename T>
static std::string one(const std::optional<T> &o) { return o ? one(*o) : "nullopt"; }

template<typename T>
static T gen(pbt::Src &s) {
    if constexpr (std::is_same_v<T, std::string>) return s.bytesStr(12);
    else if constexpr (std::is_same_v<T, bool>) return s.coin();
    else if constexpr (std::is_floating_point_v<T>) return s.floating<T>(false);
    else if constexpr (std::is_same_v<T, char>) return char(s.below(256));
    else if constexpr (std::is_integral_v<T>) return s.integer<T>();
    else if constexpr (requires { typename T::first_type; }) return T{ gen<std::remove_const_t<typename T::first_type>>(s), gen<typename T::second_type>(s) };
    else if constexpr (requires(T t) { t.has_value(); }) return s.chance(1, 3) ? T{} : T{ gen<typename T::value_type>(s) };
    else {
        T r;
        for (std::size_t n = s.size(20); n > 0; --n) r.insert(r.end(), gen<typename T::value_type>(s));
        return r;
    }
}
template<typename R>
static void joinCase(pbt::Src &s) {
    const R    r   = gen<R>(s);
    const bool def = s.chance(1, 4);
    const auto sep = def ? std::string(", ") : s.bytesStr(5);
    std::string want;
    std::size_t i = 0;
    for (const auto &e : r) want += (i++ ? sep : "") + one(typename R::value_type(e));
    const auto got = def ? opencmw::join(r) : opencmw::join(r, sep);
    s.nontrivial(i >= 2);
    s.note("elements=" + std::to_string(i) + " sep=" + pbt::show(sep) + " -> " + pbt::show(got, 80));
    s.check(got == want, [&] { return "join gives " + pbt::show(got) + ", expected " + pbt::show(want); });
}
PROPERTY(join, 150000, 1500000, "containers of 8 kinds with 0-20 random elements, random separators; non-trivial = at least two elements") {
    switch (s.below(8)) {
    case 0: joinCase<std::vector<int>>(s); break;
    case 1: joinCase<std::vector<std::string>>(s); break;
    case 2: joinCase<std::list<double>>(s); break;
    case 3: joinCase<std::set<std::string>>(s); break;
    case 4: joinCase<std::vector<bool>>(s); break;
    case 5: joinCase<std::deque<long>>(s); break;
    case 6: joinCase<std::vector<unsigned char>>(s); break;
    default: joinCase<std::multiset<char>>(s);
    }
}
template<typename R>
static void fmtCase(pbt::Src &s) {
    const R    v    = gen<R>(s);
    const auto want = one(v);
    const auto got  = std::format("{}", v);
    s.nontrivial(want.size() > 4);
    s.note(pbt::show(got, 80));
    s.check(got == want, [&] { return "formatted as " + pbt::show(got) + ", expected " + pbt::show(want); });
    s.check(std::format("<{}|{}>", v, 7) == "<" + want + "|7>", "formatting inside a longer text");
    // bounded output: exactly the prefix, nothing beyond
    const std::size_t n = s.below(want.size() + 3);
    std::string       buf(n + 8, '\xAA');
    const auto        r = std::format_to_n(buf.data(), std::ptrdiff_t(n), "{}", v);
    s.check(std::size_t(r.size) == want.size(), "format_to_n size");
    s.check(buf == want.substr(0, n) + std::string(buf.size() - std::min(n, want.size()), '\xAA'), "format_to_n wrote something else than the prefix");
}
PROPERTY(range_formatter, 150000, 1500000, "nested ranges, maps, pairs and optionals of random values, also into bounded buffers; non-trivial = non-empty rendering") {
    switch (s.below(9)) {
    case 0: fmtCase<std::vector<int>>(s); break;
    case 1: fmtCase<std::vector<std::string>>(s); break;
    case 2: fmtCase<std::vector<std::vector<int>>>(s); break;
    case 3: fmtCase<std::map<std::string, int>>(s); break;
    case 4: fmtCase<std::map<std::string, std::optional<std::string>>>(s); break;
    case 5: fmtCase<std::optional<int>>(s); break;
    case 6: fmtCase<std::pair<std::string, double>>(s); break;
    case 7: fmtCase<std::vector<std::optional<double>>>(s); break;
    default: fmtCase<std::set<std::pair<int, std::string>>>(s);
    }
}
PROPERTY(optional_spec, 60000, 600000, "optional values with the value type's format specification; all non-trivial") {
    s.nontrivial();
    const auto o = gen<std::optional<int>>(s);
    s.note(o ? std::to_string(*o) : "nullopt");
    if (o) {
        s.check(std::format("{:>12}", o) == std::format("{:>12}", *o), "width specification");
        s.check(std::format("{:#x}", o) == std::format("{:#x}", *o), "base specification");
        s.check(std::format("{:*<15d}|", o) == std::format("{:*<15d}|", *o), "fill specification");
    } else s.check(std::format("{:>12}", o) == "nullopt" && std::format("{:#x}", o) == "nullopt", "nullopt with a specification");
    const auto d = gen<std::optional<double>>(s);
    if (d) s.check(std::format("{:.3f}", d) == std::format("{:.3f}", *d), "precision specification");
}
PROPERTY(debug_log, 20000, 200000, "chains of 0-8 logged values, partly with the stream object moved; the log line is the concatenation plus one line break; all non-trivial") {
    s.nontrivial();
    std::ostringstream cap;
    auto              *old = std::cerr.rdbuf(cap.rdbuf());
    std::string        want;
    {
        struct Restore { std::streambuf *b; ~Restore() { std::cerr.rdbuf(b); } } restore{ old };
        for (std::size_t lines = 1 + s.below(3); lines > 0; --lines) {
            const bool moved = s.coin();
            if (moved) {
                auto a = opencmw::debug::log();
                a << "x";
                want += "x";
                auto b = std::move(a);
                for (std::size_t n = s.below(5); n > 0; --n) {
                    const auto t = s.bytesStr(6);
                    b << t << 3;
                    want += t + "3";
                }
            } else {
                auto l = opencmw::debug::log();
                for (std::size_t n = s.below(8); n > 0; --n) {
                    if (s.coin()) { const auto t = s.bytesStr(6); l << t; want += t; }
                    else { const int v = s.integer<int>(); l << v; want += std::to_string(v); }
                }
            }
            want += '\n';
        }
    }
    s.note(pbt::show(want, 80));
    s.check(cap.str() == want, [&] { return "log wrote " + pbt::show(cap.str()) + ", expected " + pbt::show(want); });
}
