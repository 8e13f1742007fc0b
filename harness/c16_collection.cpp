// C16: heterogeneous collections, annotated fields and the small core lookup helpers behave like their plain counterparts.
#include "pbt.hpp"
#include <opencmw.hpp>
#include <collection.hpp>
#include <map>
#include <optional>
using opencmw::Annotated;
using opencmw::collection;

using C = collection<int, std::string, double>;
struct Model {
    std::vector<int>         i;
    std::vector<std::string> s;
    std::vector<double>      d;
    bool operator==(const Model &) const = default;
    auto operator<=>(const Model &o) const { return std::tie(i, s, d) <=> std::tie(o.i, o.s, o.d); }
    std::size_t size() const { return i.size() + s.size() + d.size(); }
};
static Model content(C &c) {
    Model m;
    c.visit([&](int &v) { m.i.push_back(v); }, [&](std::string &v) { m.s.push_back(v); }, [&](double &v) { m.d.push_back(v); });
    return m;
}
static std::string show(const Model &m) { return pbt::showVec(m.i) + pbt::showVec(m.s) + pbt::showVec(m.d); }
PROPERTY(collection_model, 120000, 1200000, "2-30 operations (push, remove, clear, reserve, copy, assign, compare, modify while visiting) on two collections against per-type vectors; non-trivial = a removal that removed something and elements of two types") {
    C     c[2];
    Model m[2];
    bool  removed = false;
    for (std::size_t n = 2 + s.below(29); n > 0; --n) {
        const std::size_t k = s.below(2);
        auto &x = c[k];
        auto &y = m[k];
        switch (s.below(12)) {
        case 0:
        case 1: { const int v = int(s.below(5)); if (s.coin()) x.push_back(v); else { int w = v; x.push_back(w); s.check(w == v, "argument changed"); } y.i.push_back(v); break; }
        case 2:
        case 3: {
            std::string v = s.coin() ? s.str(3, "ab") : std::string(30, char('a' + s.below(3)));
            y.s.push_back(v);
            if (s.coin()) x.push_back(std::string(v));
            else { const auto w = v; x.push_back(v); s.check(v == w, "push_back changed its argument"); }
            break;
        }
        case 4: { const double v = double(s.below(4)) / 2; x.push_back(v); y.d.push_back(v); break; }
        case 5: { const int v = int(s.below(5)); const auto before = y.size(); x.remove(v); std::erase(y.i, v); removed = removed || y.size() != before; break; }
        case 6: {
            std::string v = s.coin() || y.s.empty() ? s.str(3, "ab") : y.s[s.below(y.s.size())];
            const auto before = y.size();
            const auto w = v;
            x.remove(v);
            s.check(v == w, "remove changed its argument");
            std::erase(y.s, v);
            removed = removed || y.size() != before;
            break;
        }
        case 7: { const double v = double(s.below(4)) / 2; x.remove(v); std::erase(y.d, v); break; }
        case 8: if (s.chance(1, 3)) { x.clear(); y = {}; } else { const auto cap = s.below(40); x.reserve(cap); s.check(x.capacity() >= cap, "capacity after reserve"); } break;
        case 9: c[1 - k] = x; m[1 - k] = y; break;
        case 10: {
            int calls = 0;
            x.visit([&](int &v) { v += 1; ++calls; }, [&]<typename T>(T &v) { ++calls; if constexpr (std::is_same_v<T, std::string>) v += "x"; });
            s.check(calls == int(y.size()), [&] { return "visited " + std::to_string(calls) + " of " + std::to_string(y.size()) + " elements"; });
            for (auto &v : y.i) v += 1;
            for (auto &v : y.s) v += "x";
            break;
        }
        default: {
            C moved(std::move(x));
            s.check(content(moved) == y, "moving changed the content");
            x = moved;
        }
        }
        for (int j = 0; j < 2; ++j) {
            s.check(c[j].size() == m[j].size() && c[j].empty() == (m[j].size() == 0), [&] { return "size " + std::to_string(c[j].size()) + " expected " + std::to_string(m[j].size()); });
            const auto got = content(c[j]);
            s.check(got == m[j], [&] { return "content " + show(got) + " expected " + show(m[j]); });
        }
        s.check((c[0] == c[1]) == (m[0] == m[1]), "equality of collections");
        s.check((c[0] < c[1]) == (m[0] < m[1]), "order of collections");
    }
    s.note(show(m[0]) + " / " + show(m[1]));
    s.nontrivial(removed && (!m[0].i.empty() + !m[0].s.empty() + !m[0].d.empty()) >= 2);
    // construction from a list, duplicates in the type list
    collection<int, std::string, int> dup(1, std::string("q"), 2);
    s.check(dup.size() == 3, "collection with duplicate types lost elements");
    auto deduced = collection{ 1, 2.5, std::string("z"), 3, 'c' };
    s.check(deduced.size() == 5, "deduced collection lost elements");
}

using AS = Annotated<std::string, opencmw::NoUnit, "text">;
using AV = Annotated<std::vector<int>, opencmw::NoUnit, "vec", opencmw::RO>;
using AI = Annotated<int, opencmw::NoUnit, "int", opencmw::RW_DEPRECATED>;
using AD = Annotated<double, units::isq::si::length<units::isq::si::metre>, "len", opencmw::RW_PRIVATE>;
PROPERTY(annotated_values, 150000, 1500000, "1-20 operations on annotated strings, vectors and numbers: construct, assign (lvalue, const, rvalue, own type), copy, compare; sources stay unchanged unless moved; non-trivial = an lvalue source and a comparison") {
    AS          a[2];
    AV          v[2];
    AI          i[2]{ AI{ 0 }, AI{ 0 } };
    AD          d[2]{ AD{ 0. }, AD{ 0. } };
    std::string ma[2];
    std::vector<int> mv[2];
    int    mi[2]{};
    double md[2]{};
    bool   lv = false;
    for (std::size_t n = 1 + s.below(20); n > 0; --n) {
        const std::size_t k = s.below(2);
        switch (s.below(10)) {
        case 0: { std::string t = s.coin() ? s.bytesStr(40) : s.str(5, "ab"); const auto keep = t; a[k] = t; s.check(t == keep, "assigning changed the source"); ma[k] = t; lv = true; break; }
        case 1: { const std::string t = s.str(40, "ab"); a[k] = t; ma[k] = t; break; }
        case 2: { std::string t = s.str(40, "ab"); ma[k] = t; a[k] = std::move(t); break; }
        case 3: { std::string t = s.str(40, "ab"); const auto keep = t; AS b(t); s.check(t == keep && b.value() == keep, "constructing changed the source"); a[k] = b; ma[k] = t; s.check(b.value() == keep, "copying changed the source"); lv = true; break; }
        case 4: { std::vector<int> t; for (auto c = s.below(6); c > 0; --c) t.push_back(int(s.below(5))); const auto keep = t; v[k] = t; s.check(t == keep, "assigning changed the source vector"); mv[k] = keep; lv = true; break; }
        case 5: v[1 - k] = v[k]; mv[1 - k] = mv[k]; a[1 - k] = a[k]; ma[1 - k] = ma[k]; break;
        case 6: { int t = s.integer<int>(); i[k] = t; mi[k] = t; break; }
        case 7: { double t = s.floating<double>(); d[k] = AD{ t }; md[k] = t; break; }
        case 8: a[k] += "x"; ma[k] += "x"; v[k].push_back(7); mv[k].push_back(7); break;
        default: {
            s.check((a[0] == a[1]) == (ma[0] == ma[1]) && (a[0] < a[1]) == (ma[0] < ma[1]), "comparison of annotated strings");
            s.check((v[0] == v[1]) == (mv[0] == mv[1]) && (v[0] < v[1]) == (mv[0] < mv[1]), "comparison of annotated vectors");
            s.check((i[0] == i[1]) == (mi[0] == mi[1]) && (d[0] == d[1]) == (md[0] == md[1]), "comparison of annotated numbers");
            s.nontrivial(lv);
        }
        }
        for (int j = 0; j < 2; ++j) s.check(a[j].value() == ma[j] && v[j].value() == mv[j] && i[j].value() == mi[j] && d[j].value() == md[j], "value of an annotated field");
        s.check(opencmw::getAnnotatedMember(a[0]) == ma[0] && opencmw::getAnnotatedMember(i[0]) == mi[0], "value seen through getAnnotatedMember");
    }
    s.note("a=" + pbt::show(ma[0]) + " v=" + pbt::showVec(mv[0]));
    s.check(a[0].getDescription() == "text" && v[0].getDescription() == "vec" && i[0].getDescription() == "int", "description");
    s.check(v[0].getModifier() == opencmw::RO && a[0].getModifier() == opencmw::RW && i[0].getModifier() == opencmw::RW_DEPRECATED && d[0].getModifier() == opencmw::RW_PRIVATE, "modifier");
}
PROPERTY(modifiers, 1, 1, "all 256 modifier bytes", .exhaustive = true) {
    using namespace opencmw;
    for (int b = 0; b < 256; ++b) {
        const auto m = get_ext_modifier(std::uint8_t(b));
        s.check(b <= 5 ? int(m) == b : m == UNKNOWN, [&] { return "modifier byte " + std::to_string(b) + " read as " + std::to_string(int(m)); });
    }
    for (auto m : { RW, RO, RW_DEPRECATED, RO_DEPRECATED, RW_PRIVATE, RO_PRIVATE }) {
        s.check(is_readonly(m) == (m == RO || m == RO_DEPRECATED || m == RO_PRIVATE), "is_readonly");
        s.check(is_deprecated(m) == (m == RW_DEPRECATED || m == RO_DEPRECATED), "is_deprecated");
        s.check(is_private(m) == (m == RW_PRIVATE || m == RO_PRIVATE), "is_private");
    }
    s.nontrivial();
}
PROPERTY(lookup_hash, 100000, 600000, "fixed maps of 6 entries looked up with present and absent keys; string hash against the Java definition; upper-casing; non-trivial = present key") {
    std::array<std::pair<std::string_view, int>, 6> e{ { { "a", 1 }, { "b", 2 }, { "", 3 }, { "ab", 4 }, { "a", 5 }, { "B", 6 } } };
    for (auto &p : e) p.second = int(s.below(100));
    auto copy = e;
    const opencmw::ConstExprMap<std::string_view, int, 6> m{ std::move(copy) };
    const auto key = s.str(2, "abB");
    const std::pair<std::string_view, int> *want = nullptr;
    for (auto &p : e) if (!want && p.first == key) want = &p;
    s.nontrivial(want != nullptr);
    s.check(m.at(key, -7) == (want ? want->second : -7), "lookup with default");
    int  got = 0;
    bool threw = false;
    try {
        got = m.at(key);
    } catch (const std::out_of_range &) {
        threw = true;
    }
    s.check(threw == !want && (!want || got == want->second), "lookup");
    const auto t = s.bytesStr(30);
    std::uint32_t h = 0;
    for (char ch : t) h = h * 31u + std::uint32_t(std::int32_t(ch));
    s.check(std::uint32_t(opencmw::hash(t)) == h, "string hash");
}
