// C27: JSON serialiser: round trip, valid standard JSON with exactly the object's content, and foreign JSON of the same content is understood.
#include "ser_roundtrip.hpp"
#include "json_ref.hpp"
#include <IoSerialiserJson.hpp>
using namespace ser;

#define RT "random object serialised as JSON (into an empty or used buffer) and read back by each checking mode into a clean or used receiver; non-trivial = object differs from the default and the receiver held other data"
static Opt opt() {
    Opt o{};
    o.keyAlphabet = "abcXYZ019_-.:/ {}[],'#\x7f\xc3\xa4"; // keys are written literally (no quotes, backslashes, control characters)
    return o;
}
static const Opt   o  = opt();
static const RtOpt ro{ .trailing = true, .textCmp = true };
#if PART == 0
PROPERTY(prim, 40000, 600000, RT) { roundtrip<Json, Prim>(s, o, ro); }
PROPERTY(vecs, 25000, 400000, RT) { roundtrip<Json, Vecs>(s, o, ro); }
PROPERTY(chars, 15000, 200000, RT) { roundtrip<Json, Chars>(s, o, ro); }
PROPERTY(strarr, 15000, 200000, RT) { roundtrip<Json, StrArr>(s, o, ro); }
#endif
#if PART == 1
PROPERTY(sets, 20000, 300000, RT) { roundtrip<Json, Sets>(s, o, ro); }
PROPERTY(maps, 20000, 300000, RT) { roundtrip<Json, StrMaps>(s, o, ro); }
PROPERTY(vecmap, 20000, 300000, RT) { roundtrip<Json, VecMap>(s, o, ro); }
#endif
#if PART == 2
PROPERTY(multi, 20000, 300000, RT) { roundtrip<Json, Multi>(s, o, ro); }
PROPERTY(tree, 20000, 300000, RT) { roundtrip<Json, Tree>(s, o, ro); }
PROPERTY(ptrs, 20000, 300000, RT) { roundtrip<Json, Ptrs>(s, o, ro); }
#endif
#if PART == 7
PROPERTY(objects, 15000, 200000, RT) { roundtrip<Json, Objs>(s, o, ro); }
PROPERTY(objmap, 15000, 200000, RT) { roundtrip<Json, ObjMap>(s, o, ro); }
PROPERTY(deep, 15000, 200000, RT) { roundtrip<Json, Deep>(s, o, ro); }
#endif
#if PART == 3
// units are not part of JSON: annotated objects are read without checking them
PROPERTY(annot, 15000, 200000, RT) { s.coin() ? roundtripOne<Json, ProtocolCheck::IGNORE, true, Annot>(s, o, ro) : roundtripOne<Json, ProtocolCheck::IGNORE, false, Annot>(s, o, ro); }
PROPERTY(everything, 12000, 200000, RT) { roundtripOne<Json, ProtocolCheck::IGNORE, true, Everything>(s, o, ro); }
#endif

// ---- object -> reference document ----
using jref::Val;
template<typename T>
static bool matches(const Val &d, const T &v);
template<typename T>
static bool numEq(const Val &d, T v) {
    if (d.k != Val::Num) return false;
    if constexpr (std::is_floating_point_v<T>) {
        if (std::isnan(v)) return d.s == "nan" || d.s == "-nan";
        if (std::isinf(v)) return d.s == (v > 0 ? "inf" : "-inf");
        T    x{};
        auto r = std::from_chars(d.s.data(), d.s.data() + d.s.size(), x);
        return r.ec == std::errc() && r.ptr == d.s.data() + d.s.size() && eq(x, v);
    } else return d.s == std::to_string(static_cast<long long>(v));
}
template<typename T>
static bool matches(const Val &d, const T &v) {
    if constexpr (is_annotated<T>) return matches(d, ser::av(v));
    else if constexpr (std::is_same_v<T, bool>) return d.k == Val::Bool && d.b == v;
    else if constexpr (std::is_arithmetic_v<T>) return numEq(d, v);
    else if constexpr (std::is_same_v<T, std::string>) return d.k == Val::Str && d.s == v;
    else if constexpr (MultiArrayType<T>) {
        if (d.k != Val::Obj || d.keys != std::vector<std::string>{ "dims", "values" }) return false;
        const std::vector<int32_t> dims(v.dimensions().begin(), v.dimensions().end());
        return matches(d.a[0], dims) && matches(d.a[1], v.elements());
    } else if constexpr (requires { typename T::mapped_type; }) {
        if (d.k != Val::Obj || d.keys.size() != v.size()) return false;
        for (std::size_t i = 0; i < d.keys.size(); ++i) {
            const auto it = v.find(d.keys[i]);
            if (it == v.end() || !matches(d.a[i], it->second)) return false;
        }
        return true;
    } else if constexpr (is_array<T> || is_vector<T> || requires { typename T::key_type; }) {
        if (d.k != Val::Arr || d.a.size() != v.size()) return false;
        std::size_t i = 0;
        for (const auto &e : v)
            if (!matches(d.a[i++], static_cast<typename T::value_type>(e))) return false;
        return true;
    } else {
        if (d.k != Val::Obj) return false;
        std::size_t i  = 0;
        bool        ok = true;
        for_each(refl::reflect<T>().members, [&](auto member, auto) {
            const auto &m = member(v);
            auto one = [&](const auto &x) {
                ok = ok && i < d.keys.size() && d.keys[i] == member.name.c_str() && matches(d.a[i], x);
                ++i;
            };
            if constexpr (is_smart_pointer<std::remove_cvref_t<decltype(m)>>) {
                if (m) one(*m);
            } else one(m);
        });
        return ok && i == d.keys.size();
    }
}
#if PART == 4
template<typename T>
static void valid(pbt::Src &s) {
    T v{};
    gen(s, v, o);
    s.note(show(v));
    IoBuffer b;
    if (s.coin()) write<Json, true>(b, v);
    else write<Json, false>(b, v);
    jref::Parser p{ std::string_view(reinterpret_cast<const char *>(b.data()), b.size()) };
    p.allowNonFinite = true;
    try {
        const Val d = p.document();
        s.check(matches(d, v), [&] { return "the JSON text does not have the content of the object " + show(v) + ": " + text(b); });
    } catch (const jref::Bad &e) {
        throw pbt::Fail{ "not valid JSON: " + e.what + " at " + std::to_string(e.pos) + ": " + text(b) };
    }
    s.nontrivial(nontrivialValue(v));
}
static pbt::RegProbe mapKeyEscapes("map-key-escapes", [] {
    StrMaps m;
    m.mi["a\"b"] = 1;
    IoBuffer b;
    write<Json, false>(b, m);
    jref::Parser p{ std::string_view(reinterpret_cast<const char *>(b.data()), b.size()) };
    try {
        return !matches(p.document(), m);
    } catch (const jref::Bad &) {
        return true;
    }
});
PROPERTY(standard_json, 60000, 800000, "output for a random object parsed by an independent strict JSON parser (inf/nan tolerated) and compared member by member with the object; non-trivial = object differs from the default") {
    switch (s.below(13)) {
    case 0: return valid<Prim>(s);
    case 10: return valid<Objs>(s);
    case 11: return valid<ObjMap>(s);
    case 12: return valid<Deep>(s);
    case 1: return valid<Vecs>(s);
    case 2: return valid<Chars>(s);
    case 3: return valid<StrMaps>(s);
    case 4: return valid<Sets>(s);
    case 5: return valid<Multi>(s);
    case 6: return valid<Ptrs>(s);
    case 7: return valid<Annot>(s);
    case 8: return valid<VecMap>(s);
    default: return valid<Everything>(s);
    }
}
#endif

#if PART == 5 || PART == 6
// ---- foreign JSON text ----
static std::string ws(pbt::Src &s) {
    std::string r;
    for (auto n = s.chance(1, 3) ? s.below(4) : 0; n > 0; --n) r += s.oneOf<char>({ ' ', '\n', '\t', '\r' });
    return r;
}
static std::string quoteAny(pbt::Src &s, std::string_view v) { // any legal spelling of the string (bytes >= 0x80 literally)
    std::string r = "\"";
    for (unsigned char c : v) {
        const char *esc = c == '"' ? "\\\"" : c == '\\' ? "\\\\" : c == '/' ? "\\/" : c == '\b' ? "\\b" : c == '\f' ? "\\f" : c == '\n' ? "\\n" : c == '\r' ? "\\r" : c == '\t' ? "\\t" : nullptr;
        if (esc && (c != '/' || s.coin()) && !s.chance(1, 4)) r += esc;
        else if (c < 0x20 || c == '"' || c == '\\' || (c < 0x80 && s.chance(1, 8))) r += s.coin() ? std::format("\\u{:04x}", c) : std::format("\\u{:04X}", c);
        else r += char(c);
    }
    return r + "\"";
}
static std::string anyValue(pbt::Src &s, int depth) { // arbitrary valid JSON value
    switch (depth > 3 ? s.below(5) : s.below(7)) {
    case 0: return s.oneOf<const char *>({ "0", "-0", "12", "-3.5", "1e9", "2.5E-3", "123456789012345678901234567890", "1.7976931348623157e308", "0.1234567890123456789012345678901234567890", "-1E+2" });
    case 1: return quoteAny(s, s.bytesStr(8));
    case 2: return s.oneOf<const char *>({ "true", "false", "null" });
    case 3: return quoteAny(s, s.str(6, "{}[],:\"\\ a"));
    case 4: return std::to_string(s.integer<int64_t>());
    case 5: {
        std::string r = "[" + ws(s);
        for (auto n = s.below(4), i = n; i > 0; --i) r += (i == n ? "" : "," + ws(s)) + anyValue(s, depth + 1) + ws(s);
        return r + "]";
    }
    default: {
        std::string r = "{" + ws(s);
        for (auto n = s.below(4), i = n; i > 0; --i) r += (i == n ? "" : "," + ws(s)) + quoteAny(s, s.bytesStr(4)) + ws(s) + ":" + ws(s) + anyValue(s, depth + 1) + ws(s);
        return r + "}";
    }
    }
}
template<typename T>
static std::string render(pbt::Src &s, const T &v, bool extra) {
    if constexpr (is_smart_pointer<T>) return render(s, *v, extra);
    else if constexpr (is_annotated<T>) return render(s, ser::av(v), extra);
    else if constexpr (std::is_same_v<T, bool>) return v ? "true" : "false";
    else if constexpr (std::is_floating_point_v<T>) {
        std::array<char, 400> b;
        std::to_chars_result  r;
        const bool            moderate = v == 0 || (std::abs(v) < 1e15 && std::abs(v) > 1e-5);
        switch (s.below(3)) {
        case 0: r = std::to_chars(b.data(), b.data() + b.size(), v, std::chars_format::scientific); break;
        case 1: if (moderate) { r = std::to_chars(b.data(), b.data() + b.size(), v, std::chars_format::fixed); break; } [[fallthrough]];
        default: r = std::to_chars(b.data(), b.data() + b.size(), v);
        }
        std::string t(b.data(), r.ptr);
        if (s.chance(1, 4)) for (auto &c : t) if (c == 'e') c = 'E';
        if (s.chance(1, 4) && t.find('.') != t.npos && t.find_first_of("eE") == t.npos) t += "0";
        return t;
    } else if constexpr (std::is_arithmetic_v<T>) return std::to_string(static_cast<long long>(v));
    else if constexpr (std::is_same_v<T, std::string>) return quoteAny(s, v);
    else if constexpr (MultiArrayType<T>) {
        const std::vector<int32_t> dims(v.dimensions().begin(), v.dimensions().end());
        return "{" + ws(s) + "\"dims\"" + ws(s) + ":" + ws(s) + render(s, dims, extra) + ws(s) + "," + ws(s) + "\"values\"" + ws(s) + ":" + ws(s) + render(s, v.elements(), extra) + ws(s) + "}";
    } else if constexpr (requires { typename T::mapped_type; }) {
        std::string r = "{" + ws(s);
        bool        first = true;
        for (const auto &[k, x] : v) {
            r += (first ? "" : "," + ws(s)) + jref::quote(k) + ws(s) + ":" + ws(s) + render(s, x, extra) + ws(s);
            first = false;
        }
        return r + "}";
    } else if constexpr (is_array<T> || is_vector<T> || requires { typename T::key_type; }) {
        std::string r = "[" + ws(s);
        bool        first = true;
        for (const auto &e : v) {
            r += (first ? "" : "," + ws(s)) + render(s, static_cast<typename T::value_type>(e), extra) + ws(s);
            first = false;
        }
        return r + "]";
    } else {
        std::vector<std::string> fields;
        for_each(refl::reflect<T>().members, [&](auto member, auto) {
            const auto &m = member(v);
            if constexpr (is_smart_pointer<std::remove_cvref_t<decltype(m)>>) {
                if (!m) return;
            }
            fields.push_back("\"" + std::string(member.name.c_str()) + "\"" + ws(s) + ":" + ws(s) + render(s, m, extra));
        });
        if (extra)
            for (auto n = s.below(3); n > 0; --n) fields.push_back("\"unknown" + s.str(3, "abc 1") + "\"" + ws(s) + ":" + ws(s) + anyValue(s, 0));
        for (std::size_t i = fields.size(); i > 1; --i)
            if (s.coin()) std::swap(fields[i - 1], fields[s.below(i)]);
        std::string r = "{" + ws(s);
        for (std::size_t i = 0; i < fields.size(); ++i) r += (i ? "," + ws(s) : "") + fields[i] + ws(s);
        return r + "}";
    }
}
template<typename T>
static void foreign(pbt::Src &s) {
    Opt p     = o;
    p.nonFinite = false;
    T v{};
    gen(s, v, p);
    T got{};
    if (s.coin()) gen(s, got, p);
    T expected = copy(got);
    overlay(expected, v);
    const bool        extra = s.coin();
    const std::string t     = ws(s) + render(s, v, extra) + ws(s);
    s.note(pbt::show(t));
    IoBuffer b;
    b.put<IoBuffer::MetaInfo::WITHOUT>(std::string_view(t));
    b.shrink_to_fit();
    try {
        if (s.coin()) std::ignore = opencmw::deserialise<Json, ProtocolCheck::IGNORE>(b, got);
        else std::ignore = opencmw::deserialise<Json, ProtocolCheck::LENIENT>(b, got);
    } catch (...) {
        throw pbt::Fail{ "reading valid JSON throws: " + describeException() + " -- " + pbt::show(t) };
    }
    s.check(eq(got, expected), [&] { return "got " + show(got) + " expected " + show(expected) + " from " + pbt::show(t); });
    s.label(extra ? "with unknown fields" : "exact fields");
    s.nontrivial(nontrivialValue(v));
}
#if PART == 5
PROPERTY(foreign_json, 30000, 400000, "valid JSON text of a random object from an independent renderer (any whitespace, member order, number and escape spelling, unknown members with arbitrary nested values) is read as that object; non-trivial = object differs from the default") {
    switch (s.below(6)) {
    case 0: return foreign<Prim>(s);
    case 1: return foreign<Vecs>(s);
    case 2: return foreign<StrMaps>(s);
    case 3: return foreign<Sets>(s);
    case 4: return foreign<Multi>(s);
    default: return foreign<Ptrs>(s);
    }
}
#else
PROPERTY(foreign_json2, 30000, 400000, "valid JSON text of a random object from an independent renderer (any whitespace, member order, number and escape spelling, unknown members with arbitrary nested values) is read as that object; non-trivial = object differs from the default") {
    switch (s.below(5)) {
    case 0: return foreign<VecMap>(s);
    case 1: return foreign<Tree>(s);
    case 2: return foreign<Objs>(s);
    case 3: return foreign<ObjMap>(s);
    default: return foreign<Deep>(s);
    }
}
PROPERTY(skip_value, 40000, 500000, "skipValue on an arbitrary valid value followed by other text stops right behind the value (and white space); non-trivial = nested or string value") {
    const std::string v = anyValue(s, 0), tail = s.oneOf<const char *>({ "", ",", "}", "]", ", \"x\": 1}", " \n}" });
    IoBuffer          b;
    b.put<IoBuffer::MetaInfo::WITHOUT>(std::string_view(v + tail));
    s.note(pbt::show(v + tail));
    try {
        opencmw::json::skipValue(b);
    } catch (...) {
        throw pbt::Fail{ "skipping a valid value throws: " + describeException() };
    }
    opencmw::json::consumeWhitespace(b);
    std::size_t expected = v.size();
    while (expected < b.size() && (tail[expected - v.size()] == ' ' || tail[expected - v.size()] == '\n')) ++expected;
    s.check(b.position() == expected, [&] { return "stopped at " + std::to_string(b.position()) + " instead of " + std::to_string(expected); });
    s.nontrivial(v[0] == '{' || v[0] == '[' || v[0] == '"');
}
#endif
#endif
