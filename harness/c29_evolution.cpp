// C29: sender and receiver with different versions of a struct: common fields arrive, all others keep their value, differences are reported by checking mode
#include "ser_roundtrip.hpp"
#include <IoSerialiserYaS.hpp>
#include <IoSerialiserCmwLight.hpp>
#include <IoSerialiserJson.hpp>
#include <IoSerialiserYAML.hpp>
using namespace ser;
#if PART == 0
using P = YaS;
#define NAME "YaS"
#elif PART == 1
using P = CmwLight;
#define NAME "CmwLight"
#elif PART == 2
using P = Json;
#define NAME "JSON"
#else
using P = YAML;
#define NAME "YAML"
#endif
constexpr bool rootName = PART == 0 || PART == 3; // the format carries the name of the root type
constexpr bool typed    = PART < 2;               // ... and the types of the fields
namespace ser {
struct Arr2 { MultiArray<float, 2> q{ std::array<std::uint32_t, 2>{} }; };
struct N1 { int32_t x{}; std::string y; std::vector<int32_t> w; };
struct N2 { std::vector<int32_t> w; int32_t x{}; };
struct N3 { double k{}; std::string y; Leaf l; int32_t x{}; std::vector<int32_t> w; std::vector<std::string> t; };
#if PART == 3
#define Q std::vector<float> q
#else
#define Q MultiArray<float, 2> q{ std::array<std::uint32_t, 2>{} }
#endif
struct V1 {
    int32_t                        a{};
    std::string                    b;
    std::vector<double>            c;
    N1                             n;
    std::map<std::string, int32_t> m;
    Q;
    double                         d{};
};
struct Less { double d{}; N2 n; int32_t a{}; };
struct More {
    std::string                        before;
    N3                                 n;
    std::unique_ptr<N1>                p;
    std::map<std::string, std::string> ms;
    int32_t                            a{};
    std::string                        b;
    bool                               flag = false;
    Mid                                mid;
    std::map<std::string, int32_t>     m;
    Q;
    std::vector<double>                c;
    Leaf                               d2;
    double                             d{};
    std::vector<std::string>           last;
};
struct Deeper { N1 leaf; int32_t a{}; struct Mid mid; Tree n; }; // same field names on several levels, n with entirely different content
struct Mist { // other types
#if PART < 2
    std::string          a;
    int64_t              b{};
    std::vector<float>   c;
    double               n{};
    std::vector<int32_t> m;
    std::string          q;
    N1                   d;
#elif PART == 2
    int32_t              a{};
    N1                   b;
    N1                   c;
    N1                   q2;
    N1                   d;
#else
    int32_t              a{};
    N1                   b;
    N1                   d;
#endif
    int32_t              after{};
};
} // namespace ser
ENABLE_REFLECTION_FOR(ser::N1, x, y, w)
ENABLE_REFLECTION_FOR(ser::N2, w, x)
ENABLE_REFLECTION_FOR(ser::N3, k, y, l, x, w, t)
ENABLE_REFLECTION_FOR(ser::V1, a, b, c, n, m, q, d)
ENABLE_REFLECTION_FOR(ser::Less, d, n, a)
ENABLE_REFLECTION_FOR(ser::More, before, n, p, ms, a, b, flag, mid, m, q, c, d2, d, last)
ENABLE_REFLECTION_FOR(ser::Deeper, leaf, a, mid, n)
#if PART < 2
ENABLE_REFLECTION_FOR(ser::Mist, a, b, c, n, m, q, d, after)
#elif PART == 2
ENABLE_REFLECTION_FOR(ser::Mist, a, b, c, q2, d, after)
#else
ENABLE_REFLECTION_FOR(ser::Mist, a, b, d, after)
#endif

static Opt opt() {
    Opt o{};
    o.maxStr    = 12;
    o.nonFinite = PART != 2; // not representable in JSON
    if (PART >= 2) {
        o.anyByte     = false;
        o.anyChar     = false;
        o.alphabet    = PART == 2 ? "abcXY 0{}[],:\"\\\n" : "abcXY 0{}[],:-";
        o.keyAlphabet = "abcXYZ019_";
        o.arrAlphabet = "abcXYZ019_";
        o.emptyStr    = false;
    }
    return o;
}
static const Opt o = opt();

template<typename T> using Plain = std::remove_cvref_t<decltype(getAnnotatedMember(unwrapPointer(std::declval<T &>())))>;
struct Expect {
    std::vector<std::string> unknown;   // received fields the receiver does not have
    std::size_t              mistyped = 0;
    std::map<std::string, std::vector<bool>> set;
};
// the receiver's content after reading `sent`
template<typename R, typename S>
static void merge(R &recv, const S &sent, const std::string &parent, Expect &e) {
    auto &flags = e.set[parent];
    flags.assign(refl::reflect<R>().members.size, false);
    std::vector<bool> mine(refl::reflect<R>().members.size, false);
    for_each(refl::reflect<S>().members, [&](auto sm, auto) {
        const auto &sv = sm(sent);
        if constexpr (is_smart_pointer<std::remove_cvref_t<decltype(sv)>>) {
            if (!sv) return; // not sent
        }
        bool        found = false;
        std::size_t index = 0;
        for_each(refl::reflect<R>().members, [&](auto rm, auto) {
            const auto i = index++;
            if (std::string_view(rm.name.c_str()) != std::string_view(sm.name.c_str())) return;
            found = true;
            using RT = Plain<std::remove_cvref_t<decltype(rm(recv))>>;
            using ST = Plain<std::remove_cvref_t<decltype(sv)>>;
            if constexpr (isReflectableClass<RT>() && isReflectableClass<ST>()) {
                merge(unwrapPointerCreateIfAbsent(rm(recv)), unwrapPointer(sv), rm.name.c_str(), e);
                mine[i] = true;
            } else if constexpr (std::is_same_v<RT, ST>) {
                unwrapPointerCreateIfAbsent(rm(recv)) = copy(unwrapPointer(sv));
                mine[i] = true;
            } else ++e.mistyped;
        });
        if (!found) e.unknown.push_back(parent + "::" + sm.name.c_str());
    });
    e.set[parent] = mine; // N.B. nested structs of the same name overwrite each other; the outer one is completed last
}
template<typename R, typename S, ProtocolCheck check>
static void evolve(pbt::Src &s) {
    S sent{};
    gen(s, sent, o);
    R got{};
    gen(s, got, o);
    const R before   = copy(got);
    R       expected = copy(got);
    Expect  e;
    merge(expected, sent, "root", e);
    s.note(std::string(typeName<S>) + " -> " + std::string(typeName<R>) + " " + show(sent));
    IoBuffer b;
    if (s.coin()) write<P, true>(b, sent);
    else write<P, false>(b, sent);
    const bool otherRoot = rootName && !std::is_same_v<R, S>;
    const bool reported  = otherRoot || e.mistyped || !e.unknown.empty();
    const auto dump      = [&] { return PART < 2 ? hex(b) : text(b); };
    s.nontrivial(!e.unknown.empty() || e.mistyped);
    DeserialiserInfo info;
    try {
        info = opencmw::deserialise<P, check>(b, got);
        if constexpr (check == ProtocolCheck::ALWAYS) s.check(!reported, [&] { return "strict reading does not report unknown, mistyped or foreign data: " + show(got) + " " + dump(); });
    } catch (const ProtocolException &ex) {
        s.label("rejected");
        s.check(check == ProtocolCheck::ALWAYS && reported, [&] { return std::string("throws ") + ex.what() + " " + dump(); });
        return;
    } catch (...) {
        throw pbt::Fail{ "throws something else than a ProtocolException: " + describeException() + " " + dump() };
    }
    s.label("merged");
    s.check(eq(expected, got), [&] { return "got " + show(got) + " expected " + show(expected) + " -- " + dump(); });
    if constexpr (check == ProtocolCheck::LENIENT) {
        std::vector<std::string> add;
        for (const auto &a : info.additionalFields) add.push_back(std::get<0>(a));
        std::sort(add.begin(), add.end());
        std::sort(e.unknown.begin(), e.unknown.end());
        s.check(add == e.unknown, [&] { std::string r = "additional fields reported:"; for (auto &a : add) r += " " + a; r += " expected:"; for (auto &a : e.unknown) r += " " + a; return r; });
        s.check(info.exceptions.size() == e.unknown.size() + e.mistyped + (otherRoot ? 1 : 0), [&] { return "reported errors: " + infoText(info) + " expected " + std::to_string(e.unknown.size()) + "+" + std::to_string(e.mistyped) + dump(); });
        const auto it = info.setFields.find("root");
        s.check(it != info.setFields.end() && it->second == e.set["root"], "setFields of the root object does not list exactly the received fields");
    }
}
template<typename R, typename S>
static void evolve(pbt::Src &s) {
    switch (s.below(3)) {
    case 0: return evolve<R, S, ProtocolCheck::IGNORE>(s);
    case 1: return evolve<R, S, ProtocolCheck::LENIENT>(s);
    default: return evolve<R, S, ProtocolCheck::ALWAYS>(s);
    }
}
#define DESC NAME ": random sender and receiver version of a struct (fields missing, additional, reordered, renamed, in nested structs too), receiver with other content; result = overlay of the common fields, reports by mode; non-trivial = some field is unknown or mistyped"
PROPERTY(versions, 50000, 600000, DESC) {
    switch (s.below(11)) {
    case 0: return evolve<V1, V1>(s);
    case 1: return evolve<V1, Less>(s);
    case 2: return evolve<V1, More>(s);
    case 3: return evolve<Less, V1>(s);
    case 4: return evolve<Less, More>(s);
    case 5: return evolve<More, V1>(s);
    case 6: return evolve<More, Less>(s);
    case 7: return evolve<More, More>(s);
    case 8: return evolve<Deeper, More>(s);
    case 9: return evolve<More, Deeper>(s);
    default: return evolve<Deeper, Tree>(s);
    }
}
PROPERTY(mistyped, 20000, 300000, DESC) {
    if (PART < 2) {
        switch (s.below(4)) {
        case 0: return evolve<Mist, V1>(s);
        case 1: return evolve<V1, Mist>(s);
        case 2: return evolve<Mist, More>(s);
        default: return evolve<Less, Mist>(s);
        }
    } else if (s.coin()) return evolve<Mist, V1>(s);
    else return evolve<Mist, More>(s);
}
#if PART == 1
namespace ser {
struct WithSet { std::set<int32_t> unknown; int32_t after{}; };
struct WithoutSet { int32_t after{}; };
}
ENABLE_REFLECTION_FOR(ser::WithSet, unknown, after)
ENABLE_REFLECTION_FOR(ser::WithoutSet, after)
static pbt::RegProbe unknownSet("cmwlight-unknown-set", [] {
    WithSet v{ { 1, 2, 3 }, 42 };
    IoBuffer b;
    write<CmwLight, true>(b, v);
    WithoutSet got{};
    try {
        opencmw::deserialise<CmwLight, ProtocolCheck::IGNORE>(b, got);
    } catch (...) {
        return true;
    }
    return got.after != 42;
});
#endif
#if PART == 0
// annotations: only YaS carries units and access modifiers
namespace ser {
#define ANN(NAME, UNIT, MOD) \
    struct NAME { \
        Annotated<double, UNIT, "x", MOD>                x{}; \
        Annotated<std::string, UNIT, "n", MOD>           name; \
        Annotated<std::vector<int32_t>, UNIT, "v", MOD>  v; \
        int32_t                                          after{}; \
    };
using Metre  = length<metre>;
using Second = units::isq::si::time<second>;
ANN(AMetre, Metre, RW)
ANN(ASecond, Second, RW)
ANN(ANone, NoUnit, RW)
ANN(AMetreRo, Metre, RO)
ANN(AMetreDep, Metre, RW_DEPRECATED)
ANN(AMetrePriv, Metre, RW_PRIVATE)
ANN(ASecondRoDep, Second, RO_DEPRECATED)
} // namespace ser
ENABLE_REFLECTION_FOR(ser::AMetre, x, name, v, after)
ENABLE_REFLECTION_FOR(ser::ASecond, x, name, v, after)
ENABLE_REFLECTION_FOR(ser::ANone, x, name, v, after)
ENABLE_REFLECTION_FOR(ser::AMetreRo, x, name, v, after)
ENABLE_REFLECTION_FOR(ser::AMetreDep, x, name, v, after)
ENABLE_REFLECTION_FOR(ser::AMetrePriv, x, name, v, after)
ENABLE_REFLECTION_FOR(ser::ASecondRoDep, x, name, v, after)
struct Ann { const char *unit; bool ro, warn; };
template<typename T> constexpr Ann ann = { "m", false, false };
template<> constexpr Ann ann<ASecond>      = { "s", false, false };
template<> constexpr Ann ann<ANone>        = { "", false, false };
template<> constexpr Ann ann<AMetreRo>     = { "m", true, false };
template<> constexpr Ann ann<AMetreDep>    = { "m", false, true };
template<> constexpr Ann ann<AMetrePriv>   = { "m", false, true };
template<> constexpr Ann ann<ASecondRoDep> = { "s", true, true };
template<typename R, typename S, ProtocolCheck check>
static void annotated(pbt::Src &s) {
    S sent;
    sent.x.value()    = double(s.range(1, 1000)) / 4;
    sent.name.value() = s.str(8, "abc");
    for (auto n = s.below(4); n--;) sent.v.value().push_back(s.integer<int32_t>());
    sent.after = s.range(1, 1000);
    R got;
    got.x.value()    = -1;
    got.name.value() = "before";
    got.v.value()    = { 7 };
    got.after        = -1;
    IoBuffer b;
    write<P, true>(b, sent);
    const bool sameUnit  = std::string_view(ann<R>.unit) == ann<S>.unit, otherRoot = !std::is_same_v<R, S>;
    const bool arrives   = check == ProtocolCheck::IGNORE || (sameUnit && !ann<R>.ro);
    const std::size_t errors = check == ProtocolCheck::IGNORE ? 0 : 3 * ((sameUnit ? std::size_t(ann<R>.ro) : 1) + ann<R>.warn) + (otherRoot ? 1 : 0);
    s.note(std::string(typeName<S>) + " -> " + std::string(typeName<R>) + " mode " + std::to_string(int(check)));
    s.nontrivial(!sameUnit || ann<R>.ro || ann<R>.warn);
    DeserialiserInfo info;
    try {
        info = opencmw::deserialise<P, check>(b, got);
        if constexpr (check == ProtocolCheck::ALWAYS) s.check(errors == 0, "strict reading does not report a different unit, access to a restricted field or another root type");
    } catch (const ProtocolException &ex) {
        s.check(check == ProtocolCheck::ALWAYS && errors > 0, [&] { return std::string("throws ") + ex.what(); });
        return;
    }
    s.check(got.x.value() == (arrives ? sent.x.value() : -1), "x is ", got.x.value());
    s.check(got.name.value() == (arrives ? sent.name.value() : std::string("before")), "name is ", got.name.value());
    s.check(got.v.value() == (arrives ? sent.v.value() : std::vector<int32_t>{ 7 }), "v has ", got.v.value().size(), " elements");
    s.check(got.after == sent.after, "the field after the annotated ones is ", got.after, ", expected ", sent.after);
    if constexpr (check == ProtocolCheck::LENIENT) {
        s.check(info.exceptions.size() == errors, [&] { return "reported errors: " + infoText(info) + " expected " + std::to_string(errors); });
        const auto it = info.setFields.find("root");
        s.check(it != info.setFields.end() && it->second == std::vector<bool>{ arrives, arrives, arrives, true }, "setFields does not list exactly the received fields");
    }
}
template<typename R, typename S>
static void annotated(pbt::Src &s) {
    switch (s.below(3)) {
    case 0: return annotated<R, S, ProtocolCheck::IGNORE>(s);
    case 1: return annotated<R, S, ProtocolCheck::LENIENT>(s);
    default: return annotated<R, S, ProtocolCheck::ALWAYS>(s);
    }
}
PROPERTY(annotations, 20000, 200000, "sender and receiver annotate their fields with the same, another or no unit, the receiver also with access modifiers; non-trivial = they differ or access is restricted") {
    switch (s.below(10)) {
    case 0: return annotated<AMetre, AMetre>(s);
    case 1: return annotated<AMetre, ASecond>(s);
    case 2: return annotated<ASecond, AMetre>(s);
    case 3: return annotated<ANone, AMetre>(s);
    case 4: return annotated<AMetre, ANone>(s);
    case 5: return annotated<AMetreRo, AMetre>(s);
    case 6: return annotated<AMetreDep, AMetre>(s);
    case 7: return annotated<AMetrePriv, AMetre>(s);
    case 8: return annotated<ASecondRoDep, ASecond>(s);
    default: return annotated<ASecondRoDep, AMetre>(s);
    }
}
#endif
