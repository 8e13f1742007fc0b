// shared domain types, generators, equality and printing for the serialiser checks
#pragma once
#include "pbt.hpp"
#include <opencmw.hpp>
#include <IoSerialiser.hpp>
#include <bit>
#include <cmath>
#include <memory>
#include <set>
#include <unordered_map>
#include <variant>
#include <units/isq/si/length.h>
#include <units/isq/si/time.h>
#include <units/isq/si/electric_current.h>
#include <units/isq/si/energy.h>

namespace ser {
using namespace opencmw;
using namespace units::isq::si;

template<typename T> auto &av(T &a) { return a.value(); } // content of an annotated field
struct Opt { // value classes a format can represent
    bool        anyByte   = true;  // strings of arbitrary bytes
    bool        nonFinite = true;  // inf / nan
    bool        anyChar   = true;  // char fields with any value (else printable, no space/quote)
    std::string alphabet;          // used if !anyByte
    std::size_t maxStr  = 24;
    std::size_t maxVec  = 6;
    bool        nulls   = true;    // null smart pointers
    bool        emptyStr = true, emptyContainer = true;
    std::string keyAlphabet;       // map keys (empty: like strings)
    std::string arrAlphabet;       // strings in containers (empty: like strings)
};

struct Prim {
    bool        b = false;
    int8_t      i8{};
    int16_t     i16{};
    int32_t     i32{};
    int64_t     i64{};
    float       f{};
    double      d{};
    char        c{};
    std::string s;
};
struct Vecs {
    std::vector<bool>        vb;
    std::vector<int8_t>      v8;
    std::vector<int16_t>     v16;
    std::vector<int32_t>     v32;
    std::vector<int64_t>     v64;
    std::vector<float>       vf;
    std::vector<double>      vd;
    std::vector<std::string> vs;
    std::array<int32_t, 3>   a3{};
    std::array<double, 2>    ad{};
};
struct Chars { std::vector<char> vc; char c{}; };
struct StrArr { std::array<std::string, 2> as; std::array<bool, 4> ab{}; };
struct Sets {
    std::set<int32_t>     s32;
    std::set<int64_t>     s64;
    std::set<std::string> ss;
    std::set<double>      sd;
    int32_t               after{};
};
struct Maps { // YaS
    std::map<std::string, int32_t>               mi;
    std::map<std::string, std::string>           ms;
    std::map<int32_t, double>                    id;
    std::unordered_map<std::string, double>      um;
    std::map<std::string, std::vector<int32_t>>  mv;
    int32_t                                      after{};
};
struct StrMaps { // JSON, CmwLight, YAML: string keys
    std::map<std::string, int32_t>              mi;
    std::map<std::string, std::string>          ms;
    std::map<std::string, double>               md;
    int32_t                                     after{};
};
struct VecMap { std::map<std::string, std::vector<int32_t>> mv; int32_t after{}; };
struct Multi {
    MultiArray<double, 1>  m1{ std::array<std::uint32_t, 1>{} };
    MultiArray<float, 2>   m2{ std::array<std::uint32_t, 2>{} };
    MultiArray<int32_t, 3> m3{ std::array<std::uint32_t, 3>{} };
    int32_t                after{};
};
struct Leaf {
    int32_t             x{};
    std::string         n;
    std::vector<double> v;
};
struct Mid {
    double  y{};
    Leaf    leaf;
    int16_t z{};
};
struct Tree {
    int32_t                      first{};
    Leaf                         leaf;
    Mid                          mid;
    std::string                  between;
    Leaf                         leaf2;
    int64_t                      last{};
};
struct Ptrs {
    int32_t                      first{};
    std::unique_ptr<int32_t>     pi;
    std::shared_ptr<std::string> ps;
    std::unique_ptr<Leaf>        pl;
    std::shared_ptr<Mid>         pm;
    double                       last{};
};
struct Annot {
    Annotated<double, length<metre>, "a length">              len;
    Annotated<int32_t, units::isq::si::time<second>, "a time">                t;
    Annotated<std::string, NoUnit, "a name">                  name;
    Annotated<std::vector<float>, electric_current<ampere>, ""> cur;
    int32_t                                                   after{};
};
struct Everything {
    Prim                     prim;
    Vecs                     vecs;
    Tree                     tree;
    Annotated<double, length<metre>, "a length"> len;
    std::unique_ptr<Prim>    p;
    std::string              end;
};
struct Objs { int32_t before{}; std::vector<Leaf> v; std::vector<Mid> w; int32_t after{}; };
struct ObjMap { std::map<std::string, Leaf> m; int32_t after{}; };
struct Deep { std::vector<std::vector<int32_t>> vv; std::map<std::string, std::map<std::string, double>> mm; std::map<std::string, std::vector<std::string>> mv; int32_t after{}; };
using Var = std::variant<int32_t, double, std::string, std::vector<float>>;
struct VarMap { std::map<std::string, Var> mv; int32_t after{}; };
struct Empty1 { std::string s; };
} // namespace ser
ENABLE_REFLECTION_FOR(ser::Prim, b, i8, i16, i32, i64, f, d, c, s)
ENABLE_REFLECTION_FOR(ser::Vecs, vb, v8, v16, v32, v64, vf, vd, vs, a3, ad)
ENABLE_REFLECTION_FOR(ser::Chars, vc, c)
ENABLE_REFLECTION_FOR(ser::StrArr, as, ab)
ENABLE_REFLECTION_FOR(ser::Sets, s32, s64, ss, sd, after)
ENABLE_REFLECTION_FOR(ser::Maps, mi, ms, id, um, mv, after)
ENABLE_REFLECTION_FOR(ser::StrMaps, mi, ms, md, after)
ENABLE_REFLECTION_FOR(ser::VecMap, mv, after)
ENABLE_REFLECTION_FOR(ser::Multi, m1, m2, m3, after)
ENABLE_REFLECTION_FOR(ser::Leaf, x, n, v)
ENABLE_REFLECTION_FOR(ser::Mid, y, leaf, z)
ENABLE_REFLECTION_FOR(ser::Tree, first, leaf, mid, between, leaf2, last)
ENABLE_REFLECTION_FOR(ser::Ptrs, first, pi, ps, pl, pm, last)
ENABLE_REFLECTION_FOR(ser::Annot, len, t, name, cur, after)
ENABLE_REFLECTION_FOR(ser::Everything, prim, vecs, tree, len, p, end)
ENABLE_REFLECTION_FOR(ser::Objs, before, v, w, after)
ENABLE_REFLECTION_FOR(ser::ObjMap, m, after)
ENABLE_REFLECTION_FOR(ser::Deep, vv, mm, mv, after)
ENABLE_REFLECTION_FOR(ser::VarMap, mv, after)
ENABLE_REFLECTION_FOR(ser::Empty1, s)

namespace ser {
template<typename T> inline constexpr bool isVariant = false;
template<typename... Ts> inline constexpr bool isVariant<std::variant<Ts...>> = true;
inline std::string genStr(pbt::Src &s, const Opt &o, const std::string &alphabet) {
    std::string r = (o.anyByte && alphabet.empty()) ? (s.chance(1, 15) ? s.bytesStr(200) : s.bytesStr(o.maxStr)) : s.str(o.maxStr, alphabet.empty() ? o.alphabet : alphabet);
    if (r.empty() && !o.emptyStr) r = (alphabet.empty() ? (o.alphabet.empty() ? std::string("x") : o.alphabet) : alphabet).substr(0, 1);
    return r;
}
inline std::size_t genN(pbt::Src &s, const Opt &o) {
    const auto n = s.chance(1, 25) ? s.below(8 * o.maxVec + 1) : s.below(o.maxVec + 1);
    return n == 0 && !o.emptyContainer ? 1 : n;
}
template<typename T>
void gen(pbt::Src &s, T &v, const Opt &o) {
    if constexpr (is_annotated<T>) gen(s, ser::av(v), o);
    else if constexpr (is_smart_pointer<T>) {
        if (o.nulls && s.chance(1, 3)) v.reset();
        else {
            v = T(new typename T::element_type{});
            gen(s, *v, o);
        }
    } else if constexpr (isVariant<T>) {
        const auto k = s.below(std::variant_size_v<T>);
        [&]<std::size_t... I>(std::index_sequence<I...>) { ((k == I ? (v.template emplace<I>(), gen(s, std::get<I>(v), o)) : void()), ...); }(std::make_index_sequence<std::variant_size_v<T>>{});
    } else if constexpr (std::is_same_v<T, bool>) v = s.coin();
    else if constexpr (std::is_same_v<T, char>) v = o.anyChar ? static_cast<char>(s.below(256)) : static_cast<char>(s.oneOf<char>({ 'a', 'Z', '0', '_', 'x', '7', '.', '!' }));
    else if constexpr (std::is_integral_v<T>) v = s.integer<T>();
    else if constexpr (std::is_floating_point_v<T>) v = s.floating<T>(!o.nonFinite);
    else if constexpr (std::is_same_v<T, std::string>) v = genStr(s, o, {});
    else if constexpr (MultiArrayType<T>) {
        std::array<typename T::size_t_, T::n_dims_> dims{};
        std::size_t n = 1;
        for (std::size_t i = 0; i < T::n_dims_; ++i) {
            dims[i] = static_cast<typename T::size_t_>((o.emptyContainer && s.chance(1, 12)) ? 0 : 1 + s.below(4));
            n *= dims[i];
        }
        std::vector<typename T::value_type> data(n);
        for (auto &e : data) gen(s, e, o);
        v = T(data, dims);
    } else if constexpr (is_array<T>) {
        for (std::size_t i = 0; i < v.size(); ++i) {
            if constexpr (std::is_same_v<typename T::value_type, std::string>) v[i] = genStr(s, o, o.arrAlphabet);
            else gen(s, v[i], o);
        }
    } else if constexpr (requires { typename T::mapped_type; }) {
        v.clear();
        for (auto n = genN(s, o); n > 0; --n) {
            typename T::key_type k{};
            if constexpr (std::is_same_v<typename T::key_type, std::string>) k = genStr(s, o, o.keyAlphabet);
            else gen(s, k, o);
            if constexpr (std::is_same_v<typename T::mapped_type, std::string>) v[k] = genStr(s, o, o.arrAlphabet);
            else gen(s, v[k], o);
        }
    } else if constexpr (requires { typename T::key_type; }) { // set
        v.clear();
        for (auto n = genN(s, o); n > 0; --n) {
            typename T::value_type e{};
            if constexpr (std::is_same_v<typename T::value_type, std::string>) e = genStr(s, o, o.arrAlphabet);
            else gen(s, e, o);
            if constexpr (std::is_floating_point_v<typename T::value_type>) {
                if (std::isnan(e)) continue;
            }
            v.insert(e);
        }
    } else if constexpr (is_vector<T>) {
        v.clear();
        for (auto n = genN(s, o); n > 0; --n) {
            typename T::value_type e{};
            if constexpr (std::is_same_v<typename T::value_type, std::string>) e = genStr(s, o, o.arrAlphabet);
            else gen(s, e, o);
            v.push_back(e);
        }
    } else {
        static_assert(isReflectableClass<T>());
        for_each(refl::reflect<T>().members, [&](auto member, auto) { gen(s, member(v), o); });
    }
}
template<typename T>
bool eq(const T &a, const T &b) {
    if constexpr (is_annotated<T>) return eq(ser::av(a), ser::av(b));
    else if constexpr (is_smart_pointer<T>) return bool(a) == bool(b) && (!a || eq(*a, *b));
    else if constexpr (isVariant<T>) return a.index() == b.index() && std::visit([&](const auto &x) { return eq(x, std::get<std::remove_cvref_t<decltype(x)>>(b)); }, a);
    else if constexpr (std::is_floating_point_v<T>) {
        if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
        return a == b && std::signbit(a) == std::signbit(b);
    } else if constexpr (MultiArrayType<T>) {
        if (a.dimensions() != b.dimensions() || a.element_count() != b.element_count()) return false;
        for (std::size_t i = 0; i < T::n_dims_; ++i)
            if (a.stride(i) != b.stride(i) || a.offset(i) != b.offset(i)) return false;
        return eq(a.elements(), b.elements());
    } else if constexpr (requires { typename T::mapped_type; }) {
        if (a.size() != b.size()) return false;
        for (const auto &[k, v] : a) {
            const auto it = b.find(k);
            if (it == b.end() || !eq(v, it->second)) return false;
        }
        return true;
    } else if constexpr (std::is_same_v<T, std::vector<bool>>) return a == b;
    else if constexpr (is_array<T> || is_vector<T> || requires { typename T::key_type; }) {
        if (a.size() != b.size()) return false;
        auto i = a.begin();
        auto j = b.begin();
        for (; i != a.end(); ++i, ++j)
            if (!eq(*i, *j)) return false;
        return true;
    } else if constexpr (isReflectableClass<T>()) {
        bool r = true;
        for_each(refl::reflect<T>().members, [&](auto member, auto) { r = r && eq(member(a), member(b)); });
        return r;
    } else return a == b;
}
template<typename T>
std::string show(const T &v) {
    if constexpr (is_annotated<T>) return show(ser::av(v));
    else if constexpr (is_smart_pointer<T>) return v ? "&" + show(*v) : "null";
    else if constexpr (std::is_same_v<T, char> || std::is_same_v<T, int8_t>) return std::to_string(int(v));
    else if constexpr (isVariant<T>) return std::visit([](const auto &x) { return show(x); }, v);
    else if constexpr (std::is_same_v<T, bool>) return v ? "true" : "false";
    else if constexpr (std::is_arithmetic_v<T>) return pbt::show(v);
    else if constexpr (std::is_same_v<T, std::string>) return pbt::show(v);
    else if constexpr (MultiArrayType<T>) return "dims" + show(v.dimensions()) + show(v.elements());
    else if constexpr (requires { typename T::mapped_type; }) {
        std::string r = "{";
        for (const auto &[k, x] : v) r += show(k) + ":" + show(x) + ",";
        return r + "}";
    } else if constexpr (is_array<T> || is_vector<T> || requires { typename T::key_type; }) {
        std::string r = "[";
        for (const auto &e : v) r += show(static_cast<typename T::value_type>(e)) + ",";
        return r + "]";
    } else if constexpr (isReflectableClass<T>()) {
        std::string r = "{";
        for_each(refl::reflect<T>().members, [&](auto member, auto) { r += std::string(member.name.c_str()) + "=" + show(member(v)) + " "; });
        return r + "}";
    } else return "?";
}
template<typename T>
T copy(const T &v) { // deep copy
    if constexpr (std::is_copy_constructible_v<T> && !is_smart_pointer<T>) {
        if constexpr (isReflectableClass<T>()) {
            T r{};
            for_each(refl::reflect<T>().members, [&](auto member, auto) { member(r) = copy(member(v)); });
            return r;
        } else return v;
    } else if constexpr (is_smart_pointer<T>) return v ? T(new typename T::element_type(copy(*v))) : T{};
    else {
        T r{};
        for_each(refl::reflect<T>().members, [&](auto member, auto) { member(r) = copy(member(v)); });
        return r;
    }
}
// expected receiver content: fields of `sent` where present, previous content of the receiver where the sender's pointer is null
template<typename T>
void overlay(T &receiver, const T &sent) {
    if constexpr (is_annotated<T>) overlay(ser::av(receiver), ser::av(sent));
    else if constexpr (is_smart_pointer<T>) {
        if (!sent) return;
        if (!receiver) receiver = T(new typename T::element_type{});
        overlay(*receiver, *sent);
    } else if constexpr (isReflectableClass<T>()) {
        for_each(refl::reflect<T>().members, [&](auto member, auto) { overlay(member(receiver), member(sent)); });
    } else receiver = copy(sent);
}
template<typename T>
bool nontrivialValue(const T &v) { // something beyond all-default values
    return !eq(v, T{});
}
inline std::string hex(const IoBuffer &b) {
    std::string r;
    for (std::size_t i = 0; i < b.size() && i < 400; ++i) r += std::format("{:02x}", b.data()[i]);
    return r;
}
inline std::string text(const IoBuffer &b) { return pbt::show(std::string(reinterpret_cast<const char *>(b.data()), b.size()), 600); }
inline std::string infoText(const DeserialiserInfo &i) {
    std::string r;
    for (auto &e : i.exceptions) r += std::string(e.what()) + "; ";
    return r;
}
inline std::string describeException() { return opencmw::what(); }
} // namespace ser
