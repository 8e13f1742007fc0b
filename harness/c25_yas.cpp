// C25: YaS binary serialiser: round trip of every supported object and byte-exact wire format.
#include "ser_roundtrip.hpp"
#include <IoSerialiserYaS.hpp>
using namespace ser;

#define RT "random object serialised (with/without meta data, into an empty or used buffer) and read back by each checking mode into a clean or used receiver; non-trivial = object differs from the default and the receiver held other data"
static const Opt    o{};
static const RtOpt  ro{};
static const RtOpt  roA{ .metaMandatory = true };
#if PART == 0
PROPERTY(prim, 60000, 900000, RT) { roundtrip<YaS, Prim>(s, o, ro); }
PROPERTY(vecs, 40000, 600000, RT) { roundtrip<YaS, Vecs>(s, o, ro); }
PROPERTY(chars, 20000, 200000, RT) { roundtrip<YaS, Chars>(s, o, ro); }
#endif
#if PART == 1
PROPERTY(strarr, 20000, 200000, RT) { roundtrip<YaS, StrArr>(s, o, ro); }
PROPERTY(sets, 30000, 400000, RT) { roundtrip<YaS, Sets>(s, o, ro); }
PROPERTY(maps, 30000, 400000, RT) { roundtrip<YaS, Maps>(s, o, ro); }
#endif
#if PART == 2
PROPERTY(multi, 30000, 400000, RT) { roundtrip<YaS, Multi>(s, o, ro); }
PROPERTY(tree, 30000, 400000, RT) { roundtrip<YaS, Tree>(s, o, ro); }
PROPERTY(ptrs, 30000, 400000, RT) { roundtrip<YaS, Ptrs>(s, o, ro); }
#endif
#if PART == 3
PROPERTY(annot, 30000, 400000, RT) { roundtrip<YaS, Annot>(s, o, roA); }
PROPERTY(everything, 20000, 300000, RT) { roundtrip<YaS, Everything>(s, o, roA); }

#endif
#if PART == 4
// ---- independent encoder of the wire format ----
using Bytes = std::vector<uint8_t>;
template<typename T>
static void raw(Bytes &b, T v) {
    const auto *p = reinterpret_cast<const uint8_t *>(&v);
    b.insert(b.end(), p, p + sizeof(T));
}
static void str(Bytes &b, std::string_view v) {
    raw(b, int32_t(v.size() + 1));
    b.insert(b.end(), v.begin(), v.end());
    b.push_back(0);
}
template<typename T>
static constexpr uint8_t tid() {
    if constexpr (std::is_same_v<T, bool>) return 1;
    else if constexpr (std::is_same_v<T, int8_t>) return 2;
    else if constexpr (std::is_same_v<T, int16_t>) return 3;
    else if constexpr (std::is_same_v<T, int32_t>) return 4;
    else if constexpr (std::is_same_v<T, int64_t>) return 5;
    else if constexpr (std::is_same_v<T, float>) return 6;
    else if constexpr (std::is_same_v<T, double>) return 7;
    else if constexpr (std::is_same_v<T, char>) return 8;
    else if constexpr (std::is_same_v<T, std::string>) return 9;
    else if constexpr (requires { typename T::mapped_type; }) return 203;
    else if constexpr (is_array<T>) return 0xFF; // std::array has no type of its own
    else return 100 + tid<typename T::value_type>();
}
template<typename T>
static void elem(Bytes &b, const T &v) {
    if constexpr (std::is_same_v<T, std::string>) str(b, v);
    else if constexpr (std::is_same_v<T, bool>) b.push_back(v ? 1 : 0);
    else raw(b, v);
}
template<typename T>
static void value(Bytes &b, const T &v) {
    if constexpr (MultiArrayType<T>) {
        raw(b, int32_t(T::n_dims_));
        for (std::size_t i = 0; i < T::n_dims_; ++i) raw(b, int32_t(v.dimensions()[i]));
        raw(b, int32_t(v.elements().size()));
        for (const auto &e : v.elements()) elem<typename T::value_type>(b, e);
    } else if constexpr (std::is_same_v<T, std::string>) str(b, v);
    else if constexpr (requires { typename T::mapped_type; }) {
        using K = typename T::key_type;
        using V = typename T::mapped_type;
        raw(b, int32_t(v.size()));
        b.push_back(tid<K>());
        raw(b, int32_t(v.size()));
        for (const auto &e : v) elem<K>(b, e.first);
        if constexpr (std::is_arithmetic_v<V> || std::is_same_v<V, std::string>) {
            b.push_back(tid<V>());
            raw(b, int32_t(v.size()));
            for (const auto &e : v) elem<V>(b, e.second);
        } else {
            b.push_back(0xFD);
            str(b, std::string_view(opencmw::typeName<V>));
            str(b, "");
            raw(b, int32_t(v.size()));
            for (const auto &e : v) value(b, e.second);
        }
    } else if constexpr (std::is_arithmetic_v<T>) elem(b, v);
    else { // arrays, vectors, sets: dimensions, size, elements
        raw(b, int32_t(1));
        raw(b, int32_t(v.size()));
        raw(b, int32_t(v.size()));
        for (const auto &e : v) elem<typename T::value_type>(b, e);
    }
}
static void header(Bytes &b, uint8_t type, std::string_view name, const Bytes &metaInfo, std::size_t dataSize) {
    b.push_back(type);
    raw(b, int32_t(1 + 4 + 4 + 4 + name.size() + 1 + metaInfo.size()));
    raw(b, int32_t(dataSize));
    str(b, name);
    b.insert(b.end(), metaInfo.begin(), metaInfo.end());
}
template<typename T>
static void object(Bytes &b, std::string_view name, const T &v, bool meta);
template<typename M>
static void field(Bytes &b, const char *name, const M &m, bool meta) {
    if constexpr (is_smart_pointer<M>) {
        if (m) field(b, name, *m, meta);
    } else if constexpr (is_annotated<M>) {
        using V = std::remove_cvref_t<decltype(ser::av(m))>;
        if constexpr (isReflectableClass<V>()) object(b, name, ser::av(m), meta);
        else {
            Bytes mi;
            if (meta) {
                str(mi, m.getUnit());
                str(mi, m.getQuantity());
                str(mi, m.getDescription());
                mi.push_back(uint8_t(m.getModifier()));
            }
            Bytes data;
            value(data, ser::av(m));
            header(b, tid<V>(), name, mi, data.size());
            b.insert(b.end(), data.begin(), data.end());
        }
    } else if constexpr (isReflectableClass<M>()) object(b, name, m, meta);
    else {
        Bytes data;
        value(data, m);
        header(b, tid<M>(), name, {}, data.size());
        b.insert(b.end(), data.begin(), data.end());
    }
}
template<typename T>
static void object(Bytes &b, std::string_view name, const T &v, bool meta) {
    Bytes data;
    for_each(refl::reflect<T>().members, [&](auto member, auto) { field(data, member.name.c_str(), member(v), meta); });
    header(data, 0xFE, name, {}, 0);
    header(b, 0, name, {}, data.size());
    b.insert(b.end(), data.begin(), data.end());
}
template<typename T>
static void exact(pbt::Src &s, std::string_view typeName) {
    T v{};
    gen(s, v, o);
    s.note(show(v));
    const bool meta = s.coin();
    Bytes      ref;
    raw(ref, int32_t(-1));
    str(ref, "YaS");
    ref.insert(ref.end(), { 1, 0, 0 });
    object(ref, typeName, v, meta);
    IoBuffer b;
    if (meta) write<YaS, true>(b, v);
    else write<YaS, false>(b, v);
    IoBuffer r;
    for (auto x : ref) r.put<IoBuffer::MetaInfo::WITHOUT>(x);
    s.check(b.size() == ref.size() && std::equal(ref.begin(), ref.end(), b.data()), [&] { return "wire format differs:\n got " + hex(b) + "\n ref " + hex(r); });
    s.nontrivial(nontrivialValue(v));
}
#define EX "bytes of a random object against an independent encoder of the wire format (type ids, offsets, sizes, names, meta data); non-trivial = object differs from the default"
PROPERTY(wire_format, 60000, 800000, EX) {
    switch (s.below(9)) {
    case 0: return exact<Prim>(s, "ser::Prim");
    case 1: return exact<Vecs>(s, "ser::Vecs");
    case 2: return exact<Chars>(s, "ser::Chars");
    case 3: return exact<Sets>(s, "ser::Sets");
    case 4: return exact<Maps>(s, "ser::Maps");
    case 5: return exact<Multi>(s, "ser::Multi");
    case 6: return exact<Ptrs>(s, "ser::Ptrs");
    case 7: return exact<Annot>(s, "ser::Annot");
    default: return exact<Everything>(s, "ser::Everything");
    }
}
#endif
