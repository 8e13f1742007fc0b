// C26: CmwLight binary serialiser: round trip of every supported object and byte-exact wire format.
#include "ser_roundtrip.hpp"
#include <IoSerialiserCmwLight.hpp>
using namespace ser;

#define RT "random object serialised (into an empty or used buffer) and read back by each checking mode into a clean or used receiver; non-trivial = object differs from the default and the receiver held other data"
static const Opt   o{};
static const RtOpt ro{ .trailing = true };
#if PART == 0
PROPERTY(prim, 60000, 900000, RT) { roundtrip<CmwLight, Prim>(s, o, ro); }
PROPERTY(vecs, 40000, 600000, RT) { roundtrip<CmwLight, Vecs>(s, o, ro); }
PROPERTY(chars, 20000, 200000, RT) { roundtrip<CmwLight, Chars>(s, o, ro); }
#endif
#if PART == 1
PROPERTY(strarr, 20000, 200000, RT) { roundtrip<CmwLight, StrArr>(s, o, ro); }
PROPERTY(sets, 30000, 400000, RT) { roundtrip<CmwLight, Sets>(s, o, ro); }
PROPERTY(maps, 30000, 400000, RT) { roundtrip<CmwLight, StrMaps>(s, o, ro); }
PROPERTY(vecmap, 30000, 400000, RT) { roundtrip<CmwLight, VecMap>(s, o, ro); }
PROPERTY(varmap, 30000, 400000, RT) { roundtrip<CmwLight, VarMap>(s, o, ro); }
#endif
#if PART == 2
PROPERTY(multi, 30000, 400000, RT) { roundtrip<CmwLight, Multi>(s, o, ro); }
PROPERTY(tree, 30000, 400000, RT) { roundtrip<CmwLight, Tree>(s, o, ro); }
PROPERTY(ptrs, 30000, 400000, RT) { roundtrip<CmwLight, Ptrs>(s, o, ro); }
// units are not part of this format: annotated objects are read without checking them
#endif
#if PART == 3
PROPERTY(annot, 20000, 200000, RT) { s.coin() ? roundtripOne<CmwLight, ProtocolCheck::IGNORE, true, Annot>(s, o, ro) : roundtripOne<CmwLight, ProtocolCheck::IGNORE, false, Annot>(s, o, ro); }
PROPERTY(everything, 20000, 300000, RT) { roundtripOne<CmwLight, ProtocolCheck::IGNORE, true, Everything>(s, o, ro); }

#endif
#if PART == 4
// ---- independent encoder of the wire format ----
using Bytes = std::vector<uint8_t>;
template<typename T>
static void raw(Bytes &b, T v) {
    const auto *p = reinterpret_cast<const uint8_t *>(&v);
    b.insert(b.end(), p, p + sizeof(T));
}
static void str(Bytes &b, std::string_view v) {
    raw(b, int32_t(v.size() + 1));
    b.insert(b.end(), v.begin(), v.end());
    b.push_back(0);
}
template<typename T>
static constexpr uint8_t tid() {
    if constexpr (std::is_same_v<T, bool>) return 0;
    else if constexpr (std::is_same_v<T, int8_t>) return 1;
    else if constexpr (std::is_same_v<T, int16_t>) return 2;
    else if constexpr (std::is_same_v<T, int32_t>) return 3;
    else if constexpr (std::is_same_v<T, int64_t>) return 4;
    else if constexpr (std::is_same_v<T, float>) return 5;
    else if constexpr (std::is_same_v<T, double>) return 6;
    else if constexpr (std::is_same_v<T, std::string>) return 7;
    else if constexpr (requires { typename T::mapped_type; }) return 8;
    else if constexpr (std::is_same_v<T, char>) return 201;
    else {
        using V           = typename T::value_type;
        constexpr auto k  = tid<V>();
        constexpr int dim = [] { if constexpr (MultiArrayType<T>) return T::n_dims_ < 3 ? int(T::n_dims_) : 3; else return 1; }();
        if (k == 201) return uint8_t(201 + dim);
        return uint8_t(1 + 8 * dim + k);
    }
}
template<typename T>
static void elem(Bytes &b, const T &v) {
    if constexpr (std::is_same_v<T, std::string>) str(b, v);
    else if constexpr (std::is_same_v<T, bool>) b.push_back(v ? 1 : 0);
    else raw(b, v);
}
template<typename M> static void field(Bytes &b, std::string_view name, const M &m);
template<typename T>
static void value(Bytes &b, const T &v) {
    if constexpr (MultiArrayType<T>) {
        raw(b, int32_t(T::n_dims_));
        for (std::size_t i = 0; i < T::n_dims_; ++i) raw(b, int32_t(v.dimensions()[i]));
        raw(b, int32_t(v.elements().size()));
        for (const auto &e : v.elements()) elem<typename T::value_type>(b, e);
    } else if constexpr (std::is_same_v<T, std::string>) str(b, v);
    else if constexpr (requires { typename T::mapped_type; }) {
        raw(b, int32_t(v.size()));
        for (const auto &[k, x] : v) field(b, k, x);
    } else if constexpr (std::is_arithmetic_v<T>) elem(b, v);
    else {
        raw(b, int32_t(1));
        raw(b, int32_t(v.size()));
        raw(b, int32_t(v.size()));
        for (const auto &e : v) elem<typename T::value_type>(b, e);
    }
}
template<typename T> static void members(Bytes &b, const T &v);
template<typename M>
static void field(Bytes &b, std::string_view name, const M &m) {
    if constexpr (is_smart_pointer<M>) {
        if (m) field(b, name, *m);
    } else if constexpr (is_annotated<M>) field(b, name, ser::av(m));
    else if constexpr (isVariant<M>) std::visit([&](const auto &x) { field(b, name, x); }, m);
    else if constexpr (isReflectableClass<M>()) {
        str(b, name);
        b.push_back(8);
        members(b, m);
    } else {
        str(b, name);
        b.push_back(tid<M>());
        value(b, m);
    }
}
template<typename T>
static void members(Bytes &b, const T &v) {
    Bytes   data;
    int32_t n = 0;
    for_each(refl::reflect<T>().members, [&](auto member, auto) {
        const auto before = data.size();
        field(data, member.name.c_str(), member(v));
        if (data.size() != before) ++n;
    });
    raw(b, n);
    b.insert(b.end(), data.begin(), data.end());
}
template<typename T>
static void exact(pbt::Src &s) {
    T v{};
    gen(s, v, o);
    s.note(show(v));
    Bytes ref;
    members(ref, v);
    IoBuffer b;
    if (s.coin()) write<CmwLight, true>(b, v);
    else write<CmwLight, false>(b, v);
    IoBuffer r;
    for (auto x : ref) r.put<IoBuffer::MetaInfo::WITHOUT>(x);
    s.check(b.size() == ref.size() && std::equal(ref.begin(), ref.end(), b.data()), [&] { return "wire format differs:\n got " + hex(b) + "\n ref " + hex(r); });
    s.nontrivial(nontrivialValue(v));
}
PROPERTY(wire_format, 60000, 800000, "bytes of a random object against an independent encoder of the wire format (member counts, names, type ids, dimensions, values); non-trivial = object differs from the default") {
    switch (s.below(9)) {
    case 0: return exact<Prim>(s);
    case 1: return exact<Vecs>(s);
    case 2: return exact<Chars>(s);
    case 3: return exact<StrMaps>(s);
    case 4: return exact<VarMap>(s);
    case 5: return exact<Multi>(s);
    case 6: return exact<Ptrs>(s);
    case 7: return exact<Annot>(s);
    default: return exact<Everything>(s);
    }
}
#endif
