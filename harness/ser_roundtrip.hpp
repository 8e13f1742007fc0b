// round trip of one generated object through one protocol, for all checking modes
#pragma once
#include "ser_types.hpp"
namespace ser {
template<typename P, bool meta, typename T>
void write(IoBuffer &b, const T &v) { opencmw::serialise<P, meta>(b, v); }
template<typename T>
struct FieldCount { // expected bits of DeserialiserInfo::setFields for the root object
    static std::vector<bool> present(const T &v) {
        std::vector<bool> r;
        for_each(refl::reflect<T>().members, [&](auto member, auto) {
            if constexpr (is_smart_pointer<std::remove_cvref_t<decltype(member(v))>>) r.push_back(bool(member(v)));
            else r.push_back(true);
        });
        return r;
    }
};
struct RtOpt {
    bool metaMandatory = false; // annotated types need the meta information unless errors are ignored
    bool prefix        = true;  // other content in front of the object
    bool trailing      = false; // content behind the object is not touched
    bool lenientInfo   = true;  // no errors reported in LENIENT mode
    bool textCmp       = false;
};
template<typename P, ProtocolCheck check, bool meta, typename T>
void roundtripOne(pbt::Src &s, const Opt &o, const RtOpt &ro) {
    T sent{};
    gen(s, sent, o);
    s.note(show(sent));
    T got{};
    const bool dirty = s.coin();
    if (dirty) gen(s, got, o); // whatever the receiver held before
    T expected = copy(got);
    overlay(expected, sent);
    IoBuffer b;
    if (s.chance(1, 4)) b.reserve(s.below(2000));
    std::size_t start = 0;
    if (ro.prefix && s.chance(1, 6)) {
        const auto n = 1 + s.below(9);
        for (std::size_t i = 0; i < n; ++i) b.put<IoBuffer::MetaInfo::WITHOUT>(static_cast<char>('A' + i));
        start = b.size();
    }
    const T before = copy(sent);
    write<P, meta>(b, sent);
    s.check(eq(before, sent), "serialising changed the object");
    s.check(b.position() == 0, "serialising moved the read position");
    {
        IoBuffer again; // deterministic and independent of the buffer history
        write<P, meta>(again, sent);
        s.check(again.size() == b.size() - start && std::equal(again.data(), again.data() + again.size(), b.data() + start), [&] { return "serialising the same object again gives different bytes: " + text(again) + " vs. " + text(b); });
    }
    const std::vector<uint8_t> bytes(b.data(), b.data() + b.size());
    b.set_position(start);
    DeserialiserInfo info;
    try {
        info = opencmw::deserialise<P, check>(b, got);
    } catch (...) {
        throw pbt::Fail{ "deserialising what was serialised throws: " + describeException() + " -- " + (ro.textCmp ? text(b) : hex(b)) };
    }
    s.check(bytes.size() == b.size() && std::equal(bytes.begin(), bytes.end(), b.data()), "deserialising changed the buffer");
    s.check(eq(expected, got), [&] { return "got " + show(got) + " expected " + show(expected) + " -- " + (ro.textCmp ? text(b) : hex(b)); });
    if constexpr (check == ProtocolCheck::LENIENT) {
        if (ro.lenientInfo) {
            s.check(info.exceptions.empty(), [&] { return "errors reported for a valid buffer: " + infoText(info) + (ro.textCmp ? text(b) : hex(b)); });
            s.check(info.additionalFields.empty(), "additional fields reported");
            const auto it = info.setFields.find("root");
            s.check(it != info.setFields.end() && it->second == FieldCount<T>::present(sent), "setFields of the root object does not list exactly the received fields");
        }
    }
    s.label(std::string(check == ProtocolCheck::IGNORE ? "IGNORE" : check == ProtocolCheck::LENIENT ? "LENIENT" : "ALWAYS") + (meta ? "+meta" : ""));
    s.nontrivial(nontrivialValue(sent) && dirty);
}
template<typename P, typename T>
void roundtrip(pbt::Src &s, const Opt &o, const RtOpt &ro = {}) {
    switch (s.below(6)) {
    case 0: return roundtripOne<P, ProtocolCheck::IGNORE, true, T>(s, o, ro);
    case 1: return roundtripOne<P, ProtocolCheck::IGNORE, false, T>(s, o, ro);
    case 2: return roundtripOne<P, ProtocolCheck::LENIENT, true, T>(s, o, ro);
    case 3:
        if (ro.metaMandatory) return roundtripOne<P, ProtocolCheck::LENIENT, true, T>(s, o, ro);
        return roundtripOne<P, ProtocolCheck::LENIENT, false, T>(s, o, ro);
    case 4: return roundtripOne<P, ProtocolCheck::ALWAYS, true, T>(s, o, ro);
    default:
        if (ro.metaMandatory) return roundtripOne<P, ProtocolCheck::ALWAYS, true, T>(s, o, ro);
        return roundtripOne<P, ProtocolCheck::ALWAYS, false, T>(s, o, ro);
    }
}
} // namespace ser
