// C30: no input makes a deserialiser crash, hang, read outside its buffer or allocate without bound; errors are reported as exceptions or in the result.
#include "ser_roundtrip.hpp"
#include <IoSerialiserYaS.hpp>
#include <IoSerialiserCmwLight.hpp>
#include <IoSerialiserJson.hpp>
#include <IoSerialiserYAML.hpp>
using namespace ser;
#if PART == 0
using P = YaS;
#define NAME "YaS"
#elif PART == 1
using P = CmwLight;
#define NAME "CmwLight"
#elif PART == 2
using P = Json;
#define NAME "JSON"
#else
using P = YAML;
#define NAME "YAML"
#endif

#if PART == 3
namespace ser {
struct YVecs { // N.B. vectors of bool are not supported by this format
    std::vector<int8_t>      v8;
    std::vector<int64_t>     v64;
    std::vector<float>       vf;
    std::vector<double>      vd;
    std::vector<std::string> vs;
    std::array<int32_t, 3>   a3{};
    std::array<double, 2>    ad{};
};
} // namespace ser
ENABLE_REFLECTION_FOR(ser::YVecs, v8, v64, vf, vd, vs, a3, ad)
using VecsT = YVecs;
#else
using VecsT = Vecs;
#endif
struct All { // one object with every kind of field
    Prim                                  prim;
    VecsT                                 vecs;
    std::set<std::string>                 set;
    std::map<std::string, int32_t>        map;
#if PART != 3
    std::map<std::string, std::vector<float>> mapv;
    MultiArray<double, 2>                 multi{ std::array<std::uint32_t, 2>{} };
#endif
#if PART == 2
    std::vector<Leaf>                     objs;
#endif
    std::unique_ptr<Leaf>                 ptr;
    Annotated<double, length<metre>, "a"> ann;
    Mid                                   mid;
    std::string                           end;
};
#if PART == 3
ENABLE_REFLECTION_FOR(All, prim, vecs, set, map, ptr, ann, mid, end)
#elif PART == 2
ENABLE_REFLECTION_FOR(All, prim, vecs, set, map, mapv, multi, objs, ptr, ann, mid, end)
#else
ENABLE_REFLECTION_FOR(All, prim, vecs, set, map, mapv, multi, ptr, ann, mid, end)
#endif

static Opt opt() {
    Opt o{};
    o.maxStr = 8;
    o.maxVec = 3;
    if (PART >= 2) {
        o.keyAlphabet = "abcXY";
        o.alphabet = o.arrAlphabet = "abc 1";
        o.anyByte  = PART == 2;
        o.anyChar  = PART == 2;
    }
    return o;
}
static const Opt o = opt();

template<typename T>
static void consume(pbt::Src &s, const std::string &bytes, std::string_view kind) {
    IoBuffer b;
    b.put<IoBuffer::MetaInfo::WITHOUT>(std::string_view(bytes));
    b.shrink_to_fit();
    const auto mode   = s.below(3);
    T          got{};
    std::size_t nErr = 0;
    try {
        DeserialiserInfo i;
        switch (mode) {
        case 0: i = opencmw::deserialise<P, ProtocolCheck::IGNORE>(b, got); break;
        case 1: i = opencmw::deserialise<P, ProtocolCheck::LENIENT>(b, got); break;
        default: i = opencmw::deserialise<P, ProtocolCheck::ALWAYS>(b, got);
        }
        nErr = i.exceptions.size();
        s.label(std::string(kind) + (nErr ? ": errors reported" : ": accepted"));
    } catch (...) {
        s.label(std::string(kind) + ": exception");
        std::ignore = describeException();
    }
    s.check(b.size() == bytes.size() && (bytes.empty() || std::memcmp(b.data(), bytes.data(), bytes.size()) == 0), "reading changed the buffer");
    s.check(b.position() <= b.size(), [&] { return "read position " + std::to_string(b.position()) + " behind the end " + std::to_string(b.size()); });
    s.check(nErr <= 2 * bytes.size() + 20, "unbounded number of reported errors");
    // whatever was read is an ordinary object: it can be printed, copied and written again
    std::ignore = show(got);
    IoBuffer again;
    opencmw::serialise<P, false>(again, got);
}
template<typename T>
static std::string valid(pbt::Src &s) {
    T v{};
    gen(s, v, o);
    IoBuffer b;
    if (s.coin()) write<P, true>(b, v);
    else write<P, false>(b, v);
    return { reinterpret_cast<const char *>(b.data()), b.size() };
}
static void mutate(pbt::Src &s, std::string &t) {
    for (auto n = 1 + s.below(3); n > 0; --n) {
        const std::size_t at = t.empty() ? 0 : s.below(t.size());
        switch (s.weighted({ 3, 3, 3, 2, 2, 2, 2 })) {
        case 0: t.resize(at); break; // truncated
        case 1: if (!t.empty()) t[at] = static_cast<char>(s.below(256)); break;
        case 2: { // length fields
            const int32_t v = s.oneOf<int32_t>({ -1, 0, 1, 2, 0x7fffffff, int32_t(0x80000000), 0x40000000, 0x10000, 100, -2, -13, -20, -100 });
            if (t.size() >= 4) std::memcpy(t.data() + std::min(at, t.size() - 4), &v, 4);
            break;
        }
        case 3: t.erase(at, 1 + s.below(8)); break;
        case 4: t.insert(at, s.bytesStr(6)); break;
        case 5: t.insert(at, t.substr(at, s.below(40))); break; // repeated part
        default: t.insert(at, s.oneOf<const char *>({ "{", "}", "[", "]", "\"", ",", ":", "\\", "\\u12", "\n", "- ", "#", "  ", "...", "---", "null", "-", "1e999999", "nan", "::", "\t", " " })); break;
        }
    }
}
#define MUT "valid " NAME " data of a random object, 1-3 mutations (truncation, byte and length changes, removed, inserted and repeated parts, syntax characters), read in each checking mode under AddressSanitizer with a time limit; non-trivial = the mutated data differ from the original"
PROPERTY(mutated, 60000, 1500000, MUT) {
    std::string t = valid<All>(s);
    const std::string before = t;
    mutate(s, t);
    s.note(pbt::show(t, 300));
    s.nontrivial(before != t);
    consume<All>(s, t, "mutated");
}
PROPERTY(truncated, 20000, 400000, "every prefix position of valid " NAME " data of a random object; non-trivial = truncated inside the data") {
    std::string t = valid<All>(s);
    t.resize(s.below(t.size()));
    s.note(pbt::show(t, 300));
    s.nontrivial(t.size() > 12);
    consume<All>(s, t, "truncated");
}
PROPERTY(garbage, 40000, 800000, "arbitrary bytes and syntax soup with a valid beginning; non-trivial = longer than 8 bytes") {
    std::string t;
    if (s.coin()) {
        t = valid<Leaf>(s);
        t.resize(std::min<std::size_t>(t.size(), s.below(t.size())));
    }
    if (PART >= 2 && s.coin())
        for (auto n = s.below(30); n > 0; --n) t += s.oneOf<const char *>({ "{", "}", "[", "]", "\"", ",", ":", "\\", "\"x\": ", "\"n\":", "\"v\":[", "\n", "x: ", "n: ", "v: ", "- ", "#", "  ", "...", "---\n", "null", "true", "1", "-1.5e3", "\"q\"", "unknown: ", "\"unknown\":", " " });
    else t += s.bytesStr(60);
    s.note(pbt::show(t, 300));
    s.nontrivial(t.size() > 8);
    consume<Leaf>(s, t, "garbage");
}
#if PART == 2
PROPERTY(nesting, 300, 3000, "deeply nested values in unknown fields; non-trivial = more than 1000 levels") {
    const auto        n = s.below(200000);
    const bool        arr = s.coin();
    std::string       t = "{\"unknown\": ";
    for (std::size_t i = 0; i < n; ++i) t += arr ? "[" : "{\"a\":";
    if (s.coin()) {
        t += "1";
        for (std::size_t i = 0; i < n; ++i) t += arr ? "]" : "}";
        t += "}";
    }
    s.note(std::to_string(n));
    s.nontrivial(n > 1000);
    consume<Leaf>(s, t, "nested");
}
#endif
